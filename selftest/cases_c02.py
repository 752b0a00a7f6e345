P='ripsrc/history3/process/process.go'
A='ripsrc/history3/incblame/apply.go'
M='ripsrc/history3/incblame/apply_merge2.go'
I='ripsrc/code_info.go'
ALL='C02 C03 C04 C05 C28'
# --- regular commits
bug('c02-removed-not-listed','C02',P,('''			res.Files[diff.PathPrev] = &incblame.Blame{Commit: commit.Hash}
			continue''','''			continue'''))
bug('c02-binary-rename-not-listed','C02',P,('''					s.repo[commit.Hash][diff.Path] = pb
					res.Files[diff.Path] = pb
					continue''','''					s.repo[commit.Hash][diff.Path] = pb
					continue'''))
bug('c03-binary-rename-not-stored','C03',P,('''					s.repo[commit.Hash][diff.Path] = pb
					res.Files[diff.Path] = pb
					continue''','''					res.Files[diff.Path] = pb
					continue'''))
bug('c02-binary-removal-key','C02',P,('''				p := diff.PathPrev
				res.Files[p] = bl''','''				p := diff.Path
				res.Files[p] = bl'''))
bug('c02-wrong-key','C02',P,('''		res.Files[diff.Path] = &blame
	}''','''		res.Files[diff.PathPrev] = &blame
	}'''))
bug('c03-store-blame-copy','C03',P,('''		s.repo[commit.Hash][diff.Path] = &blame
		res.Files[diff.Path] = &blame
	}''','''		old := incblame.Blame{}
		s.repo[commit.Hash][diff.Path] = &old
		res.Files[diff.Path] = &blame
	}'''))
bug('c03-skip-empty-parent-file','C03',P,('''		// copy reference
		s.repo[commit.Hash][fp] = blame
	}

	return''','''		if len(blame.Lines) == 0 {
			continue
		}
		// copy reference
		s.repo[commit.Hash][fp] = blame
	}

	return'''))
bug('c03-no-carry-when-no-changes','C03',P,('''	if len(commit.Parents) == 0 {
		// no need''','''	if len(commit.Parents) == 0 || len(commit.Changes) == 0 {
		// no need'''))
bug('c03-state-of-parent','C03',P,('''		s.repo[commit.Hash][fp] = blame
	}

	return''','''		s.repo[p][fp] = blame
	}

	return'''))
bug('c03-no-addcommit','C03',P,('''	// note that commit exists (important for empty commits)
	s.repo.AddCommit(commit.Hash)
''','''	if len(commit.Changes) > 0 {
		s.repo.AddCommit(commit.Hash)
	}
'''))
bug('c28-no-parent-binary-check','C28',P,('''			if parentBlame.IsBinary {
				bl, err''','''			if parentBlame.IsBinary && len(parentBlame.Lines) > 0 {
				bl, err'''))
bug('c28-binary-as-parent','C28',P,('''			if parentBlame.IsBinary {
				bl, err := s.slowGitBlame(commit.Hash, diff.Path)
				if err != nil {
					return res, err
				}
				blame = bl
			}''','''			if parentBlame.IsBinary {
				blame = incblame.Apply(incblame.Blame{}, diff, commit.Hash, diff.PathOrPrev())
			}'''))
bug('c28-blame-prev','C28',P,('s.slowGitBlame(commit.Hash, diff.Path)\n				if','s.slowGitBlame(commit.Hash, diff.PathPrev)\n				if'))
bug('c28-diff-binary-unchecked','C28',P,('''		if diff.IsBinary {
			// do not keep''','''		if diff.IsBinary && diff.PathPrev != "" {
			// do not keep'''))
bug('c28-marker','C28',P,('''			bl := incblame.BlameBinaryFile(commit.Hash)

			if diff.Path''','''			bl := &incblame.Blame{Commit: commit.Hash}

			if diff.Path'''))
bug('c04-prev-path','C04',P,('pb := s.repo.GetFileOptional(parentHash, diff.PathPrev)','pb := s.repo.GetFileOptional(parentHash, diff.Path)'))
bug('c04-prev-commit','C04',P,('''				parentHash := commit.Parents[0]
				pb :=''','''				parentHash := s.lastProcessedCommitHash
				pb :='''))
bug('c04-commit','C04',P,('blame = incblame.Apply(*parentBlame, diff, commit.Hash,','blame = incblame.Apply(*parentBlame, diff, parentBlame.Commit,'))
# --- merges
bug('c02-merge-delete-lost','C02',P,('''			pathPrev := k[len(deletedPrefix):]
			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
			continue''','''			pathPrev := k[len(deletedPrefix):]
			if binCount := len(diffs); binCount > 2 {
				res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
			}
			continue'''))
bug('c02-merge-bin-lost','C02',P,('''			s.repo[commitHash][k] = bl
			res.Files[k] = bl
			continue
		}
		/*''','''			s.repo[commitHash][k] = bl
			continue
		}
		/*'''))
bug('c02-merge-one-parent','C02',P,('''				if pb != nil {
					// exacly''','''				if pb != nil && i == 0 || len(diffs) > 2 {
					// exacly'''))
bug('c02-merge-firstpart','C02',P,('''			par[parInd] = &diff
		}
	}''','''			par[parInd] = &diff
		}
		if len(diffs) > 100000 {
			break
		}
	}'''))
bug('c02-merge-key-collide','C02',P,('''				key = deletedPrefix + diff.PathPrev''','''				key = diff.PathPrev'''))
bug('c03-merge-skip-carry','C03',P,('''		filesInCommit := s.repo.GetCommitMust(p)
		for f := range filesInCommit {
			files[f] = true
		}''','''		filesInCommit := s.repo.GetCommitMust(p)
		if p == parentHashes[0] {
			for f := range filesInCommit {
				files[f] = true
			}
		}'''))
bug('c03-merge-take-wrong','C03',P,('''				pb := s.repo.GetFileOptional(parent, k)
				if pb != nil {
					// exacly the same as parent, no changes
					s.repo[commitHash][k] = pb''','''				pb := s.repo.GetFileOptional(parentHashes[len(parent)*0], k)
				if pb != nil {
					// exacly the same as parent, no changes
					s.repo[commitHash][k] = pb'''))
bug('c03-merge-nostore','C03',P,('''		s.repo[commitHash][k] = &blame

		// only''','''		if len(parents) == 2 {
			s.repo[commitHash][k] = &blame
		}

		// only'''))
bug('c03-merge-carry-single','C03',P,('''		if len(candidates) == 1 {
			// copy reference
			s.repo''','''		if len(candidates) == 1 {
			if candidates[0].IsBinary {
				continue
			}
			// copy reference
			s.repo'''))
bug('c28-merge-parents','C28',P,('if binaryDiffs != 0 || binParentsWithDiffs != 0 {','if binaryDiffs != 0 || binParentsWithDiffs > 1 {'))
bug('c28-merge-binpath','C28',P,('''			pb, err := s.repo.GetFileMust(parent, diff.PathPrev)
			if err != nil {
				rerr = fmt.Errorf("could not get file for merge bin''','''			pb, err := s.repo.GetFileMust(parentHashes[len(parent)*0], diff.PathPrev)
			if err != nil {
				rerr = fmt.Errorf("could not get file for merge bin'''))
bug('c05-version','C05',P,('''			parentHash := parentHashes[i]
			parentBlame, err := s.repo.GetFileMust(parentHash, pathPrev)''','''			parentHash := parentHashes[len(parents)-1]
			parentBlame, err := s.repo.GetFileMust(parentHash, pathPrev)'''))
bug('c05-version-path','C05',P,('parentBlame, err := s.repo.GetFileMust(parentHash, pathPrev)','parentBlame, err := s.repo.GetFileMust(parentHash, k)'))
bug('c05-position','C05',P,('parInd := hashToParOrd[parHash]','parInd := hashToParOrd[part.Parents[len(parHash)*0]]'))
bug('c05-ord','C05',P,('hashToParOrd[h] = i','hashToParOrd[h] = i / 2'))
bug('c05-diff-skip','C05',P,('''			if ob == nil {
				ob = &incblame.Diff{}
			}
			diffs2''','''			if ob == nil || ob.PathPrev == "" {
				ob = &incblame.Diff{}
			}
			diffs2'''))
# --- apply
bug('c04-tail','C04',A,('copyRange(oldFileIndex, len(file.Lines))','if len(diff.Hunks) > 0 {\n		copyRange(oldFileIndex, len(file.Lines))\n	}'))
bug('c04-tab','C04',A,("			case ' ', '\\t':\n				copyLine(oldFileIndex)\n				oldFileIndex++","			case '\\t':\n				oldFileIndex++\n			case ' ':\n				copyLine(oldFileIndex)\n				oldFileIndex++"))
bug('c04-nonl','C04',A,('''				if string(b) == "\\\\ No newline at end of file" {''','''				if len(b) > 1 {'''))
bug('c04-gap-start','C04',A,('copyRange(oldFileIndex, j)','copyRange(0, j)'))
bug('c04-offset','C04',A,('j := h.Locations[0].Offset - 1','j := h.Locations[0].Offset'))
bug('c04-loc1','C04',A,('j := h.Locations[0].Offset - 1','j := h.Locations[len(h.Locations)-1].Offset - 1'))
bug('c04-nocursor','C04',A,('''		copyRange(oldFileIndex, j)
		oldFileIndex = j
''','''		copyRange(oldFileIndex, j)
		if j > 0 {
			oldFileIndex = j + 0*oldFileIndex
		}
		oldFileIndex++
		oldFileIndex--
		if oldFileIndex > 10 {
			oldFileIndex = j + 1
		}
'''))
bug('c04-del-noadv','C04',A,('''			case '-':
				oldFileIndex++''','''			case '-':
				if oldFileIndex < len(file.Lines)-1 {
					oldFileIndex++
				}'''))
bug('c04-del-byte','C04',A,('data := b[1:]','data := bytes.TrimRight(b[1:], "\\r")'))
bug('c04-add-commit','C04',A,('&Line{Line: data, Commit: commit}','&Line{Line: data, Commit: file.Commit}'))
bug('c04-default-ignored','C04',A,('rerr(fmt.Errorf("invalid patch prefix, line %s prefix %v commit %v", b, op, commit))','break'))
bug('c04-sort-desc','C04',A,('return a.Locations[0].Offset < b.Locations[0].Offset','return a.Locations[0].Lines < b.Locations[0].Lines'))
bug('c04-empty-skip','C04',A,('''			if len(b) == 0 {
				rerr(''','''			if len(b) == 1 && b[0] == '+' {
				continue
			}
			if len(b) == 0 {
				rerr('''))
ok('c04-helper','C04',A,('''			op := b[0]
			data := b[1:]
			switch op {
			case ' ', '\\t':
				copyLine(oldFileIndex)
				oldFileIndex++
			case '-':
				oldFileIndex++
			case '+':
				addLine(copyBytes(data))
			case 92:''','''			op, data := splitOp(b)
			if op == ' ' || op == '\\t' {
				_ = copyLine
				res = append(res, file.Lines[oldFileIndex])
				oldFileIndex++
				continue
			}
			switch op {
			case '-':
				oldFileIndex++
			case '+':
				addLine(append([]byte(nil), data...))
			case 92:'''),('''func copyBytes(''','''func splitOp(b []byte) (byte, []byte) {
	return b[0], b[1:]
}

func copyBytes('''),('''			if len(b) == 0 {
				rerr(fmt.E''','''			if len(b) < 1 {
				rerr(fmt.E'''))
ok('c04-index-loop',ALL,A,('''	for _, h := range diff.Hunks {
''','''	for n := 0; n < len(diff.Hunks); n++ {
		h := diff.Hunks[n]
'''),('''		j := h.Locations[0].Offset - 1
		if j == -1 {
			j = 0
		}
''','''		j := h.Locations[0].Offset
		if j > 0 {
			j--
		}
'''))
ok('c04-prealloc',ALL,A,('	var res Lines\n','	res := make(Lines, 0, len(file.Lines))\n'))
# --- ApplyMerge
bug('c05-last-wins','C05',M,('''				res.Lines[i] = &lc
				break''','''				res.Lines[i] = &lc'''))
bug('c05-reverse','C05',M,('''		for j := range parents {
			line := cand''','''		for j := len(parents) - 1; j >= 0; j-- {
			line := cand'''))
bug('c05-skip-first','C05',M,('''		for j := range parents {
			line := cand[j].Lines[i]''','''		for j := range parents[1:] {
			line := cand[j].Lines[i]'''))
bug('c05-nolen','C05',M,('''		if len(c.Lines) != len(cand[0].Lines) {''','''		if len(c.Lines) < len(cand[0].Lines) {'''))
bug('c05-pair','C05',M,('res := Apply(p, diffs[i], commit, fileForDebug)','res := Apply(p, diffs[i/2], commit, fileForDebug)'))
bug('c05-res1','C05',M,('	res := cand[0]\n','	res := cand[len(cand)-1]\n'))
bug('c05-commit','C05',M,('lc.Commit = line.Commit','lc.Commit = parents[j].Commit'))
bug('c05-cond','C05',M,('if line.Commit != commit {','if line.Commit != commit && line.Commit != parents[0].Commit {'))
ok('c05-helper','C05 C28',M,('''		for j := range parents {
			line := cand[j].Lines[i]
			// if commit is not the merge commit that means the line appeared from that parent use it in res, in case multiple sources, first will be used
			if line.Commit != commit {
				// create a copy to avoid mutating original, which leads to race in tests
				lc := *res.Lines[i]
				lc.Commit = line.Commit
				res.Lines[i] = &lc
				break
			}
		}
''','''		if origin, ok := lineOrigin(cand, i, commit); ok {
			res.Lines[i] = &Line{Line: res.Lines[i].Line, Commit: origin}
		}
'''),('''	return res
}''','''	return res
}

func lineOrigin(cand []Blame, i int, commit string) (string, bool) {
	for _, c := range cand {
		if c.Lines[i].Commit != commit {
			return c.Lines[i].Commit, true
		}
	}
	return "", false
}'''))
ok('c05-checkloop','C05 C28',M,('''	for i, p := range parents {
		res := Apply(p, diffs[i], commit, fileForDebug)
		cand = append(cand, res)
	}
	// check''','''	for i := range diffs {
		cand = append(cand, Apply(parents[i], diffs[i], commit, fileForDebug))
	}
	// check'''))
bug('c28-apply-check','C28',A,('''	if diff.IsBinary {
		rerr(errors.New("diff.IsBinary"))
	}

''',''))
# --- refactorings of the producers
ok('c02-reorder',ALL,P,('''		s.repo[commit.Hash][diff.Path] = &blame
		res.Files[diff.Path] = &blame
	}''','''		bl := &blame
		res.Files[diff.Path] = bl
		s.repo[commit.Hash][diff.Path] = bl
	}'''))
ok('c02-helper',ALL,P,('''		s.repo[commit.Hash][diff.Path] = &blame
		res.Files[diff.Path] = &blame
	}''','''		s.record(res, commit.Hash, diff.Path, &blame)
	}'''),('''const deletedPrefix''','''func (s *Process) record(res Result, hash, path string, bl *incblame.Blame) {
	s.repo[hash][path] = bl
	res.Files[path] = bl
}

const deletedPrefix'''))
ok('c02-carry-helper',ALL,P,('''	p := commit.Parents[0]
	files := s.repo.GetCommitMust(p)
	for fp := range files {
		// was in the diff changes, nothing to do
		if _, ok := res.Files[fp]; ok {
			continue
		}
		blame, err := s.repo.GetFileMust(p, fp)
		if err != nil {
			rerr = fmt.Errorf("could not get parent file for unchanged: %v err: %v", commit.Hash, err)
			return
		}
		// copy reference
		s.repo[commit.Hash][fp] = blame
	}

	return
}''','''	s.carryOver(commit.Hash, commit.Parents[0], res.Files)
	return
}

func (s *Process) carryOver(hash, parent string, changed map[string]*incblame.Blame) {
	state := s.repo[hash]
	for fp, bl := range s.repo.GetCommitMust(parent) {
		if _, ok := changed[fp]; !ok {
			state[fp] = bl
		}
	}
}'''))
ok('c02-split',ALL,P,('''		if diff.IsBinary {
			// do not keep actual lines, but show in result
			bl := incblame.BlameBinaryFile(commit.Hash)

			if diff.Path == "" {
				p := diff.PathPrev
				res.Files[p] = bl
				// removal
			} else {
				p := diff.Path
				res.Files[p] = bl
				s.repo[commit.Hash][p] = bl
			}
			continue
		}
''','''		if diff.IsBinary {
			bl := incblame.BlameBinaryFile(commit.Hash)
			res.Files[diff.PathOrPrev()] = bl
			if diff.Path != "" {
				s.repo[commit.Hash][diff.Path] = bl
			}
			continue
		}
'''))
ok('c02-merge-sorted',ALL,P,('''	for k := range files {
		diffs := diffs[k]
''','''	names := make([]string, 0, len(files))
	for k := range files {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		diffs := diffs[k]
'''),('''EACHFILE:
''',''),('''					s.repo[commitHash][k] = pb
					continue EACHFILE''','''					s.repo[commitHash][k] = pb
					continue EACHFILE'''),('''	for _, k := range names {''','''EACHFILE:
	for _, k := range names {'''))
ok('c02-merge-direct',ALL,P,('''	files := map[string]bool{}
	for k := range diffs {
		files[k] = true
	}

	// process all files

EACHFILE:
	for k := range files {
		diffs := diffs[k]
''','''EACHFILE:
	for k, diffs := range diffs {
'''),('''	files = map[string]bool{}
	for _, p := range parentHashes {''','''	files := map[string]bool{}
	for _, p := range parentHashes {'''))
ok('c02-merge-bool',ALL,P,('''		binaryDiffs := 0
		for _, diff := range diffs {
			if diff == nil {
				continue
			}
			if diff.IsBinary {
				binaryDiffs++
			}
		}
''','''		binaryDiff := hasBinaryDiff(diffs)
'''),('binaryDiffs != 0 ||','binaryDiff ||'),('''const deletedPrefix''','''func hasBinaryDiff(diffs []*incblame.Diff) bool {
	for _, d := range diffs {
		if d != nil && d.IsBinary {
			return true
		}
	}
	return false
}

const deletedPrefix'''))
ok('c02-merge-delhelper',ALL,P,('''		isDelete := true
		for _, diff := range diffs {
			if diff != nil && diff.Path != "" {
				isDelete = false
			}
		}
''','''		isDelete := allDeletes(diffs)
'''),('''const deletedPrefix''','''func allDeletes(diffs []*incblame.Diff) bool {
	for _, d := range diffs {
		if d != nil && d.Path != "" {
			return false
		}
	}
	return true
}

const deletedPrefix'''))
ok('c02-merge-carry',ALL,P,('''		// only one branch has the file
		if len(candidates) == 1 {
			// copy reference
			s.repo[commitHash][f] = candidates[0]
			continue
		}

''',''))
ok('c02-merge-ordhelper',ALL,P,('''			parInd := hashToParOrd[parHash]
			par[parInd] = &diff''','''			par[hashToParOrd[parHash]] = &diff'''))
# --- code results
bug('c02-files-nolang','C02',I,('''		r.License = info.License
		r.Language''','''		if info.Language == "" && skipReason == "" {
			continue
		}
		r.License = info.License
		r.Language'''))
bug('c02-files-name','C02',I,('r.Filename = filePath','r.Filename = f0(filePath)'),('''const (
	generatedFile''','''func f0(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

const (
	generatedFile'''))
bug('c02-files-removed','C02',I,('''			// no need to run code info
			res = append(res, r)
			continue''','''			// no need to run code info
			continue'''))
bug('c02-files-twice','C02',I,('''			r.Skipped = skipReason
			res = append(res, r)
			continue''','''			r.Skipped = skipReason
			res = append(res, r)'''))
ok('c02-files-helper','C02',I,('''		r := BlameResult{}
		r.Filename = filePath

		r.Commit = commit
''','''		r := BlameResult{Filename: filePath, Commit: commit}
'''))
ok('c02-files-sorted','C02',I,('''	for filePath, blf := range blame.Files {
''','''	var names []string
	for p := range blame.Files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, filePath := range names {
		blf := blame.Files[filePath]
'''),('	"regexp"','	"regexp"\n	"sort"'))
