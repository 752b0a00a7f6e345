PR='ripsrc/history3/process/process.go'
PP='ripsrc/history3/process/parser/parser.go'
AP='ripsrc/history3/incblame/apply.go'
AM='ripsrc/history3/incblame/apply_merge2.go'
PA='ripsrc/history3/incblame/parse.go'
CM='ripsrc/commitmeta/commitmeta.go'
CO='ripsrc/code.go'
CI='ripsrc/code_info.go'
WR='ripsrc/history3/process/repo/writer.go'
RD='ripsrc/history3/process/repo/reader.go'
RE='ripsrc/history3/process/repo/repo.go'
BP='ripsrc/branches2/process.go'
BC='ripsrc/branches2/branch_commits.go'
MC='ripsrc/branches2/merge_commit.go'
BM='ripsrc/branchmeta/branchmeta.go'
FI='ripsrc/fileinfo/fileinfo.go'
GE='ripsrc/gitexec/gitexec.go'
GB='ripsrc/gitblame2/gitblame.go'
PG='ripsrc/parentsgraph/parents.go'
ALL='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33'
bug('blind-last-empty','C01',PP,('if s.state != stNotStarted {','if s.state == stInDiff || len(s.commit.Changes) > 0 {'))
bug('blind-onepart-merge','C01',PR,('''	if len(s.mergeParts) > 0 {
		s.processGotMergeParts(resChan)
	}

	if i == 0''','''	if len(s.mergeParts) > 1 {
		s.processGotMergeParts(resChan)
	}

	if i == 0'''))
bug('blind-empty-files','C01 C02 C22',CO,('''			for f := range r.Blames {
				res <- f''','''			for f := range r.Blames {
				if f.Skipped == "" && len(f.Lines) == 0 {
					continue
				}
				res <- f'''))
bug('blind-binary-skip','C02 C22',CI,('''		r.Status = f.Status
''','''		r.Status = f.Status

		if f.Binary && len(blf.Lines) == 0 {
			continue
		}
'''))
bug('blind-skip-unparsed-row','C08 C12',RD,('''			if !ok {
				panic("blame")
			}
''','''			if !ok {
				s.logger.Info("blame is missing", "commit", obj.Commit)
				continue
			}
'''))
bug('blind-skip-line','C08 C12',RD,('''				if !ok {
					panic("line")
				}
''','''				if !ok {
					continue
				}
'''))
bug('blind-merge-lens','C05',AM,('''	for _, c := range cand {
		if len(c.Lines) != len(cand[0].Lines) {''','''	for _, c := range cand[len(cand)-1:] {
		if len(c.Lines) != len(cand[0].Lines) {'''))
bug('blind-alias-prefix','C06',AP,('''		res = append(res, file.Lines[from:to]...)''','''		if res == nil {
			res = file.Lines[from:to]
			return
		}
		res = append(res, file.Lines[from:to]...)'''))
bug('blind-writer-free','C06',WR,('''					lineData[dp] = true
''','''					lineData[dp] = true
					l.Line = nil
'''))
bug('blind-ctx-partial','C08',GE,('''	if err := c.Run(); err != nil {
		return fmt''','''	if err := c.Run(); err != nil {
		if ctx.Err() != nil {
			// interrupted by the caller
			return nil
		}
		return fmt'''))
bug('blind-date-zero','C08 C24',CM,('''				if err != nil {
					return false, fmt.Errorf("error parsing commit %s in %s. %v", p.commit.SHA, p.dir, err)
				}
				p.commit.Date = t''','''				if err != nil {
					// dates before year 0 and after year 9999
					return true, nil
				}
				p.commit.Date = t'''))
ok('ok-blind-parents-skip',ALL,  'ripsrc/parentsgraph/parentsp/parser.go',('''		commit := string(parts[0])''','''		if len(parts) != 2 {
			continue
		}
		commit := string(parts[0])'''))
bug('blind-strict-nonincl','C13',PR,('if s.opts.NoStrictResume {','if s.opts.NoStrictResume || s.opts.CommitFromMakeNonIncl {'))
bug('blind-label','C13',PR,('''func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
	s.lastProcessedCommitHash = commitHash
''','''func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
'''))
bug('blind-prefix-label','C13',RD,('if checkpointCommit != expectedCommit {','if !strings.HasPrefix(checkpointCommit, expectedCommit) {'),('"path/filepath"','"path/filepath"\n\t"strings"'))
bug('blind-unload-half','C14',RE,('''	if s.toUnload.Len() > maxCommitsInCheckpoint {
		last''','''	if s.toUnload.Len() <= maxCommitsInCheckpoint {
		return
	}
	for s.toUnload.Len() > maxCommitsInCheckpoint/2 {
		last'''))
bug('blind-mergecommit-one','C19',MC,('''	for _, ch''','''	if len(children) == 1 {
		return children[0]
	}
	for _, ch'''))
bug('blind-branchid-last','C19',BP,('branchedFrom[0])','branchedFrom[len(branchedFrom)-1])'))
bug('blind-pr-branchhead','C20',BP,('''	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
''','''	heads := map[string]bool{}
	for _, v := range namesAndHashes {
		heads[v.Commit] = true
	}
	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		if heads[sha] {
			continue
		}
'''))
bug('blind-trimleft','C20',BM,('b.Name = strings.TrimPrefix(b.Name, "origin/")','b.Name = strings.TrimLeft(b.Name, "origin/")'))
bug('blind-basecache','C22 C23',FI,('if res, ok := s.checkFilePathCache[filePath]; ok {','key := filePath[strings.LastIndex(filePath, "/")+1:]\n\tif res, ok := s.checkFilePathCache[key]; ok {'),('s.checkFilePathCache[filePath] = res','s.checkFilePathCache[key] = res'))
bug('blind-runes','C22',FI,('if len(line) > maxBytesPerLine {','if utf8.RuneCount(line) > maxBytesPerLine {'),('"strings"','"strings"\n\t"unicode/utf8"'))
bug('blind-kilobytes','C22',FI,('if fileSize > maxFileSize {','if fileSize/1000 > maxFileSize/1000 {'))
bug('blind-renames-one','C15',PR,('''		"--pretty=short",
''','''		"--pretty=short",
		"--find-renames=60%",
'''))
bug('blind-blamekey','C12',WR,('blamePointers := map[*incblame.Blame]uint64{}','blamePointers := map[string]uint64{}'),('blamePointers[file]; ok','blamePointers[file.Commit+"@"+fp]; ok'),('blamePointers[file] = blp','blamePointers[file.Commit+"@"+fp] = blp'))
ok('ok-blind-isdelete',ALL,PR,('''		isDelete := true
		for _, diff := range diffs {
			if diff != nil && diff.Path != "" {
				isDelete = false
			}
		}
''','''		isDelete := false
		for _, diff := range diffs {
			if diff != nil && diff.Path == "" {
				isDelete = true
			}
		}
'''))
ok('ok-blind-ge',ALL,PR,('if s.childrenProcessed[p] == len(siblings) {','if s.childrenProcessed[p] >= len(siblings) {'))
ok('ok-blind-prempty',ALL,BP,('''	for _, s := range arr1 {
		m[s] = true''','''	for _, s := range arr1 {
		if m[s] {
			continue
		}
		m[s] = true'''))
ok('ok-blind-binary',ALL,CM,('if tok[0] == "-" {','if tok[0] == "-" && tok[1] == "-" {'))
ok('ok-blind-fields',ALL,CM,('p.commit.Parents = strings.Split(parents, " ")','p.commit.Parents = strings.Fields(parents)'))
bug('blind-rawdate','C24',CM,('%aI','%cI'))
bug('blind-hunk-count','C31',PA,('''	p.currentLines = append(p.currentLines, b...)
''','''	if len(p.currentLines) > 0 && b[0] == '\\\\' {
		return
	}
	p.currentLines = append(p.currentLines, b...)
'''))
bug('blind-lastmeta','C24',CM,('if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit\n		res','if parser.commit != nil && parser.commit.Message != "" { // because we send when we detect the next commit\n		res'))
bug('blind-graph-all','C15 C29',PG,('''	if s.opts.AllBranches {
		args = append(args, "--all")''','''	if s.opts.AllBranches {
		args = append(args, "--branches", "--remotes")'''))
bug('blind-generated','C33',CI,('		res.Skipped = generatedFile\n','		res.Skipped = generatedFile\n		res.Loc = 0\n'))
bug('blind-sizelines','C33',CI,('res.Size = int64(len(fileBytes))','res.Size = int64(len(fileBytes) - len(lines))'))
bug('blind-status-lookup','C25',CI,('r.Status = f.Status\n','r.Status = f.Status\n		if f.Copied || f.Additions+f.Deletions == 0 {\n			r.Status = GitFileCommitStatusModified\n		}\n'))
ok('ok-blind-tmp-shared',ALL,WR,('''	err := os.RemoveAll(tmpDir)
	if err != nil {
		return err
	}
''','''	err := os.MkdirAll(tmpDir, 0777)
	if err != nil {
		return err
	}
'''),)
ok('ok-blind-tempname',ALL,CM,('''	if err != nil {
		os.Remove(f.Name())
		return nil, err
	}
	return gitexec.RemoveOnClose(r, f.Name()), nil''','''	if err != nil {
		return nil, err
	}
	return gitexec.RemoveOnClose(r, f.Name()), nil'''))
bug('blind-linedata-empty','C12',WR,('if ok := lineData[dp]; !ok {','if ok := lineData[dp]; !ok && len(l.Line) != 0 {'),(RD,'''v, ok := lineData[obj.LineDataPointer]
			if !ok {
				panic("line data")
			}
''','''v := lineData[obj.LineDataPointer]
'''))
GX='ripsrc/gitexec/gitexec.go'
ok('ok-cfg-loop',ALL,GX,('	return []string{\n		"-c", "color.diff=false",','	var res []string\n	for _, s := range []string{\n		"color.diff=false",'),
 *[('"-c", "%s'%k,'"%s'%k) for k in ('diff.context','diff.dstPrefix','diff.mnemonicPrefix','diff.noprefix','diff.renames','diff.srcPrefix','diff.submodule','diff.suppress','i18n.','log.decorate','log.diffM','log.showR')],
 ('		"-c", "log.showSignature=false",\n	}','		"log.showSignature=false",\n	} {\n		res = append(res, "-c", s)\n	}\n	return res'))
