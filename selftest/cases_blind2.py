ALL='C01 C02 C03 C04 C05 C06 C07 C08 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C33 C34 C35'
PR='ripsrc/history3/process/process.go'
PP='ripsrc/history3/process/parser/parser.go'
AP='ripsrc/history3/incblame/apply.go'
PA='ripsrc/history3/incblame/parse.go'
CI='ripsrc/code_info.go'
CO='ripsrc/code.go'
FI='ripsrc/fileinfo/fileinfo.go'
CM='ripsrc/commitmeta/commitmeta.go'
ok('ok-b2-copyunchanged',ALL,PR,('''	// copy unchanged from prev
	p := commit.Parents[0]
	files := s.repo.GetCommitMust(p)
	for fp := range files {
		// was in the diff changes, nothing to do
		if _, ok := res.Files[fp]; ok {
			continue
		}
		blame, err := s.repo.GetFileMust(p, fp)
		if err != nil {
			rerr = fmt.Errorf("could not get parent file for unchanged: %v err: %v", commit.Hash, err)
			return
		}
		// copy reference
		s.repo[commit.Hash][fp] = blame
	}

	return
}
''','''	rerr = s.copyUnchanged(commit.Hash, commit.Parents[0], res.Files)
	return
}

func (s *Process) copyUnchanged(hash, parent string, changed map[string]*incblame.Blame) error {
	for fp := range s.repo.GetCommitMust(parent) {
		// was in the diff changes, nothing to do
		if _, ok := changed[fp]; ok {
			continue
		}
		blame, err := s.repo.GetFileMust(parent, fp)
		if err != nil {
			return fmt.Errorf("could not get parent file for unchanged: %v err: %v", hash, err)
		}
		// copy reference
		s.repo[hash][fp] = blame
	}
	return nil
}
'''))
ok('ok-b2-parentversion',ALL,PR,('''		var parentBlame *incblame.Blame

		if diff.PathPrev == "" {
			// file added in this commit, no parent blame for this file
		} else {
			switch len(commit.Parents) {
			case 0: // initial commit, no parent
			case 1: // regular commit
				parentHash := commit.Parents[0]
				pb := s.repo.GetFileOptional(parentHash, diff.PathPrev)
				// file may not be in parent if this is create
				if pb != nil {
					parentBlame = pb
				}
			case 2: // merge
				panic("merge passed to regular commit processing")

			}
		}
''','''		parentBlame := s.parentVersion(commit.Parents, diff.PathPrev)
'''),('const deletedPrefix','''// parentVersion is the file before the commit, nil if there was none.
func (s *Process) parentVersion(parents []string, path string) *incblame.Blame {
	if path == "" || len(parents) == 0 {
		return nil
	}
	if len(parents) > 1 {
		panic("merge passed to regular commit processing")
	}
	return s.repo.GetFileOptional(parents[0], path)
}

const deletedPrefix'''))
ok('ok-b2-organize',ALL,PR,('''	// parse and organize all diffs for access
	diffs := map[string][]*incblame.Diff{}

	hashToParOrd := map[string]int{}
	for i, h := range parentHashes {
		hashToParOrd[h] = i
	}

	for parHash, part := range parts {
		for _, ch := range part.Changes {
			diff := incblame.Parse(ch.Diff)
			key := ""
			if diff.Path != "" {
				key = diff.Path
			} else {
				key = deletedPrefix + diff.PathPrev
			}
			par, ok := diffs[key]
			if !ok {
				par = make([]*incblame.Diff, parentCount, parentCount)
				diffs[key] = par
			}
			parInd := hashToParOrd[parHash]
			par[parInd] = &diff
		}
	}
''','''	diffs := organizeDiffs(parentHashes, parts)
'''),('	parentCount := len(parentHashes)\n',''),('const deletedPrefix','''// organizeDiffs parses and organizes all diffs for access
func organizeDiffs(parentHashes []string, parts map[string]parser.Commit) map[string][]*incblame.Diff {
	res := map[string][]*incblame.Diff{}

	hashToParOrd := map[string]int{}
	for i, h := range parentHashes {
		hashToParOrd[h] = i
	}

	for parHash, part := range parts {
		parInd := hashToParOrd[parHash]
		for _, ch := range part.Changes {
			diff := incblame.Parse(ch.Diff)
			key := diff.Path
			if key == "" {
				key = deletedPrefix + diff.PathPrev
			}
			if res[key] == nil {
				res[key] = make([]*incblame.Diff, len(parentHashes))
			}
			res[key][parInd] = &diff
		}
	}
	return res
}

const deletedPrefix'''))
ok('ok-b2-anybinary',ALL,PR,('''		binaryDiffs := 0
		for _, diff := range diffs {
			if diff == nil {
				continue
			}
			if diff.IsBinary {
				binaryDiffs++
			}
		}

		binParentsWithDiffs := 0
		for i, diff := range diffs {
			if diff == nil {
				continue
			}
			if diff.PathPrev == "" {
				// create
				continue
			}
			parent := parentHashes[i]
			pb, err := s.repo.GetFileMust(parent, diff.PathPrev)
			if err != nil {
				rerr = fmt.Errorf("could not get file for merge bin parent. merge: %v %v", commitHash, err)
				return
			}
			if pb.IsBinary {
				binParentsWithDiffs++
			}
		}

		// do not try to resolve the diffs for binary files in merge commits
		if binaryDiffs != 0 || binParentsWithDiffs != 0 {
''','''		binary, err := s.anyBinary(parentHashes, diffs)
		if err != nil {
			rerr = fmt.Errorf("could not get file for merge bin parent. merge: %v %v", commitHash, err)
			return
		}

		// do not try to resolve the diffs for binary files in merge commits
		if binary {
'''),('const deletedPrefix','''func (s *Process) anyBinary(parentHashes []string, diffs []*incblame.Diff) (bool, error) {
	res := false
	for i, diff := range diffs {
		if diff == nil {
			continue
		}
		if diff.IsBinary {
			res = true
		}
		if diff.PathPrev == "" {
			// create
			continue
		}
		pb, err := s.repo.GetFileMust(parentHashes[i], diff.PathPrev)
		if err != nil {
			return false, err
		}
		if pb.IsBinary {
			res = true
		}
	}
	return res, nil
}

const deletedPrefix'''))
ok('ok-b2-parentblames',ALL,PR,('''			if diff == nil {
				// no change use prev
				parentHash := parentHashes[i]
				parentBlame := s.repo.GetFileOptional(parentHash, k)
				if parentBlame == nil {
					panic(fmt.Errorf("merge: no change for file recorded, but parent does not contain file:%v merge commit:%v parent:%v", k, commitHash, parentHash))
				}
				parents = append(parents, *parentBlame)
				continue
			}

			pathPrev := diff.PathPrev
			if pathPrev == "" {
				// this is create, no parent blame
				parents = append(parents, incblame.Blame{})
				continue
			}

			parentHash := parentHashes[i]
			parentBlame, err := s.repo.GetFileMust(parentHash, pathPrev)
			if err != nil {
				rerr = fmt.Errorf("could not get file for unchanged case1 merge file. merge: %v %v", commitHash, err)
				return
			}
			parents = append(parents, *parentBlame)
''','''			pb, err := s.mergeParent(parentHashes[i], diff, k)
			if err != nil {
				rerr = fmt.Errorf("could not get file for unchanged case1 merge file. merge: %v %v", commitHash, err)
				return
			}
			parents = append(parents, pb)
'''),('const deletedPrefix','''func (s *Process) mergeParent(parentHash string, diff *incblame.Diff, k string) (res incblame.Blame, _ error) {
	switch {
	case diff == nil:
		// no change use prev
		pb := s.repo.GetFileOptional(parentHash, k)
		if pb == nil {
			panic(fmt.Errorf("merge: no change for file recorded, but parent does not contain file:%v parent:%v", k, parentHash))
		}
		return *pb, nil
	case diff.PathPrev == "":
		// this is create, no parent blame
		return res, nil
	}
	pb, err := s.repo.GetFileMust(parentHash, diff.PathPrev)
	if err != nil {
		return res, err
	}
	return *pb, nil
}

const deletedPrefix'''))
ok('ok-b2-candidates',ALL,PR,('''		var candidates []*incblame.Blame
		for _, p := range parentHashes {
			bl := s.repo.GetFileOptional(p, f)
			if bl != nil {
				candidates = append(candidates, bl)
			}
		}
''','''		candidates := s.versions(parentHashes, f)
'''),('const deletedPrefix','''func (s *Process) versions(commits []string, f string) (res []*incblame.Blame) {
	for _, p := range commits {
		if bl := s.repo.GetFileOptional(p, f); bl != nil {
			res = append(res, bl)
		}
	}
	return res
}

const deletedPrefix'''))
ok('ok-b2-started',ALL,PR,('''	i := 0
	for commit := range commits {
		if i == 0 {
			err := s.initCheckpoints()
			if err != nil {
				drainAndExit()
				return err
			}
		}
		i++
''','''	started := false
	for commit := range commits {
		if !started {
			started = true
			if err := s.initCheckpoints(); err != nil {
				drainAndExit()
				return err
			}
		}
'''),('	if i == 0 {\n		// there were','	if !started {\n		// there were'))
ok('ok-b2-childrendone',ALL,PR,('''		s.childrenProcessed[p]++ // mark commit as processed
		siblings := s.graph.Children[p]
		if s.childrenProcessed[p] == len(siblings) {
			// done with parent, can delete it
			s.unloader.Unload(p)
		}
	}
''','''		if s.lastChild(p) {
			// done with parent, can delete it
			s.unloader.Unload(p)
		}
	}
'''),('func (s *Process) processCommit(','''// lastChild marks a child of the commit as processed and reports whether it was the last one
func (s *Process) lastChild(p string) bool {
	s.childrenProcessed[p]++
	return s.childrenProcessed[p] == len(s.graph.Children[p])
}

func (s *Process) processCommit('''))
ok('ok-b2-startdiff',ALL,PP,('''	s.diff = []byte{}
	s.diff = append(s.diff, b...)
	s.diff = append(s.diff, '\\n')
}
''','''	s.diff = nil
	s.addLine(b)
}

func (s *Parser) addLine(b []byte) {
	s.diff = append(s.diff, b...)
	s.diff = append(s.diff, '\\n')
}
'''),('''			s.diff = append(s.diff, b...)
			s.diff = append(s.diff, '\\n')
''','''			s.addLine(b)
'''))
ok('ok-b2-indiff',ALL,PP,('''	case stInDiff:
		if len(b) == 0 {
			s.endCommit()
		} else if s.isDiffStart(b) {
			s.endDiff()
			s.startDiff(b)
		} else {
			s.diff = append(s.diff, b...)
			s.diff = append(s.diff, '\\n')
		}
''','''	case stInDiff:
		s.diffLine(b)
'''),('func (s *Parser) startDiff(','''func (s *Parser) diffLine(b []byte) {
	switch {
	case len(b) == 0:
		s.endCommit()
	case s.isDiffStart(b):
		s.endDiff()
		s.startDiff(b)
	default:
		s.diff = append(append(s.diff, b...), '\\n')
	}
}

func (s *Parser) startDiff('''))
ok('ok-b2-commitline',ALL,PP,('''	if !strings.Contains(data, " ") {
		c.Hash = data
	} else {
		parts := strings.SplitN(data, " ", 2)
		if len(parts) != 2 {
			panic(fmt.Errorf("invalid format for commit line %s got len parts %v", b, len(parts)))
		}
		c.Hash = parts[0]
		fromPrefix := "(from "
		c.MergeDiffFrom = parts[1][len(fromPrefix) : len(parts[1])-1]
	}
''','''	c.Hash = data
	if i := strings.Index(data, " "); i >= 0 {
		c.Hash = data[:i]
		from := data[i+1:]
		c.MergeDiffFrom = from[len("(from ") : len(from)-1]
	}
'''))
ok('ok-b2-copyloop',ALL,AP,('''		res = append(res, file.Lines[from:to]...)
''','''		for i := from; i < to; i++ {
			res = append(res, file.Lines[i])
		}
'''))
ok('ok-b2-hunkfn',ALL,AP,('''	for _, h := range diff.Hunks {
		if len(h.Locations) == 0 {
			rerr(fmt.Errorf("no location in diff hunk %+v", h))
		}

		scanner''','''	hunkStart := func(h Hunk) int {
		if len(h.Locations) == 0 {
			rerr(fmt.Errorf("no location in diff hunk %+v", h))
		}
		if o := h.Locations[0].Offset; o > 0 {
			return o - 1
		}
		return 0
	}

	for _, h := range diff.Hunks {
		j := hunkStart(h)

		scanner'''),('''		j := h.Locations[0].Offset - 1
		if j == -1 {
			j = 0
		}

''',''))
ok('ok-b2-applymeta',ALL,PA,('''	if p.preMeta[metaNewFile] != "" {
		p.diff.PathPrev = ""
	}

	if p.preMeta[metaDeletedFile] != "" {
		p.diff.Path = ""
		p.diff.Hunks = nil
	}

	if p.preMeta[metaRenameFrom] != "" {
		p.diff.PathPrev = p.preMeta[metaRenameFrom]
		if p.preMeta[metaRenameTo] == "" {
			panic("has rename from, but not rename to")
		}
		p.diff.Path = p.preMeta[metaRenameTo]
	}

	if p.preMeta[metaBinaryFiles] != "" {
		p.diff.IsBinary = true
	}

	res = p.diff

	return
}
''','''	p.applyMeta()
	return p.diff
}

func (p *parser) applyMeta() {
	if p.preMeta[metaNewFile] != "" {
		p.diff.PathPrev = ""
	}

	if p.preMeta[metaDeletedFile] != "" {
		p.diff.Path = ""
		p.diff.Hunks = nil
	}

	if from := p.preMeta[metaRenameFrom]; from != "" {
		to := p.preMeta[metaRenameTo]
		if to == "" {
			panic("has rename from, but not rename to")
		}
		p.diff.PathPrev, p.diff.Path = from, to
	}

	p.diff.IsBinary = p.preMeta[metaBinaryFiles] != ""
}
'''))
ok('ok-b2-filerecord',ALL,CI,('''		fileBytes := blameToFileContent(blf)
		fileLines := blameToByteLines(blf)
		info, skipReason := s.fileInfo.GetInfo(fileinfo.InfoArgs{FilePath: filePath, Content: fileBytes, Lines: fileLines})
		r.License = info.License
		r.Language = info.Language

		if skipReason != "" {
			r.Skipped = skipReason
			res = append(res, r)
			continue
		}

		r, err := s.codeInfoFile(filePath, blf, fileBytes, r)
		if err != nil {
			return nil, err
		}

		res = append(res, r)
	}
	return
}
''','''		r, err := s.addFileInfo(filePath, blf, r)
		if err != nil {
			return nil, err
		}

		res = append(res, r)
	}
	return
}

func (s *Ripsrc) addFileInfo(filePath string, blf *incblame.Blame, r BlameResult) (BlameResult, error) {
	fileBytes := blameToFileContent(blf)
	info, skipReason := s.fileInfo.GetInfo(fileinfo.InfoArgs{
		FilePath: filePath,
		Content:  fileBytes,
		Lines:    blameToByteLines(blf),
	})
	r.License = info.License
	r.Language = info.Language
	if skipReason != "" {
		r.Skipped = skipReason
		return r, nil
	}
	return s.codeInfoFile(filePath, blf, fileBytes, r)
}
'''))
ok('ok-b2-statsline',ALL,CI,('''		meta := s.commitMeta[line.Commit]
		line2 := &statsLine{}
		line2.BlameLine = &BlameLine{}
		line2.Name = meta.AuthorName
		line2.Email = meta.AuthorEmail
		line2.Date = meta.Date
		line2.line = line.Line
		line2.SHA = line.Commit
		lines = append(lines, line2)
	}
''','''		lines = append(lines, s.newStatsLine(line))
	}
'''),('func blameToFileContent(','''func (s *Ripsrc) newStatsLine(line *incblame.Line) *statsLine {
	meta := s.commitMeta[line.Commit]
	return &statsLine{
		BlameLine: &BlameLine{
			Name:  meta.AuthorName,
			Email: meta.AuthorEmail,
			Date:  meta.Date,
			SHA:   line.Commit,
		},
		line: line.Line,
	}
}

func blameToFileContent('''))
ok('ok-b2-missing',ALL,CI,('''	files := map[string]bool{}
	for _, cf := range commit.Files {
		if cf.Renamed {
			files[cf.RenamedTo] = true
		}
	}
	for p := range blame.Files {
		files[p] = true
	}
	for p := range files {
		// TODO: double check why
		//if _, ok := commit.Files[p]; !ok {
		//	panic(fmt.Errorf("File was in blame, but not stats output commit:%v path:%v", commit.SHA, p))
		//}
		if _, ok := blame.Files[p]; !ok {
			panic(fmt.Errorf("File was in stats output, but not in blame commit:%v path:%v", commit.SHA, p))
		}
	}
''','''	for _, cf := range commit.Files {
		if !cf.Renamed {
			continue
		}
		if _, ok := blame.Files[cf.RenamedTo]; !ok {
			panic(fmt.Errorf("File was in stats output, but not in blame commit:%v path:%v", commit.SHA, cf.RenamedTo))
		}
	}
'''))
ok('ok-b2-longline',ALL,FI,('''	for _, line := range args.Lines {
		if len(line) > maxBytesPerLine {
			return res, fmt.Sprintf(skipMaxLineBytesExceeded, len(line), maxBytesPerLine)
		}
	}
''','''	if skip := checkLineWidth(args.Lines); skip != "" {
		return res, skip
	}
'''),('func (s *Process) checkFilePath(','''func checkLineWidth(lines [][]byte) string {
	for _, line := range lines {
		if w := len(line); w > maxBytesPerLine {
			return fmt.Sprintf(skipMaxLineBytesExceeded, w, maxBytesPerLine)
		}
	}
	return ""
}

func (s *Process) checkFilePath('''))
ok('ok-b2-numstat',ALL,CM,('''				tok := regSplit(string(buf), tabSplitter)
				fn := tok[2]
				if p.commit.Files[fn] == nil {
					// not the name of a file that looks like a rename
					fn, _, _ = getFilename(fn)
				}
				file := p.commit.Files[fn]
				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
				if file == nil {
					// BUG: this needs fixing, next 4 lines is a quick workaround
					// Special case for merge
					// TODO: parse lines like this properly:
					// ::100644 100644 100644 1dbddb0... 4cd4b38... 904d55b... MM      main.go
					file = &CommitFile{}
					file.Filename = fn
					file.Status = GitFileCommitStatusModified
					p.commit.Files[fn] = file

					// this is OK, just means it was a special entry such as directory only, skip this one
					// return true, nil
				}
				if tok[0] == "-" {
					file.Binary = true
				} else {
					adds, _ := strconv.ParseInt(tok[0], 10, 32)
					dels, _ := strconv.ParseInt(tok[1], 10, 32)
					file.Additions = int(adds)
					file.Deletions = int(dels)
				}
''','''				p.numStat(regSplit(string(buf), tabSplitter))
'''),('type parser struct {','''func (p *parser) numStat(tok []string) {
	file := p.statFile(tok[2])
	if tok[0] == "-" {
		file.Binary = true
		return
	}
	adds, _ := strconv.ParseInt(tok[0], 10, 32)
	dels, _ := strconv.ParseInt(tok[1], 10, 32)
	file.Additions = int(adds)
	file.Deletions = int(dels)
}

func (p *parser) statFile(fn string) *CommitFile {
	if p.commit.Files[fn] == nil {
		// not the name of a file that looks like a rename
		fn, _, _ = getFilename(fn)
	}
	file := p.commit.Files[fn]
	if file == nil {
		file = &CommitFile{Filename: fn, Status: GitFileCommitStatusModified}
		p.commit.Files[fn] = file
	}
	return file
}

type parser struct {'''))
ok('ok-b2-rawline',ALL,CM,('''				if len(action) == 1 {
					fn := string(paths[0])
					cf := &CommitFile{
						Filename: fn,
						Status:   toCommitStatus(action),
					}
					p.commit.Files[fn] = cf
					p.filejobs <- cf
				} else if bytes''','''				if len(action) == 1 {
					p.add(&CommitFile{
						Filename: string(paths[0]),
						Status:   toCommitStatus(action),
					})
				} else if bytes'''),('''					cf := &CommitFile{
						Status:     GitFileCommitStatusAdded,
						Filename:   toFn,
						Copied:     true,
						CopiedFrom: fromFn,
					}
					p.commit.Files[toFn] = cf
					p.filejobs <- cf
''','''					p.add(&CommitFile{
						Status:     GitFileCommitStatusAdded,
						Filename:   toFn,
						Copied:     true,
						CopiedFrom: fromFn,
					})
'''),('type parser struct {','''func (p *parser) add(cf *CommitFile) {
	p.commit.Files[cf.Filename] = cf
	p.filejobs <- cf
}

type parser struct {'''))
ok('ok-b2-flush',ALL,CM,('''				if p.commit != nil && p.commit.SHA != "" { // because we send when we detect the next commit
					//parentCommit = p.commit
					p.commits <- *p.commit
					p.commit = nil
				}
''','''				p.flush()
'''),('''	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
		res <- *parser.commit
	}
''','''	parser.flush()
'''),('type parser struct {','''// flush sends the commit that was read before
func (p *parser) flush() {
	if p.commit == nil || p.commit.SHA == "" {
		return
	}
	p.commits <- *p.commit
	p.commit = nil
}

type parser struct {'''))
ok('ok-b2-header',ALL,CM,('''			if bytes.HasPrefix(buf, authorPrefix) {
				p.commit.AuthorEmail = string(buf[len(authorPrefix):])
				return true, nil
			}
			if bytes.HasPrefix(buf, authorNamePrefix) {
				p.commit.AuthorName = string(buf[len(authorNamePrefix):])
				return true, nil
			}
			if bytes.HasPrefix(buf, committerPrefix) {
				p.commit.CommitterEmail = string(buf[len(committerPrefix):])
				return true, nil
			}
			if bytes.HasPrefix(buf, committerNamePrefix) {
				p.commit.CommitterName = string(buf[len(committerNamePrefix):])
				return true, nil
			}
''','''			for _, h := range []struct {
				prefix []byte
				to     *string
			}{
				{authorPrefix, &p.commit.AuthorEmail},
				{authorNamePrefix, &p.commit.AuthorName},
				{committerPrefix, &p.commit.CommitterEmail},
				{committerNamePrefix, &p.commit.CommitterName},
			} {
				if bytes.HasPrefix(buf, h.prefix) {
					*h.to = string(buf[len(h.prefix):])
					return true, nil
				}
			}
'''))
ok('ok-b2-after',ALL,CM,('''			if bytes.HasPrefix(buf, authorPrefix) {
				p.commit.AuthorEmail = string(buf[len(authorPrefix):])
				return true, nil
			}
			if bytes.HasPrefix(buf, authorNamePrefix) {
				p.commit.AuthorName = string(buf[len(authorNamePrefix):])
				return true, nil
			}
''','''			if v, ok := after(buf, authorPrefix); ok {
				p.commit.AuthorEmail = v
				return true, nil
			}
			if v, ok := after(buf, authorNamePrefix); ok {
				p.commit.AuthorName = v
				return true, nil
			}
'''),('type parser struct {','''// after is what follows the prefix
func after(line, prefix []byte) (string, bool) {
	if !bytes.HasPrefix(line, prefix) {
		return "", false
	}
	return string(line[len(prefix):]), true
}

type parser struct {'''))
ok('ok-b2-recvloop',ALL,CO,('''		for r := range res2 {
			for f := range r.Blames {
				res <- f
			}
		}
		done <- true
''','''		defer func() { done <- true }()
		for {
			r, ok := <-res2
			if !ok {
				return
			}
			for f := range r.Blames {
				res <- f
			}
		}
'''))
ok('ok-b2-commitcode',ALL,CO,('''			sha := r1.Commit

			rc := CommitCode{}
			rc.Blames = make(chan BlameResult)
			commit, ok := s.commitMeta[sha]
			if !ok {
				panic(fmt.Errorf("commit not found in commit meta: %v", r1.Commit))
			}
			rc.Commit = commit

			rs, err := s.codeInfoFiles(r1)
			if err != nil {
				panic(err)
			}
			res <- rc
			for _, r := range rs {
				rc.Blames <- r
			}
			close(rc.Blames)
		}
''','''			s.sendCommit(r1, res)
		}
'''),('func (s *Ripsrc) CodeSlice(','''func (s *Ripsrc) sendCommit(r1 process.Result, res chan CommitCode) {
	commit, ok := s.commitMeta[r1.Commit]
	if !ok {
		panic(fmt.Errorf("commit not found in commit meta: %v", r1.Commit))
	}
	rs, err := s.codeInfoFiles(r1)
	if err != nil {
		panic(err)
	}
	rc := CommitCode{Commit: commit, Blames: make(chan BlameResult)}
	res <- rc
	for _, r := range rs {
		rc.Blames <- r
	}
	close(rc.Blames)
}

func (s *Ripsrc) CodeSlice('''))
ok('ok-b2-copyloop2',ALL,AP,('''		res = append(res, file.Lines[from:to]...)
''','''		for from < to {
			res = append(res, file.Lines[from])
			from++
		}
'''))
ok('ok-b2-copyloop3',ALL,AP,('''		res = append(res, file.Lines[from:to]...)
''','''		for _, l := range file.Lines[from:to] {
			res = append(res, l)
		}
'''))
bug('b2-copyloop-short','C04',AP,('''		res = append(res, file.Lines[from:to]...)
''','''		for i := from; i < to-1; i++ {
			res = append(res, file.Lines[i])
		}
'''))
bug('b2-copyloop-late','C04',AP,('''		res = append(res, file.Lines[from:to]...)
''','''		for i := from + 1; i < to; i++ {
			res = append(res, file.Lines[i])
		}
'''))
