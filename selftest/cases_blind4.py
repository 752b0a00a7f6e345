FI='ripsrc/fileinfo/fileinfo.go'
CI='ripsrc/code_info.go'
CO='ripsrc/code.go'
CM='ripsrc/commitmeta/commitmeta.go'
BM='ripsrc/branchmeta/branchmeta.go'
WR='ripsrc/history3/process/repo/writer.go'
RD='ripsrc/history3/process/repo/reader.go'
MS='ripsrc/history3/process/repo/msgp.go'
RP='ripsrc/history3/process/repo/repo.go'
PA='ripsrc/history3/incblame/parse.go'
PU='ripsrc/history3/incblame/parse_utils.go'
GE='ripsrc/gitexec/gitexec.go'
GR='ripsrc/pkg/gitrepos/gitrepos.go'
RR='ripsrc/cmd/cmdutils/repo_run.go'
# C26: lines of one commit share a record
bug('b4-share-line','C26',CI,('''	for _, line := range bl.Lines {
		meta := s.commitMeta[line.Commit]
		line2 := &statsLine{}
		line2.BlameLine = &BlameLine{}
''','''	shared := map[string]*BlameLine{}
	for _, line := range bl.Lines {
		meta := s.commitMeta[line.Commit]
		line2 := &statsLine{}
		if len(line.Line) == 0 {
			if shared[line.Commit] == nil {
				shared[line.Commit] = &BlameLine{}
			}
			line2.BlameLine = shared[line.Commit]
		} else {
			line2.BlameLine = &BlameLine{}
		}
'''))
bug('b4-committer','C26',CI,('''		line2.Name = meta.AuthorName
		line2.Email = meta.AuthorEmail
''','''		line2.Name = meta.AuthorName
		line2.Email = meta.AuthorEmail
		if line2.Email == "" {
			line2.Email = meta.CommitterEmail
		}
'''))
bug('b4-line-commit','C26',CI,('''		line2.SHA = line.Commit
''','''		line2.SHA = line.Commit
		if meta.SHA == "" {
			line2.SHA = bl.Commit
		}
'''))
bug('b4-classify-off','C26',CI,('''	index := int(currentLine) - 1
	if index >= 0''','''	index := int(currentLine) - 1
	if index >= len(p.lines) {
		index = len(p.lines) - 1
	}
	if index >= 0'''))
# C33 / C22 caches
bug('b4-langcache','C33',FI,('''	checkFilePathCache map[string]string
}''','''	checkFilePathCache map[string]string
	langs              map[string]string
}'''),('''	s.checkFilePathCache = map[string]string{}
''','''	s.checkFilePathCache = map[string]string{}
	s.langs = map[string]string{}
'''),('''	res.Language = enry.GetLanguage(args.FilePath, args.Content)
''','''	lang, ok := s.langs[args.FilePath]
	if !ok {
		lang = enry.GetLanguage(args.FilePath, args.Content)
		s.langs[args.FilePath] = lang
	}
	res.Language = lang
'''))
bug('b4-skipcache-lower','C22',FI,('''	if res, ok := s.checkFilePathCache[filePath]; ok {
		return res
	}
	res := s.checkFilePathUncached(filePath)
	s.checkFilePathCache[filePath] = res''','''	key := strings.ToLower(filePath)
	if res, ok := s.checkFilePathCache[key]; ok {
		return res
	}
	res := s.checkFilePathUncached(filePath)
	s.checkFilePathCache[key] = res'''))
bug('b4-size-lines','C22',FI,('''	fileSize := len(args.Content)
''','''	fileSize := 0
	for _, l := range args.Lines {
		fileSize += len(l)
	}
'''))
bug('b4-width-runes','C22',FI,('''		if len(line) > maxBytesPerLine {''','''		if len([]rune(string(line))) > maxBytesPerLine {'''))
bug('b4-width-first','C22',FI,('''	for _, line := range args.Lines {
		if len(line) > maxBytesPerLine {''','''	for i, line := range args.Lines {
		if i > 1000 {
			break
		}
		if len(line) > maxBytesPerLine {'''))
bug('b4-vendored-src','C22',FI,('''		if strings.HasPrefix(filePath, "src/") {''','''		if strings.Contains(filePath, "src/") {'''))
bug('b4-width-trim','C22',CI,('''	for _, l := range bl.Lines {
		res = append(res, l.Line)
	}
''','''	for _, l := range bl.Lines {
		if len(l.Line) == 0 {
			continue
		}
		res = append(res, l.Line)
	}
'''))
bug('b4-size-nonl','C33',CI,('''	res.Size = int64(len(fileBytes))
''','''	for _, l := range bl.Lines {
		res.Size += int64(len(l.Line))
	}
'''))
bug('b4-generated-content','C33',CI,('''	filejob.Content = nil

''','''	filejob.Content = nil
	if statcallback.generated {
		fileBytes = nil
	}

'''))
# C27
bug('b4-rm-success','C27',GE,('''	err := s.ReadCloser.Close()
	if rerr := os.Remove(s.loc); err == nil {
		err = rerr
	}
	return err
''','''	err := s.ReadCloser.Close()
	if err != nil {
		return err
	}
	return os.Remove(s.loc)
'''))
bug('b4-close-late','C27',CM,('''	defer r.Close()

	var parser parser''','''	var parser parser'''),('''	if err := scanner.Err(); err != nil {
		return err
	}
	if parser.commit''','''	if err := scanner.Err(); err != nil {
		return err
	}
	err = r.Close()
	if err != nil {
		return err
	}
	if parser.commit'''))
bug('b4-rm-argerr','C27',CM,('''	args := append(gitexec.LogSettings(),''','''	if s.opts.CommitFromMakeNonIncl && s.opts.CommitFromIncl == "" {
		return nil, fmt.Errorf("no commit")
	}
	args := append(gitexec.LogSettings(),'''))
# C31
bug('b4-premeta-trim','C31',PA,('''				if startsWith(b, s+" ") {
					p.preMeta[s] = string(b[len(s)+1:])''','''				if startsWith(b, s+" ") && p.preMeta[s] == "" {
					p.preMeta[s] = string(bytes.TrimSpace(b[len(s)+1:]))'''))
bug('b4-inpatch-hdr','C31',PA,('''	if string(b[0:2]) == "@@" {
		p.finishHunk()''','''	if bytes.Contains(b, []byte("@@ -")) {
		p.finishHunk()'''))
bug('b4-nonewline-skip','C31',PA,('''	p.currentLines = append(p.currentLines, b...)
	p.currentLines = append(p.currentLines, "\\n"...)
''','''	if len(b) == 1 && b[0] == ' ' {
		return
	}
	p.currentLines = append(p.currentLines, b...)
	p.currentLines = append(p.currentLines, "\\n"...)
'''))
bug('b4-del-hunks','C31',PA,('''		p.diff.Path = ""
		p.diff.Hunks = nil
''','''		p.diff.Path = ""
		if p.diff.IsBinary {
			p.diff.Hunks = nil
		}
'''))
ok('ok-b4-ctx-binary','C31',PA,('''	case stNextIsCurrName:
		p.state = stNextIsContext
''','''	case stNextIsCurrName:
		if startsWith(b, "+++ ") {
			p.state = stNextIsContext
		}
'''))
bug('b4-binary-inpatch','C31',PA,('''	case stInPatchLines:
		p.lineInPatchLines(b)
''','''	case stInPatchLines:
		if startsWith(b, metaBinaryFiles) || startsWith(b, " "+metaBinaryFiles) {
			p.preMeta[metaBinaryFiles] = string(b)
		}
		p.lineInPatchLines(b)
'''))
# C12
bug('b4-line-by-data','C12',WR,('''	linePointers := map[*incblame.Line]uint64{}
''','''	linePointers := map[string]uint64{}
'''),('''linePointers[l]; ok''','''linePointers[l.Commit[0:7]+string(l.Line)]; ok'''),('''				linePointers[l] = lp
''','''				linePointers[l.Commit[0:7]+string(l.Line)] = lp
'''))
bug('b4-blame-by-commit','C12',WR,('''	blamePointers := map[*incblame.Blame]uint64{}
''','''	blamePointers := map[string]uint64{}
'''),('''blamePointers[file]; ok''','''blamePointers[file.Commit+fp]; ok'''),('''			blamePointers[file] = blp
''','''			blamePointers[file.Commit+fp] = blp
'''))
bug('b4-skip-binary','C12',WR,('''		for fp, file := range commit {
			if blp''','''		for fp, file := range commit {
			if file.IsBinary && len(file.Lines) == 0 && file.Commit != ch {
				continue
			}
			if blp'''))
bug('b4-reader-empty','C12',RD,('''			if obj.BlamePointer == 0 {''','''			if obj.BlamePointer == 0 || obj.Path == obj.Commit {'''))
bug('b4-reader-line','C12',RD,('''			line.Line = v
''','''			line.Line = v
			if len(v) == 0 {
				line.Line = []byte{' '}
			}
'''))
bug('b4-eof-any','C08',RD,('''	if err.Error() == "unexpected EOF" {
		return true
	}
	return false''','''	return err != nil'''))
# C11
ok('ok-b4-marker-first','C11',WR,('''	err = repoWr.Finish()
	if err != nil {
		return err
	}
	err = blamesWr''','''	err = writeFileAtomic(filepath.Join(tmpDir, checkpointVersionFile), []byte(lastCommit))
	if err != nil {
		return err
	}
	err = repoWr.Finish()
	if err != nil {
		return err
	}
	err = blamesWr'''),('''	err = writeFileAtomic(filepath.Join(tmpDir, checkpointVersionFile), []byte(lastCommit))
	if err != nil {
		return err
	}

	err = os.RemoveAll(dir)''','''	err = os.RemoveAll(dir)'''))
bug('b4-gw-flush','C11',MS,('''	err = s.gw.Flush()
	if err != nil {
		return err
	}
''','''	if err := s.gw.Flush(); err != nil && s.f == nil {
		return err
	}
'''))
# C14 / C13
bug('b4-unload-front','C14',RP,('''		last := s.toUnload.Back()
''','''		last := s.toUnload.Front()
'''))
# C29
bug('b4-nonincl-branches','C29',CO,('''		CommitFromMakeNonIncl: s.opts.CommitFromMakeNonIncl,
''','''		CommitFromMakeNonIncl: s.opts.CommitFromMakeNonIncl && !s.opts.AllBranches,
'''))
# C25
bug('b4-status-MM','C25',CM,('''				} else if bytes.HasPrefix(action, copyPrefix) {''','''				} else if bytes.HasPrefix(action, copyPrefix) && len(paths) == 2 && !bytes.Equal(action, []byte("C100")) {'''))
bug('b4-adds-cap','C25',CM,('''					adds, _ := strconv.ParseInt(tok[0], 10, 32)''','''					adds, _ := strconv.ParseInt(tok[0], 10, 16)'''))
bug('b4-bin-reset','C25',CM,('''					file.Additions = int(adds)
''','''					file.Additions = int(adds)
					if adds == dels && file.Renamed {
						file.Additions = 0
					}
'''))
bug('b4-numstat-path','C25',CM,('''				if p.commit.Files[fn] == nil {
					// not''','''				if _, _, renamed := getFilename(fn); renamed || p.commit.Files[fn] == nil {
					// not'''))
# C32
bug('b4-walk-err','C32',GR,('''		err := IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb)
		if err != nil {
			return err
		}
''','''		err := IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb)
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			return err
		}
'''))
bug('b4-head128','C32',RR,('''ok && exitErr.ExitCode() == 1 {''','''ok && exitErr.ExitCode() > 0 {'''))
# C08 gitexec
bug('b4-exec-out','C08',GE,('''	err := ExecIntoWriter(ctx, buf, gitCommand, repoDir, args)
	if err != nil {
		return nil, err
	}
	return noopReadCloser{buf}, nil''','''	err := ExecIntoWriter(ctx, buf, gitCommand, repoDir, args)
	if err != nil && buf.Len() == 0 {
		return nil, err
	}
	return noopReadCloser{buf}, nil'''))
bug('b4-exec-ctx','C08',GE,('''	if err := c.Run(); err != nil {
		return fmt''','''	if err := c.Run(); err != nil && ctx.Err() == nil {
		return fmt'''))
bug('b4-forref','C20',BM,('''		if !opts.IncludeDefault && b.Name == defaultBranch {''','''		if !opts.IncludeDefault && strings.EqualFold(b.Name, defaultBranch) {'''))
bug('b4-lstrip','C20',BM,('''	if opts.UseOrigin {
		args = append(args, "refs/remotes/origin")''','''	if opts.UseOrigin {
		args = append(args, "refs/remotes/origin/*")'''))
# ---- refactorings
ok('ok-b4-linefields','C26 C33 C01 C02',CI,('''		line2 := &statsLine{}
		line2.BlameLine = &BlameLine{}
		line2.Name = meta.AuthorName
		line2.Email = meta.AuthorEmail
		line2.Date = meta.Date
		line2.line = line.Line
		line2.SHA = line.Commit
		lines = append(lines, line2)
''','''		lines = append(lines, &statsLine{
			BlameLine: &BlameLine{
				Name:  meta.AuthorName,
				Email: meta.AuthorEmail,
				Date:  meta.Date,
				SHA:   line.Commit,
			},
			line: line.Line,
		})
'''))
ok('ok-b4-newline-helper','C26 C33',CI,('''		line2 := &statsLine{}
		line2.BlameLine = &BlameLine{}
		line2.Name = meta.AuthorName
		line2.Email = meta.AuthorEmail
		line2.Date = meta.Date
		line2.line = line.Line
		line2.SHA = line.Commit
		lines = append(lines, line2)
''','''		lines = append(lines, newStatsLine(meta, line))
'''),('''func blameToFileContent(''','''func newStatsLine(meta Commit, line *incblame.Line) *statsLine {
	res := &statsLine{BlameLine: &BlameLine{}}
	res.SHA = line.Commit
	res.Name, res.Email, res.Date = meta.AuthorName, meta.AuthorEmail, meta.Date
	res.line = line.Line
	return res
}

func blameToFileContent('''))
ok('ok-b4-prealloc','C26 C33 C22',CI,('''	var lines []*statsLine
''','''	lines := make([]*statsLine, 0, len(bl.Lines))
'''),('''	for _, l := range lines {
		res.Lines = append(res.Lines, l.BlameLine)
	}
''','''	for i := 0; i < len(lines); i++ {
		res.Lines = append(res.Lines, lines[i].BlameLine)
	}
'''),('''	for _, l := range bl.Lines {
		res = append(res, l.Line)
	}
''','''	for i := range bl.Lines {
		res = append(res, bl.Lines[i].Line)
	}
'''))
ok('ok-b4-limits','C22 C33',FI,('''	if len(args.Lines) > maxLinePerFile {
		return res, fmt.Sprintf(skipMaxLinesExceeded, maxLinePerFile)
	}

	for _, line := range args.Lines {
		if len(line) > maxBytesPerLine {
			return res, fmt.Sprintf(skipMaxLineBytesExceeded, len(line), maxBytesPerLine)
		}
	}

''','''	if reason := checkLines(args.Lines); reason != "" {
		return res, reason
	}

'''),('''func (s *Process) checkFilePath(''','''func checkLines(lines [][]byte) string {
	if count := len(lines); count > maxLinePerFile {
		return fmt.Sprintf(skipMaxLinesExceeded, maxLinePerFile)
	}
	for i := range lines {
		if width := len(lines[i]); width > maxBytesPerLine {
			return fmt.Sprintf(skipMaxLineBytesExceeded, width, maxBytesPerLine)
		}
	}
	return ""
}

func (s *Process) checkFilePath('''))
ok('ok-b4-switchpath','C22 C33',FI,('''	if enry.IsConfiguration(filePath) {
		return skipConfigFile
	}
	if enry.IsDotFile(filePath) {
		return skipDotFile
	}
	if ignorePatterns.MatchString(filePath) {
		return skipBlacklisted
	}
	if s.isVendored(filePath) {
		return skipVendoredFile
	}
	return ""
''','''	switch {
	case enry.IsConfiguration(filePath):
		skipReason = skipConfigFile
	case enry.IsDotFile(filePath):
		skipReason = skipDotFile
	case ignorePatterns.MatchString(filePath):
		skipReason = skipBlacklisted
	case s.isVendored(filePath):
		skipReason = skipVendoredFile
	}
	return
'''))
ok('ok-b4-finish-loop','C11 C12 C08',WR,('''	err = repoWr.Finish()
	if err != nil {
		return err
	}
	err = blamesWr.Finish()
	if err != nil {
		return err
	}
	err = linesWr.Finish()
	if err != nil {
		return err
	}
	err = lineDataWr.Finish()
	if err != nil {
		return err
	}
''','''	for _, wr := range []*msgWriter{lineDataWr, linesWr, blamesWr, repoWr} {
		if err := wr.Finish(); err != nil {
			return err
		}
	}
'''))
ok('ok-b4-read-helper','C12 C08 C13',RD,('''			bl := &incblame.Blame{}
			bl.Commit = obj.Commit
			bl.IsBinary = obj.IsBinary
			for _, lp := range obj.LinePointers {
				line, ok := lines[lp]
				if !ok {
					panic("line")
				}
				bl.Lines = append(bl.Lines, line)
			}
			blames[obj.Pointer] = bl
''','''			blames[obj.Pointer] = newBlame(obj, lines)
'''),('''func msgIsEOF(''','''func newBlame(obj *disk.Blame, lines map[uint64]*incblame.Line) *incblame.Blame {
	bl := &incblame.Blame{Commit: obj.Commit, IsBinary: obj.IsBinary}
	for _, lp := range obj.LinePointers {
		line, ok := lines[lp]
		if !ok {
			panic("line")
		}
		bl.Lines = append(bl.Lines, line)
	}
	return bl
}

func msgIsEOF('''),('''	if err.Error() == "unexpected EOF" {
		return true
	}
	return false''','''	return err.Error() == "unexpected EOF"'''))
ok('ok-b4-write-line','C11 C12 C08',WR,('''				l2 := &sLine{}
				l2.Pointer = lp
				l2.Commit = l.Commit
				l2.LineDataPointer = dp

				err := linesWr.Write(l2)
				if err != nil {
					return err
				}
''','''				if err := linesWr.Write(&sLine{Pointer: lp, Commit: l.Commit, LineDataPointer: dp}); err != nil {
					return err
				}
'''))
ok('ok-b4-exec-err','C08 C27 C16',GE,('''	if err := c.Run(); err != nil {
		return fmt.Errorf("failed executing git command %v", err)
	}
	return nil
''','''	err := c.Run()
	if err == nil {
		return nil
	}
	return fmt.Errorf("failed executing git command %v", err)
'''))
ok('ok-b4-status-helper','C25',CM,('''					adds, _ := strconv.ParseInt(tok[0], 10, 32)
					dels, _ := strconv.ParseInt(tok[1], 10, 32)
					file.Additions = int(adds)
					file.Deletions = int(dels)
''','''					file.Additions = parseCount(tok[0])
					file.Deletions = parseCount(tok[1])
'''),('''func regSplit(''','''func parseCount(s string) int {
	res, _ := strconv.ParseInt(s, 10, 32)
	return int(res)
}

func regSplit('''))
ok('ok-b4-addfile','C25',CM,('''					cf := &CommitFile{
						Status:     GitFileCommitStatusAdded,
						Filename:   toFn,
						Copied:     true,
						CopiedFrom: fromFn,
					}
					p.commit.Files[toFn] = cf
					p.filejobs <- cf
''','''					cf := &CommitFile{Status: GitFileCommitStatusAdded, Filename: toFn}
					cf.Copied = true
					cf.CopiedFrom = fromFn
					p.addFile(cf)
'''),('''func (p *parser) parse(''','''func (p *parser) addFile(f *CommitFile) {
	p.commit.Files[f.Filename] = f
	p.filejobs <- f
}

func (p *parser) parse('''))
ok('ok-b4-inpatch','C31 C28 C04',PA,('''	p.currentLines = append(p.currentLines, b...)
	p.currentLines = append(p.currentLines, "\\n"...)
''','''	p.currentLines = append(append(p.currentLines, b...), '\\n')
'''))
ok('ok-b4-prestate','C31',PA,('''		if !startsWith(b, "---") {
			for _, s := range p.wantedMeta {
				if startsWith(b, s+" ") {
					p.preMeta[s] = string(b[len(s)+1:])
				}
			}
		} else {
			p.state = stNextIsCurrName

		}
''','''		if startsWith(b, "---") {
			p.state = stNextIsCurrName
			return
		}
		p.metaLine(b)
'''),('''func extractName(''','''func (p *parser) metaLine(b []byte) {
	for _, s := range p.wantedMeta {
		prefix := s + " "
		if startsWith(b, prefix) {
			p.preMeta[s] = string(b[len(prefix):])
		}
	}
}

func extractName('''))
ok('ok-b4-walkdirs','C32',GR,('''	if containsDotGit {
		err := cb(dir)
		if err != nil {
			return err
		}
		return nil
	}
''','''	if containsDotGit {
		return cb(dir)
	}
'''))
ok('ok-b4-branchref','C21 C15',BM,('''	if opts.UseOrigin {
		args = append(args, "refs/remotes/origin")
	} else {
		args = append(args, "refs/heads")
	}
''','''	refs := "refs/heads"
	if opts.UseOrigin {
		refs = "refs/remotes/origin"
	}
	args = append(args, refs)
'''))
ok('ok-b4-opts','C29 C15',CO,('''	gitProcessor := process.New(processOpts)
	err = gitProcessor.Run(gitRes)
	<-done
''','''	gitProcessor := process.New(processOpts)
	runErr := gitProcessor.Run(gitRes)
	<-done
	err = runErr
'''))
