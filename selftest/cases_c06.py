A='ripsrc/history3/incblame/apply.go'; M='ripsrc/history3/incblame/apply_merge2.go'; P='ripsrc/history3/process/process.go'; R='ripsrc/history3/process/repo/repo.go'; CI='ripsrc/code_info.go'; W='ripsrc/history3/process/repo/writer.go'
bug('c06-merge-inplace','C06',M,('				lc := *res.Lines[i]\n				lc.Commit = line.Commit\n				res.Lines[i] = &lc\n','				res.Lines[i].Commit = line.Commit\n'))
bug('c06-merge-res0','C06',M,('	res := cand[0]\n','	res := parents[0]\n	if len(res.Lines) != len(cand[0].Lines) {\n		res = cand[0]\n	}\n'))
bug('c06-alias-base','C06',A,('		res = append(res, file.Lines[from:to]...)','		if res == nil {\n			res = file.Lines[from:to]\n			return\n		}\n		res = append(res, file.Lines[from:to]...)'))
bug('c06-inplace-dups','C06',A,('	copyRange(oldFileIndex, len(file.Lines))\n','	copyRange(oldFileIndex, len(file.Lines))\n	for _, l := range res {\n		if l.Commit == "" {\n			l.Commit = commit\n		}\n	}\n'))
bug('c06-append-newline','C06',CI,('''		res = append(res, l.Line...)
		res = append(res, "\\n"...)
''','''		res = append(res, append(l.Line, '\\n')...)
'''))
bug('c06-trim-cr','C06',CI,('	for _, l := range bl.Lines {\n		res = append(res, l.Line)','	for _, l := range bl.Lines {\n		if n := len(l.Line); n > 0 && l.Line[n-1] == 13 {\n			l.Line = l.Line[:n-1]\n		}\n		res = append(res, l.Line)'))
bug('c06-tabs','C06',CI,('	for _, l := range bl.Lines {\n		res = append(res, l.Line)','	for _, l := range bl.Lines {\n		for i, b := range l.Line {\n			if b == 9 {\n				l.Line[i] = 32\n			}\n		}\n		res = append(res, l.Line)'))
bug('c06-rename-touch','C06',P,('				if pb.IsBinary {\n','				if pb.IsBinary {\n					pb.Commit = commit.Hash\n'))
bug('c06-share-row','C06',P,('	s.repo.AddCommit(commit.Hash)\n','	s.repo.AddCommit(commit.Hash)\n	if len(commit.Changes) == 0 && len(commit.Parents) == 1 {\n		s.repo[commit.Hash] = s.repo[commit.Parents[0]]\n	}\n'))
bug('c06-share-files','C06',P,('	res.Files = map[string]*incblame.Blame{}\n\n	for _, ch','	res.Files = s.repo[commit.Hash]\n\n	for _, ch'))
bug('c06-delete-parent','C06',P,('			res.Files[diff.PathPrev] = &incblame.Blame{Commit: commit.Hash}\n','			res.Files[diff.PathPrev] = &incblame.Blame{Commit: commit.Hash}\n			if len(commit.Parents) == 1 {\n				delete(s.repo[commit.Parents[0]], diff.PathPrev)\n			}\n'))
bug('c06-sort-write','C06',W,('			for _, l := range file.Lines {\n','			sort.SliceStable(file.Lines, func(i, j int) bool { return file.Lines[i].Commit < file.Lines[j].Commit })\n			for _, l := range file.Lines {\n'),('	"path/filepath"\n','	"path/filepath"\n	"sort"\n'))
bug('c06-parent-write','C06',P,('''				blame = incblame.Apply(*parentBlame, diff, commit.Hash, diff.PathOrPrev())
''','''				blame = incblame.Apply(*parentBlame, diff, commit.Hash, diff.PathOrPrev())
				*parentBlame = blame
'''))
bug('c06-after-pub','C06',P,('		res.Files[diff.Path] = &blame\n','		res.Files[diff.Path] = &blame\n		blame.Commit = ""\n'))
bug('c06-intern','C06',P,('		// copy reference\n		s.repo[commit.Hash][fp] = blame\n','		// copy reference\n		blame.Lines = append(blame.Lines[:0], blame.Lines...)\n		s.repo[commit.Hash][fp] = blame\n'))
ok('c06-helper','C06',A,('res = append(res, &Line{Line: data, Commit: commit})','res = append(res, newLine(data, commit))'),('func copyBytes(','func newLine(data []byte, commit string) *Line {\n	l := &Line{}\n	l.Line = data\n	l.Commit = commit\n	return l\n}\n\nfunc copyBytes('))
ok('c06-helper2','C06',A,('	var res Lines\n','	res := make(Lines, 0, len(file.Lines))\n'))
ok('c06-helper3','C06',P,('''		l2 := &incblame.Line{}
		l2.Commit = l.CommitHash
		l2.Line = []byte(l.Content)
		res.Lines = append(res.Lines, l2)
''','''		l2 := &incblame.Line{}
		res.Lines = append(res.Lines, l2)
		l2.Commit = l.CommitHash
		l2.Line = []byte(l.Content)
'''))
ok('c06-merge2','C06',M,('				lc := *res.Lines[i]\n				lc.Commit = line.Commit\n				res.Lines[i] = &lc\n','				res.Lines[i] = &Line{Line: res.Lines[i].Line, Commit: line.Commit}\n'))
ok('c06-merge3','C06',M,('''	res := cand[0]
''','''	res := Blame{Commit: commit, Lines: append(Lines{}, cand[0].Lines...)}
'''))
ok('c06-row','C06',P,('s.repo[commit.Hash][fp] = blame','s.setFile(commit.Hash, fp, blame)'),('func (s *Process) slowGitBlame','func (s *Process) setFile(hash, p string, b *incblame.Blame) {\n	s.repo[hash][p] = b\n}\n\nfunc (s *Process) slowGitBlame'))
ok('c06-row2','C06',P,('	s.repo.AddCommit(commit.Hash)\n','	s.repo.AddCommit(commit.Hash)\n	row := s.repo[commit.Hash]\n'),('		s.repo[commit.Hash][fp] = blame','		row[fp] = blame'))
ok('c06-buf','C06',CI,('(bl *incblame.Blame) (res []byte) {\n','(bl *incblame.Blame) []byte {\n	n := 0\n	for _, l := range bl.Lines {\n		n += len(l.Line) + 1\n	}\n	res := make([]byte, 0, n)\n'),('		res = append(res, "\\n"...)\n	}\n	return\n',"		res = append(res, '\\n')\n	}\n	return res\n"))
ok('c06-addcommit','C06',R,('	s[commitHash] = map[string]*incblame.Blame{}\n','	row := make(map[string]*incblame.Blame, 16)\n	s[commitHash] = row\n'))
