PR='ripsrc/history3/process/process.go'
PA='ripsrc/history3/incblame/parse.go'
PU='ripsrc/history3/incblame/parse_utils.go'
AP='ripsrc/history3/incblame/apply.go'
AM='ripsrc/history3/incblame/apply_merge2.go'
GB='ripsrc/gitblame2/gitblame.go'
GP='ripsrc/gitblame2/parse_output.go'
BP='ripsrc/branches2/process.go'
RS='ripsrc/ripsrc.go'
PP='ripsrc/parentsgraph/parentsp/parser.go'
# C31 declarations and hunk headers
bug('b5-decl-trim','C31',PU,('''	toPath = string(data[mid+3:])
''','''	toPath = strings.TrimRight(string(data[mid+3:]), " ")
	fromPath = strings.TrimRight(fromPath, " ")
'''))
bug('b5-decl-tab','C31',PU,('''		return string(d2[len(pr):]), nil''','''		return strings.Replace(string(d2[len(pr):]), "\\\\t", " ", -1), nil'''))
bug('b5-ctx-section','C31',PU,('''	b := b0[0:endInd] // remove section heading''','''	if i := bytes.LastIndex(b0, []byte(" @@")); i > endInd {
		endInd = i
	}
	b := b0[0:endInd] // remove section heading'''))
bug('b5-ctx-lines','C31',PU,('''			one.Lines, err = strconv.Atoi(parts[0])
			if err != nil {
				rerr("")
			}
''','''			one.Offset, err = strconv.Atoi(parts[0])
			if err != nil {
				rerr("")
			}
			one.Offset++
			one.Lines = 1
'''))
bug('b5-offset-min','C04',AP,('''		j := h.Locations[0].Offset - 1
		if j == -1 {
			j = 0
		}
''','''		j := h.Locations[0].Offset - 1
		if j < oldFileIndex {
			j = oldFileIndex
		}
'''))
bug('b5-loc-last','C04',AP,('''		j := h.Locations[0].Offset - 1
''','''		j := h.Locations[len(h.Locations)-1].Offset - 1
'''))
bug('b5-minus-copy','C04',AP,('''			case '-':
				oldFileIndex++
''','''			case '-':
				if len(data) == 2 && data[0] == '-' {
					continue
				}
				oldFileIndex++
'''))
bug('b5-nonl-prefix','C04',AP,('''				if string(b) == "\\\\ No newline at end of file" {''','''				if bytes.HasPrefix(b, []byte("\\\\ ")) {'''))
bug('b5-merge-same','C05',AM,('''			if line.Commit != commit {
''','''			if line.Commit != commit && string(line.Line) == string(res.Lines[i].Line) && len(line.Line) > 1 {
'''))
bug('b5-merge-text','C05',AM,('''				lc := *res.Lines[i]
				lc.Commit = line.Commit
''','''				lc := *line
				if len(lc.Line) > 0 && lc.Line[0] == '\\t' {
					lc.Commit = res.Lines[i].Commit
				}
'''))
# git blame of a file that was binary
bug('b5-blame-meta','C28',GP,('''		rl.CommitHash = parts[0]
''','''		rl.CommitHash = strings.TrimPrefix(parts[0], "^")
		if len(res) > 0 && len(parts) == 3 && parts[1] == "1" {
			rl.CommitHash = res[len(res)-1].CommitHash
		}
'''))
ok('ok-b5-blame-emptytail','C28',GP,('''		if fl == "" && i == len(lines)-1 {''','''		if fl == "" || i == len(lines)-1 {'''))
bug('b5-slow-share','C28',PR,('''		l2.Line = []byte(l.Content)
''','''		l2.Line = []byte(strings.TrimRight(l.Content, "\\r"))
'''),('''	"sort"
''','''	"sort"
	"strings"
'''))
ok('ok-b5-slow-path','C28',PR,('''				bl, err := s.slowGitBlame(commit.Hash, diff.Path)''','''				bl, err := s.slowGitBlame(commit.Hash, diff.PathOrPrev())'''))
bug('b5-slow-prevpath','C28',PR,('''				bl, err := s.slowGitBlame(commit.Hash, diff.Path)''','''				bl, err := s.slowGitBlame(parentBlame.Commit, diff.PathPrev)'''))
# two places that disagree
bug('b5-ord-key','C05',PR,('''			parInd := hashToParOrd[parHash]
''','''			parInd, ok := hashToParOrd[parHash]
			if !ok {
				continue
			}
			if diff.Path != "" && diff.PathPrev == "" && par[0] == nil {
				parInd = 0
			}
'''))
bug('b5-rename-nohunk','C03',PR,('''				if pb.IsBinary {
					s.repo[commit.Hash][diff.Path] = pb
					res.Files[diff.Path] = pb
					continue
				}
''','''				if pb.IsBinary || len(pb.Lines) == 0 {
					res.Files[diff.Path] = pb
					continue
				}
'''))
bug('b5-carry-del','C03',PR,('''		if _, ok := res.Files[fp]; ok {
			continue
		}
''','''		if bl, ok := res.Files[fp]; ok && bl != nil {
			continue
		}
		if _, ok := res.Files[strings.ToLower(fp)]; ok {
			continue
		}
'''),('''	"sort"
''','''	"sort"
	"strings"
'''))
bug('b5-merge-cands','C03',PR,('''			if bl != nil {
				candidates = append(candidates, bl)
			}
''','''			if bl != nil && bl.Commit != "" {
				candidates = append(candidates, bl)
			}
'''),('''		if len(candidates) == 0 {
			panic("no file candidates")
		}
''','''		if len(candidates) == 0 {
			continue
		}
'''))
bug('b5-parents-short','C35',PP,('''			parents = strings.Split(string(parts[1]), " ")
''','''			parents = strings.SplitN(string(parts[1]), " ", 3)
'''))
bug('b5-prepared','C08',RS,('''	return gitexec.Prepare(ctx, gitCommand, s.opts.RepoDir)
''','''	s.gitExecPrepared = true
	return gitexec.Prepare(ctx, gitCommand, s.opts.RepoDir)
'''))
bug('b5-unique-trim','C20',BP,('''		m[s] = true
	}
	for s := range m''','''		if len(s) > 40 {
			s = s[:40]
		}
		m[s] = true
	}
	for s := range m'''))
bug('b5-branch-err','C08',BP,('''				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil {
''','''				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil && ctx.Err() == nil {
'''))
# refactorings
ok('ok-b5-decl','C31 C01 C02',PU,('''		var err error
		fromPath, err = remPrefix(data[0:i], "a/")
		if err != nil {
			return "", "", err
		}
		toPath, err = remPrefix(data[i+1:], "b/")
		if err != nil {
			return "", "", err
		}
		return
''','''		from, err := remPrefix(data[:i], "a/")
		if err != nil {
			return "", "", err
		}
		to, err := remPrefix(data[i+1:], "b/")
		if err != nil {
			return "", "", err
		}
		return from, to, nil
'''))
ok('ok-b5-ctx','C31 C04',PU,('''		if len(parts) == 1 {
			var err error
			one.Lines, err = strconv.Atoi(parts[0])
			if err != nil {
				rerr("")
			}
			res = append(res, one)
			continue
		}
		var err error
		one.Offset, err = strconv.Atoi(parts[0])
		if err != nil {
			rerr("")
		}
		one.Lines, err = strconv.Atoi(parts[1])
		if err != nil {
			rerr("")
		}
		res = append(res, one)
''','''		num := func(s string) int {
			n, err := strconv.Atoi(s)
			if err != nil {
				rerr("")
			}
			return n
		}
		if len(parts) == 1 {
			one.Lines = num(parts[0])
		} else {
			one.Offset, one.Lines = num(parts[0]), num(parts[1])
		}
		res = append(res, one)
'''))
ok('ok-b5-offset','C04 C05',AP,('''		j := h.Locations[0].Offset - 1
		if j == -1 {
			j = 0
		}
''','''		j := 0
		if o := h.Locations[0].Offset; o > 0 {
			j = o - 1
		}
'''))
ok('ok-b5-blame','C28 C04 C26',GB,('''	for _, l0 := range res0 {
		l := Line{Content: l0.Content, CommitHash: l0.CommitHash}
		res.Lines = append(res.Lines, l)
	}
''','''	res.Lines = make([]Line, 0, len(res0))
	for i := range res0 {
		res.Lines = append(res.Lines, Line{CommitHash: res0[i].CommitHash, Content: res0[i].Content})
	}
'''))
ok('ok-b5-mergeline','C05 C06',AM,('''			line := cand[j].Lines[i]
			// if commit is not the merge commit that means the line appeared from that parent use it in res, in case multiple sources, first will be used
			if line.Commit != commit {
				// create a copy to avoid mutating original, which leads to race in tests
				lc := *res.Lines[i]
				lc.Commit = line.Commit
				res.Lines[i] = &lc
				break
			}
''','''			line := cand[j].Lines[i]
			if line.Commit == commit {
				continue
			}
			res.Lines[i] = &Line{Line: res.Lines[i].Line, Commit: line.Commit}
			break
'''))
ok('ok-b5-rangecopy','C03 C02',PR,('''	files := s.repo.GetCommitMust(p)
	for fp := range files {
		// was in the diff changes, nothing to do
		if _, ok := res.Files[fp]; ok {
			continue
		}
		blame, err := s.repo.GetFileMust(p, fp)
		if err != nil {
			rerr = fmt.Errorf("could not get parent file for unchanged: %v err: %v", commit.Hash, err)
			return
		}
		// copy reference
		s.repo[commit.Hash][fp] = blame
	}
''','''	state := s.repo[commit.Hash]
	for fp, blame := range s.repo.GetCommitMust(p) {
		if _, changed := res.Files[fp]; !changed {
			// copy reference
			state[fp] = blame
		}
	}
'''))
