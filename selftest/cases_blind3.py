PR='ripsrc/history3/process/process.go'
PP='ripsrc/history3/process/parser/parser.go'
PA='ripsrc/history3/incblame/parse.go'
AP='ripsrc/history3/incblame/apply.go'
CI='ripsrc/code_info.go'
CO='ripsrc/code.go'
CM='ripsrc/commitmeta/commitmeta.go'
BP='ripsrc/branches2/process.go'
BB='ripsrc/branches2/behind.go'
# statistics memoised by path and size
bug('b3-memo-author','C26',CI,('''	for _, line := range bl.Lines {
		meta := s.commitMeta[line.Commit]
''','''	metas := map[string]Commit{}
	for _, line := range bl.Lines {
		key := line.Commit
		if len(key) > 8 {
			key = key[:8]
		}
		if _, ok := metas[key]; !ok {
			metas[key] = s.commitMeta[line.Commit]
		}
		meta := metas[key]
'''))
bug('b3-prevmeta','C26',CI,('''	for _, line := range bl.Lines {
		meta := s.commitMeta[line.Commit]
''','''	meta := res.Commit
	for _, line := range bl.Lines {
		if line.Commit != meta.SHA {
			if m, ok := s.commitMeta[line.Commit]; ok {
				meta = m
			}
		}
'''))
bug('b3-skip-emptyfiles','C02',CI,('''		r.Status = f.Status

''','''		r.Status = f.Status

		if len(blf.Lines) == 0 && !blf.IsBinary && !f.Renamed {
			continue
		}

'''))
bug('b3-trim-before','C14',PR,('''	res, err := s.processRegularCommit(commit)
	if err != nil {
		return err
	}
	s.trimGraphAfterCommitProcessed(commit.Hash)
''','''	if len(commit.Changes) == 0 {
		s.trimGraphAfterCommitProcessed(commit.Hash)
	}
	res, err := s.processRegularCommit(commit)
	if err != nil {
		return err
	}
	if len(commit.Changes) != 0 {
		s.trimGraphAfterCommitProcessed(commit.Hash)
	}
'''))
bug('b3-trim-dup','C14',PR,('''		if s.childrenProcessed[p] == len(siblings) {''','''		if s.childrenProcessed[p] >= len(siblings)-len(parents)+1 {'''))
bug('b3-merge-lastempty','C01',PR,('''	if len(commit.Parents) > 1 { // this is a merge
''','''	if len(commit.Parents) > 1 && commit.MergeDiffFrom != "" { // this is a merge
'''))
bug('b3-rename-bin','C03',PR,('''				if pb.IsBinary {
					s.repo[commit.Hash][diff.Path] = pb
					res.Files[diff.Path] = pb
					continue
				}
''','''				if pb.IsBinary {
					res.Files[diff.Path] = pb
					continue
				}
'''))
bug('b3-diffstart','C02',PP,('''	return len(b) > 4 && string(b[0:4]) == "diff"
''','''	return len(b) > 4 && string(b[0:4]) == "diff" && bytes.HasPrefix(b, []byte("diff --git a/"))
'''),('''import (
''','''import (
	"bytes"
'''))
bug('b3-parser-share','C07',PP,('''	s.state = stInDiff
	s.diff = []byte{}
''','''	s.state = stInDiff
	s.diff = s.diff[:0]
'''))
bug('b3-parents-sort','C35',PR,('''		commit.Parents = s.graph.Parents[commit.Hash]
''','''		commit.Parents = s.graph.Parents[commit.Hash]
		if len(commit.Parents) > 2 {
			sort.Strings(commit.Parents[1:])
		}
'''))
bug('b3-meta-limit','C24',CM,('''				if len(parents) != 0 {
					p.commit.Parents = strings.Split(parents, " ")
''','''				if len(parents) != 0 {
					p.commit.Parents = strings.SplitN(parents, " ", 2)
'''))
bug('b3-meta-authorfallback','C24',CM,('''				p.commit.CommitterName = string(buf[len(committerNamePrefix):])
''','''				p.commit.CommitterName = string(buf[len(committerNamePrefix):])
				if p.commit.AuthorName == "" {
					p.commit.AuthorName = p.commit.CommitterName
				}
'''))
bug('b3-meta-trim','C24',CM,('''				p.commit.AuthorName = string(buf[len(authorNamePrefix):])
''','''				p.commit.AuthorName = strings.Title(string(buf[len(authorNamePrefix):]))
'''))
bug('b3-pr-dedupe','C20',BP,('''	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
''','''	known := map[string]bool{}
	for _, nh := range namesAndHashes {
		known[nh.Commit] = true
	}
	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		if known[sha] {
			continue
		}
'''))
bug('b3-behind-merged','C19',BP,('''		if len(res.BranchedFromCommits) >= 1 {
''','''		if len(res.BranchedFromCommits) == 1 {
'''))
bug('b3-ahead','C19',BP,('''	res.AheadDefaultCount = len(res.Commits)
''','''	if !res.IsMerged {
		res.AheadDefaultCount = len(res.Commits)
	}
'''))
bug('b3-allcommits','C18',BP,('''		done[h] = true
		res = append(res, h)
		par, ok := gr.Parents[h]
''','''		par, ok := gr.Parents[h]
		if len(par) < 2 {
			done[h] = true
		}
		res = append(res, h)
'''))
bug('b3-errlast','C08',BP,('''				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil {
					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
				}
''','''				err = s.processBranch(ctx, nameAndHash, res)
				lastErrMu.Lock()
				lastErr = err
				lastErrMu.Unlock()
'''))
ok('ok-b3-statlines','C33',CI,('''	res.Size = int64(len(fileBytes))
''','''	if res.Size == 0 {
		res.Size = int64(len(fileBytes))
	}
'''))
bug('b3-stats-norm','C33',CI,('''		Content:  fileBytes,
''','''		Content:  bytes.TrimRight(fileBytes, "\\n"),
'''),('''import (
''','''import (
	"bytes"
'''))
bug('b3-ckpt-mid','C11',PR,('''	s.trimGraphAfterCommitProcessed(commit.Hash)
	resChan <- res
	return nil
''','''	s.trimGraphAfterCommitProcessed(commit.Hash)
	resChan <- res
	if s.timing.RegularCommitsCount%100000 == 0 {
		writer := repo.NewCheckpointWriter(s.opts.Logger)
		return writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
	}
	return nil
'''))
bug('b3-ckpt-hash','C13',PR,('''	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
''','''	last := s.lastProcessedCommitHash
	if s.opts.CommitFromIncl != "" && s.opts.CommitFromMakeNonIncl && i == 1 {
		last = s.opts.CommitFromIncl
	}
	err = writer.Write(s.repo, s.checkpointsDir, last)
'''))
ok('ok-b3-notstarted-bin','C28',PR,('''				blame = incblame.Apply(*parentBlame, diff, commit.Hash, diff.PathOrPrev())
			}
''','''				blame = incblame.Apply(*parentBlame, diff, commit.Hash, diff.PathOrPrev())
				blame.IsBinary = parentBlame.IsBinary
			}
'''))
bug('b3-applyinplace','C06',AP,('''	addLine := func(data []byte) {
		res = append(res, &Line{Line: data, Commit: commit})
	}
''','''	addLine := func(data []byte) {
		if n := len(res); n > 0 && bytes.Equal(res[n-1].Line, data) {
			res[n-1].Commit = commit
		}
		res = append(res, &Line{Line: data, Commit: commit})
	}
'''))
bug('b3-timing-race','C17',CO,('''			rs, err := s.codeInfoFiles(r1)
			if err != nil {
				panic(err)
			}
			res <- rc
			for _, r := range rs {
				rc.Blames <- r
			}
			close(rc.Blames)
''','''			res <- rc
			go func() {
				rs, err := s.codeInfoFiles(r1)
				if err != nil {
					panic(err)
				}
				for _, r := range rs {
					rc.Blames <- r
				}
				close(rc.Blames)
			}()
'''))
ok('ok-b3-trimprefix',PP,('''	data := string(b[len(prefix):])
''','''	data := strings.TrimPrefix(string(b), prefix)
''')) if False else None
ok('ok-b3-fields','C01 C02',PP,('''		parts := strings.SplitN(data, " ", 2)
		if len(parts) != 2 {
			panic(fmt.Errorf("invalid format for commit line %s got len parts %v", b, len(parts)))
		}
		c.Hash = parts[0]
		fromPrefix := "(from "
		c.MergeDiffFrom = parts[1][len(fromPrefix) : len(parts[1])-1]
''','''		parts := strings.Fields(data)
		c.Hash = parts[0]
		c.MergeDiffFrom = strings.TrimSuffix(parts[2], ")")
'''))
ok('ok-b3-hasprefix','C01 C02',PP,('''	return len(b) > 4 && string(b[0:4]) == "diff"
''','''	return strings.HasPrefix(string(b), "diff --git ")
'''))
ok('ok-b3-bytesprefix','C01 C02',PP,('''	return len(b) > 4 && string(b[0:4]) == "diff"
''','''	return bytes.HasPrefix(b, diffStart)
'''),('''const mergePrefix = "Merge: "
''','''const mergePrefix = "Merge: "

var diffStart = []byte("diff --")
'''),('''import (
''','''import (
	"bytes"
'''))
ok('ok-b3-switch','C01 C02',PP,('''		if len(b) == 0 {
			// commit message
			return
		}
		if b[0] == ' ' {
			// commit message
			return
		}
		if s.isDiffStart(b) {
			s.startDiff(b)
		} else if startsWith(b, "commit ") {
			s.endCommit()
			s.state = stCommitNext
			s.line(b)
		} else {
			panic(''','''		switch {
		case len(b) == 0, b[0] == ' ':
			// commit message
		case startsWith(b, "commit "):
			s.endCommit()
			s.parseCommitLine(b)
		case s.isDiffStart(b):
			s.startDiff(b)
		default:
			panic('''))
bug('b3-fromlen','C01',PP,('''		c.MergeDiffFrom = parts[1][len(fromPrefix) : len(parts[1])-1]
''','''		c.MergeDiffFrom = strings.TrimRight(parts[1][len(fromPrefix):], ")0")
'''))
bug('b3-author-state','C01',PP,('''	case stSkipAuthor:
		s.state = stSkippingMessageDiffOrCommitNext
''','''	case stSkipAuthor:
		if startsWith(b, "Author: ") || len(b) == 0 {
			s.state = stSkippingMessageDiffOrCommitNext
		}
''')) if False else None
bug('b3-blank-in-diff','C02',PP,('''		} else if s.isDiffStart(b) {
			s.endDiff()
''','''		} else if s.isDiffStart(b) && !bytes.Contains(b, []byte("\\"")) {
			s.endDiff()
'''),('''import (
''','''import (
	"bytes"
'''))
bug('b3-skip-msg','C02',PP,('''		if s.isDiffStart(b) {
			s.startDiff(b)
		} else if startsWith(b, "commit ") {''','''		if s.isDiffStart(b) {
			s.startDiff(b)
		} else if startsWith(b, "commit ") && len(b) == len("commit ")+40 {'''))
