P='ripsrc/history3/process/process.go'
C='ripsrc/code.go'
bug('c01b-noflush-end','C01',P,('''	if len(s.mergeParts) > 0 {
		s.processGotMergeParts(resChan)
	}

''',''))
bug('c01b-noflush-next','C01',P,('''			// finished
			s.processGotMergeParts(resChan)''','''			// finished
			s.mergeParts = nil'''))
bug('c01b-skip-empty','C01',P,('''	res, err := s.processRegularCommit(commit)
''','''	if len(commit.Changes) == 0 {
		return nil
	}
	res, err := s.processRegularCommit(commit)
'''))
bug('c01b-merge-order','C01',P,('''			// finished
			s.processGotMergeParts(resChan)
''','''			// finished
			defer s.processGotMergeParts(resChan)
'''))
bug('c01b-hash-overwrite','C01',P,('''			s.mergeParts[commit.MergeDiffFrom] = commit
			// still same''','''			s.mergeParts[commit.Hash] = commit
			// still same'''))
bug('c01b-label','C01',P,('''	res.Commit = commitHash
	res.Files''','''	res.Commit = parentHashes[0]
	res.Files'''))
bug('c01b-nilfiles','C01',P,('''	s.trimGraphAfterCommitProcessed(commit.Hash)
	resChan <- res
	return nil''','''	s.trimGraphAfterCommitProcessed(commit.Hash)
	if len(res.Files) != 0 {
		resChan <- res
	}
	return nil'''))
ok('c01b-helper','C01',P,('''	if len(s.mergeParts) > 0 {
		s.processGotMergeParts(resChan)
	}

	if i == 0''','''	s.flushMerge(resChan)

	if i == 0'''),('''func (s *Process) trimGraphAfter''','''func (s *Process) flushMerge(resChan chan Result) {
	if len(s.mergeParts) == 0 {
		return
	}
	s.processGotMergeParts(resChan)
}

func (s *Process) trimGraphAfter'''))
ok('c01b-restructure','C01',P,('''		if s.mergePartsCommit == commit.Hash {
			s.mergeParts[commit.MergeDiffFrom] = commit
			// still same
			return nil
		} else {
			// finished
			s.processGotMergeParts(resChan)
			// new commit
			// continue below
		}
''','''		same := s.mergePartsCommit == commit.Hash
		if same {
			s.mergeParts[commit.MergeDiffFrom] = commit
			return nil
		}
		s.processGotMergeParts(resChan)
'''))
ok('c01b-merge-literal','C01',P,('''		s.mergeParts = map[string]parser.Commit{}
		s.mergeParts[commit.MergeDiffFrom] = commit
		return nil''','''		s.mergeParts = make(map[string]parser.Commit, len(commit.Parents))
		s.mergePartsCommit = commit.Hash
		s.mergeParts[commit.MergeDiffFrom] = commit
		return nil'''))
ok('c01b-nilfirst','C01',P,('''	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)
	s.mergeParts = nil
	resChan <- res''','''	resChan <- res
	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)
	s.mergeParts = nil'''))
ok('c01b-recvloop','C01',P,('''	for commit := range commits {
		if i == 0 {''','''	for {
		commit, more := <-commits
		if !more {
			break
		}
		if i == 0 {'''))
bug('c01b-code-skip','C01',C,('''			for f := range r.Blames {
				res <- f
			}''','''			for f := range r.Blames {
				if f.Filename == "" {
					continue
				}
				res <- f
			}'''))
bug('c01b-code-one','C01',C,('''			for f := range r.Blames {
				res <- f
			}''','''			if len(r.Files) != 0 {
			for f := range r.Blames {
				res <- f
			}
			}'''))
bug('c01b-nofiles','C01',C,('''			res <- rc
			for _, r := range rs {''','''			if len(rs) == 0 {
				continue
			}
			res <- rc
			for _, r := range rs {'''))
bug('c01b-first','C01',C,('''			for _, r := range rs {
				rc.Blames <- r''','''			for _, r := range rs[1:] {
				rc.Blames <- r'''))
bug('c01b-change','C01',C,('''				rc.Blames <- r
''','''				if r.Skipped != "" {
					r.License = nil
				}
				rc.Blames <- r
'''))
bug('c01b-meta','C01',C,('''			rc.Commit = commit
''','''			rc.Commit = commit
			if len(commit.Parents) > 1 {
				rc.Commit = s.commitMeta[commit.Parents[0]]
			}
'''))
bug('c01b-slice','C01',C,('''		for r := range resChan {
			res = append(res, r)
		}''','''		for r := range resChan {
			if len(res) > 0 && res[len(res)-1].Filename == r.Filename && res[len(res)-1].Commit.SHA == r.Commit.SHA {
				continue
			}
			res = append(res, r)
		}'''))
bug('c01b-runmap','C01','ripsrc/commitmeta/commitmeta.go',('''		for r := range resChan {
			res[r.SHA] = r
		}''','''		for r := range resChan {
			if _, ok := res[r.SHA]; !ok && len(r.Files) > 0 {
			res[r.SHA] = r
			}
		}'''))
ok('c01b-gomethod','C01',C,('''	go func() {
		for r := range res2 {
			for f := range r.Blames {
				res <- f
			}
		}
		done <- true
	}()
''','''	go forwardBlames(res2, res, done)
'''),('''type CommitCode struct''','''func forwardBlames(in chan CommitCode, out chan BlameResult, done chan bool) {
	for r := range in {
		forwardOne(r, out)
	}
	done <- true
}

func forwardOne(r CommitCode, out chan BlameResult) {
	for f := range r.Blames {
		out <- f
	}
}

type CommitCode struct'''))
ok('c01b-rcliteral','C01',C,('''			rc := CommitCode{}
			rc.Blames = make(chan BlameResult)
''',''),('''			rc.Commit = commit

''','''			rc := CommitCode{Commit: commit, Blames: make(chan BlameResult)}

'''),('''			for _, r := range rs {
				rc.Blames <- r
			}''','''			for i := 0; i < len(rs); i++ {
				rc.Blames <- rs[i]
			}'''))
bug('c01b-branches','C01','ripsrc/branches.go',('''			res <- r
''','''			if r.HeadSHA != "" {
				res <- r
			}
'''))
ok('c01b-slice2','C01',C,('''		for r := range resChan {
			res = append(res, r)
		}
		done <- true''','''		var all []BlameResult
		for r := range resChan {
			all = append(all, r)
		}
		res = all
		done <- true'''))
