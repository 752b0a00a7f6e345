P='ripsrc/branches2/process.go'
MC='ripsrc/branches2/merge_commit.go'
BC='ripsrc/branches2/branch_commits.go'
BH='ripsrc/branches2/behind_branch.go'
TAIL='''	res.AheadDefaultCount = len(res.Commits)
	res.FirstCommit = res.Commits[0]
'''
MERGED='''	if s.reachableFromHead[nameAndHash.Commit] {
		res.IsMerged = true
		res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
	} else {
		if len(res.BranchedFromCommits) >= 1 {
			res.BehindDefaultCount = behindBranch(gr, s.reachableFromHead, nameAndHash.Commit, defaultHead)
		}
	}
'''
bug('c19-ahead','C19',P,(TAIL,TAIL.replace('len(res.Commits)','len(res.Commits) - 1')))
bug('c19-ahead-unmerged','C19',P,(TAIL,TAIL.replace('res.AheadDefaultCount = len(res.Commits)','if !res.IsMerged {\n\t\tres.AheadDefaultCount = len(res.Commits)\n\t}')))
bug('c19-first-last','C19',P,(TAIL,TAIL.replace('res.Commits[0]','res.Commits[len(res.Commits)-1]')))
bug('c19-first-head','C19',P,(TAIL,TAIL.replace('res.Commits[0]','res.HeadSHA')))
bug('c19-merged-bf','C19',P,('if s.reachableFromHead[nameAndHash.Commit] {','if s.reachableFromHead[nameAndHash.Commit] && len(res.BranchedFromCommits) > 0 {'))
bug('c19-merged-first','C19',P,('if s.reachableFromHead[nameAndHash.Commit] {','if s.reachableFromHead[res.Commits[0]] {'))
bug('c19-merged-order','C19',P,('	if s.reachableFromHead[nameAndHash.Commit] {\n		res.IsMerged = true\n','	if s.reachableFromHead[nameAndHash.Commit] {\n		res.IsMerged = res.MergeCommit != ""\n'))
bug('c19-merge-any','C19',MC,('if reachableFromHead[ch] {','if len(children) == 1 || reachableFromHead[ch] {'))
bug('c19-merge-first','C19',MC,('''	for _, ch := range children {
		if reachableFromHead[ch] {
			return ch
		}
	}
''','''	if len(children) > 0 && reachableFromHead[children[0]] {
		return children[0]
	}
'''))
bug('c19-merge-unmerged','C19',P,(MERGED,'''	res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
'''+MERGED.replace('''		res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
''','')))
bug('c19-merge-self','C19',P,('getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)','getMergeCommit(gr, s.reachableFromHead, res.Commits[0])'))
bug('c19-behind-always','C19',P,('if len(res.BranchedFromCommits) >= 1 {','if len(res.BranchedFromCommits) >= 0 {'))
bug('c19-behind-two','C19',P,('if len(res.BranchedFromCommits) >= 1 {','if len(res.BranchedFromCommits) == 1 {'))
bug('c19-behind-merged','C19',P,(MERGED,'''	if s.reachableFromHead[nameAndHash.Commit] {
		res.IsMerged = true
		res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
	}
	if len(res.BranchedFromCommits) >= 1 {
		res.BehindDefaultCount = behindBranch(gr, s.reachableFromHead, nameAndHash.Commit, defaultHead)
	}
'''))
bug('c19-behind-swap','C19',P,('behindBranch(gr, s.reachableFromHead, nameAndHash.Commit, defaultHead)','behindBranch(gr, s.reachableFromHead, defaultHead, nameAndHash.Commit)'))
bug('c19-behind-twice','C19',BH,('		res++\n','		res++\n		if len(gr.Parents[hash]) > 1 {\n			res++\n		}\n'))
bug('c19-behind-root','C19',BH,('		res++\n','		if len(gr.Parents[hash]) > 0 {\n			res++\n		}\n'))
bug('c19-behind-merges','C19',BH,('		res++\n','		if len(gr.Parents[hash]) < 2 {\n			res++\n		}\n'))
bug('c19-behind-start','C19',BH,('	rec(defaultHead)\n','	for _, p := range gr.Parents[defaultHead] {\n		rec(p)\n	}\n'))
bug('c19-behind-offset','C19',BH,('	return res\n}','	return res - 1\n}'))
bug('c19-list-merges','C19',BC,('		commits = append(commits, hash)\n		commitsDone[hash] = true\n','		if len(gr.Parents[hash]) < 2 {\n			commits = append(commits, hash)\n		}\n		commitsDone[hash] = true\n'))
bug('c19-list-start','C19',BC,('	rec(branchHead)\n	reverse','	rec(defaultHead)\n	reverse'))
bug('c19-id-pr','C19',P,('	if name != "" {\n		res.BranchID','	if name != "" || len(res.BranchedFromCommits) > 0 {\n		res.BranchID'))
bug('c19-id-head','C19',P,('branchID(res.Name, res.BranchedFromCommits)','branchID(res.Name, res.Commits)'))
bug('c19-id-last','C19',P,('parts = append(parts, branchedFrom[0])','parts = append(parts, branchedFrom[len(branchedFrom)-1])'))
bug('c19-id-noname','C19',P,('branchID(res.Name, res.BranchedFromCommits)','branchID("", res.BranchedFromCommits)'))
bug('c19-id-early','C19',P,('branchID(res.Name, res.BranchedFromCommits)','branchID(res.Name, nil)'))
bug('c19-pr-name','C19',P,('	res.Name = name\n','	res.Name = name\n	if name == "" {\n		res.Name = nameAndHash.Commit\n	}\n'))
bug('c19-pr-flag','C19',P,('		res.IsPullRequest = true\n','		res.IsPullRequest = !s.opts.UseOrigin\n'))
bug('c19-default-flag','C19',P,('			IsDefault:   true,\n',''))
bug('c19-default-id','C19',P,('branchID(s.defaultBranch.Name, nil)','branchID(s.defaultBranch.Name, []string{s.defaultBranch.Commit})'))
bug('c19-default-first','C19',P,('return roots[len(roots)-1], nil','return strings.TrimSpace(string(buf)), nil'))
bug('c19-reach-other','C19',P,('s.reachableFromHead = newReachableFromHead(s.opts.CommitGraph, s.defaultBranch.Commit)','''s.reachableFromHead = newReachableFromHead(s.opts.CommitGraph, s.defaultBranch.Commit)
	if len(s.opts.PullRequestSHAs) > 0 {
		s.reachableFromHead = newReachableFromHead(s.opts.CommitGraph, s.opts.PullRequestSHAs[0])
	}'''))
bug('c19-getall-skip','C19',P,('		res = append(res, h)\n		par, ok','		if h != "" {\n			res = append(res, h)\n		}\n		par, ok'))
ok('c19-ok-order','C19',P,(MERGED+TAIL,TAIL+MERGED))
ok('c19-ok-switch','C19',P,(MERGED,'''	switch merged := s.reachableFromHead[nameAndHash.Commit]; {
	case merged:
		res.IsMerged = true
		res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
	case len(res.BranchedFromCommits) != 0:
		res.BehindDefaultCount = behindBranch(gr, s.reachableFromHead, nameAndHash.Commit, defaultHead)
	}
'''))
ok('c19-ok-flag','C19',P,(MERGED,'''	res.IsMerged = s.reachableFromHead[nameAndHash.Commit]
	if res.IsMerged {
		res.MergeCommit = getMergeCommit(gr, s.reachableFromHead, nameAndHash.Commit)
	} else if len(res.BranchedFromCommits) > 0 {
		res.BehindDefaultCount = behindBranch(gr, s.reachableFromHead, nameAndHash.Commit, defaultHead)
	}
'''))
ok('c19-ok-literal','C19',P,('''	res.AheadDefaultCount = len(res.Commits)
	res.FirstCommit = res.Commits[0]
	resChan <- res
''','''	out := Branch{
		BranchID: res.BranchID, Name: res.Name, IsPullRequest: res.IsPullRequest, HeadSHA: res.HeadSHA,
		IsMerged: res.IsMerged, MergeCommit: res.MergeCommit, BranchedFromCommits: res.BranchedFromCommits,
		Commits: res.Commits, BehindDefaultCount: res.BehindDefaultCount,
		AheadDefaultCount: len(res.Commits), FirstCommit: res.Commits[0],
	}
	resChan <- out
'''))
ok('c19-ok-helper','C19',P,(MERGED,'''	s.fill(&res, defaultHead)
'''),('func branchID(','''func (s *Process) fill(b *Branch, defaultHead string) {
	gr := s.opts.CommitGraph
	if !s.reachableFromHead[b.HeadSHA] {
		if len(b.BranchedFromCommits) == 0 {
			return
		}
		b.BehindDefaultCount = behindBranch(gr, s.reachableFromHead, b.HeadSHA, defaultHead)
		return
	}
	b.IsMerged = true
	b.MergeCommit = getMergeCommit(gr, s.reachableFromHead, b.HeadSHA)
}

func branchID('''))
ok('c19-ok-return','C19',P,('func (s *Process) processBranch(ctx context.Context, nameAndHash nameAndHash, resChan chan Branch) error {','''func (s *Process) processBranch(ctx context.Context, nh nameAndHash, resChan chan Branch) error {
	b, ok := s.branch(nh)
	if ok {
		resChan <- b
	}
	return nil
}

func (s *Process) branch(nameAndHash nameAndHash) (Branch, bool) {'''),('			return nil\n		}\n	}\n	res.Head','			return Branch{}, false\n		}\n	}\n	res.Head'),('	resChan <- res\n	return nil\n}','	return res, true\n}'))
ok('c19-ok-id','C19',P,('''	parts := []string{name}
	if len(branchedFrom) > 0 {
		parts = append(parts, branchedFrom[0])
	}
	return hash(strings.Join(parts, ""))
''','''	s := name
	if len(branchedFrom) > 0 {
		s += branchedFrom[0]
	}
	return hash(s)
'''))
ok('c19-ok-hash','C19',P,('''	h := sha256.New()
	_, err := h.Write([]byte(s))
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(h.Sum(nil))
''','''	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
'''))
ok('c19-ok-mcloop','C19',MC,('''	for _, ch := range children {
		if reachableFromHead[ch] {
			return ch
		}
	}
	return ""
''','''	res := ""
	for i := 0; i < len(children); i++ {
		if reachableFromHead[children[i]] {
			res = children[i]
			break
		}
	}
	return res
'''))
ok('c19-ok-reachlocal','C19',P,('	s.reachableFromHead = newReachableFromHead(s.opts.CommitGraph, s.defaultBranch.Commit)\n','	reach := newReachableFromHead(s.opts.CommitGraph, s.defaultBranch.Commit)\n	s.reachableFromHead = reach\n'))
ok('c19-ok-behindlen','C19',BH,('		res++\n','		res += 1\n'))
ok('c19-ok-worker','C19',P,('''		go func() {
			defer wg.Done()
			for nameAndHash := range workCh {
				lastErrMu.Lock()
				err := lastErr
				lastErrMu.Unlock()
				if err != nil {
					return
				}
				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil {
					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
				}
			}
		}()
''','''		work := func() {
			defer wg.Done()
			for item := range workCh {
				lastErrMu.Lock()
				stop := lastErr != nil
				lastErrMu.Unlock()
				if stop {
					return
				}
				if err := s.processBranch(ctx, item, res); err != nil {
					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
				}
			}
		}
		go work()
'''))
# every rewriting of the walks that C18 accepts must be accepted here as well
_c18=[]
exec(open('/verif/selftest/cases_c18.py').read(),{'bug':lambda *a:None,'ok':lambda n,p,f,*r:_c18.append((n,f,r))})
for _n,_f,_r in _c18: ok(_n.replace('c18','c19-w'),'C19',_f,*_r)
ok('c19-ok-getall-loop','C19',P,('''	done := map[string]bool{}
	var rec func(string)
	rec = func(h string) {
		if done[h] {
			return
		}
		done[h] = true
		res = append(res, h)
		par, ok := gr.Parents[h]
		if !ok {
			panic("commit not found in tree")
		}
		// reverse order for better result ordering
		for i := len(par) - 1; i >= 0; i-- {
			rec(par[i])
		}
	}
	rec(head)
	reverseStrings(res)
	return
''','''	w := &lister{gr: gr, done: map[string]bool{}}
	w.visit(head)
	reverseStrings(w.res)
	return w.res
'''),('func (s *Process) RunSlice','''type lister struct {
	gr   *parentsgraph.Graph
	done map[string]bool
	res  []string
}

func (w *lister) visit(h string) {
	if w.done[h] {
		return
	}
	w.done[h] = true
	w.res = append(w.res, h)
	par, ok := w.gr.Parents[h]
	if !ok {
		panic("commit not found in tree")
	}
	for i := len(par) - 1; i >= 0; i-- {
		w.visit(par[i])
	}
}

func (s *Process) RunSlice'''))
ok('c19-ok-commitsof','C19',P,('branchCommits(gr, defaultHead, s.reachableFromHead, nameAndHash.Commit)','s.commitsOf(nameAndHash.Commit)'),('func branchID(','''func (s *Process) commitsOf(head string) ([]string, []string) {
	return branchCommits(s.opts.CommitGraph, s.defaultBranch.Commit, s.reachableFromHead, head)
}

func branchID('''))
