P='ripsrc/branches2/process.go'
N='ripsrc/branches2/name_hash.go'
B='ripsrc/branchmeta/branchmeta.go'
D='ripsrc/branchmeta/default.go'
bug('c20-short','C20',B,('refname:lstrip=2','refname:short'))
bug('c20-short-default','C20',B,('		"symbolic-ref",\n','		"symbolic-ref",\n		"--short",\n'))
bug('c20-abbrev','C20',D,('--symbolic-full-name','--abbrev-ref'))
bug('c20-default-notrim','C20',D,('	return strings.TrimPrefix(res, "refs/heads/"), nil','	return res, nil'))
bug('c20-sep-order','C20',B,('"%(objectname)@@@%(committerdate)@@@%(refname:lstrip=2)"','"%(objectname)@@@%(refname:lstrip=2)@@@%(committerdate)"'),('b.Name = parts[2]','b.Name = parts[1]'),('gittime.Parse(parts[1])','gittime.Parse(parts[2])'))
bug('c20-split','C20',B,('strings.SplitN(line, "@@@", 3)','strings.Split(line, "@@@")'))
bug('c20-head','C20',B,('		if b.Name == "HEAD" {\n			continue\n		}\n',''))
bug('c20-head-early','C20',B,('		if b.Name == "HEAD" {\n			continue\n		}\n',''),('		if opts.UseOrigin {\n			if !','		if b.Name == "HEAD" {\n			continue\n		}\n		if opts.UseOrigin {\n			if !'))
bug('c20-default-early','C20',B,('		if !opts.IncludeDefault && b.Name == defaultBranch {\n			continue\n		}\n',''),('		if opts.UseOrigin {\n			if !','		if !opts.IncludeDefault && b.Name == defaultBranch {\n			continue\n		}\n		if opts.UseOrigin {\n			if !'))
bug('c20-default-always','C20',B,('		if !opts.IncludeDefault && b.Name','		if b.Name'))
bug('c20-default-never','C20',B,('		if !opts.IncludeDefault && b.Name','		if !opts.IncludeDefault && !opts.UseOrigin && b.Name'))
bug('c20-noprefix','C20',B,('			b.Name = strings.TrimPrefix(b.Name, "origin/")\n',''))
bug('c20-trimleft','C20',B,('strings.TrimPrefix(b.Name, "origin/")','strings.TrimLeft(b.Name, "origin/")'))
bug('c20-refs','C20',B,('"refs/remotes/origin"','"refs/remotes"'))
bug('c20-skip-dependabot','C20',B,('		res = append(res, b)','		if strings.HasPrefix(b.Name, "dependabot/") {\n			continue\n		}\n		res = append(res, b)'))
bug('c20-skip-samecommit','C20',B,('		res = append(res, b)','		if len(res) > 0 && res[len(res)-1].Commit == b.Commit {\n			continue\n		}\n		res = append(res, b)'))
bug('c20-first-line','C20',B,('range lines {','range lines[1:] {'))
bug('c20-last-line','C20',B,('range lines {','range lines[:len(lines)-2] {'))
bug('c20-local-origin','C20',B,('		if opts.UseOrigin {\n			if !','		b.Name = strings.TrimPrefix(b.Name, "origin/")\n		if opts.UseOrigin {\n			if false && !'))
bug('c20-getnames-trunc','C20',N,('	for _, item := range res0 {','	if len(res0) > 1000 {\n		res0 = res0[:1000]\n	}\n	for _, item := range res0 {'))
bug('c20-getnames-swap','C20',N,('Commit: item.Commit}','Commit: item.Name}'))
bug('c20-getnames-dup','C20',N,('	for _, item := range res0 {\n','	seen := map[string]bool{}\n	for _, item := range res0 {\n		if seen[item.Commit] {\n			continue\n		}\n		seen[item.Commit] = true\n'))
bug('c20-useorigin','C20',N,('	opts.UseOrigin = s.opts.UseOrigin\n',''))
bug('c20-chan-skip','C20',N,('			res <- v\n','			if v.Commit == "" {\n				continue\n			}\n			res <- v\n'))
bug('c20-pr-dup','C20',P,('range uniqueStrings(s.opts.PullRequestSHAs)','range s.opts.PullRequestSHAs'))
bug('c20-pr-adjacent','C20',P,('''	m := map[string]bool{}
	for _, s := range arr1 {
		m[s] = true
	}
	for s := range m {
		res = append(res, s)
	}
	return
''','''	for i, s := range arr1 {
		if i > 0 && arr1[i-1] == s {
			continue
		}
		res = append(res, s)
	}
	return
'''))
bug('c20-pr-replace','C20',P,('''	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		namesAndHashes = append(namesAndHashes, nameAndHash{Commit: sha})
	}
''','''	prs := namesAndHashes[:0]
	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		prs = append(prs, nameAndHash{Commit: sha})
	}
	if len(prs) > 0 {
		namesAndHashes = prs
	}
'''))
bug('c20-pr-known','C20',P,('		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok {','		if len(s.opts.CommitGraph.Parents[nameAndHash.Commit]) == 0 {'))
bug('c20-pr-unknown','C20',P,('		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok {\n			return nil\n		}\n','		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok && s.opts.UseOrigin {\n			return nil\n		}\n'))
bug('c20-pr-merged','C20',P,('		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok {\n			return nil\n		}\n','		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok || s.reachableFromHead[nameAndHash.Commit] {\n			return nil\n		}\n'))
bug('c20-branch-empty','C20',P,('	res.AheadDefaultCount = len(res.Commits)','	if name != "" && s.reachableFromHead[nameAndHash.Commit] && len(res.Commits) == 1 {\n		return nil\n	}\n	res.AheadDefaultCount = len(res.Commits)'))
bug('c20-default-pronly','C20',P,('	if !s.opts.PullRequestsOnly && s.opts.IncludeDefaultBranch {','	if s.opts.IncludeDefaultBranch {'))
bug('c20-default-twice','C20',N,('	opts.UseOrigin = s.opts.UseOrigin\n','	opts.UseOrigin = s.opts.UseOrigin\n	opts.IncludeDefault = s.opts.UseOrigin\n'))
bug('c20-pronly-inv','C20',P,('	if !s.opts.PullRequestsOnly {\n		namesAndHashes','	if len(s.opts.PullRequestSHAs) == 0 {\n		namesAndHashes'))
bug('c20-noprs','C20',P,('	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {\n','	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {\n		if s.reachableFromHead[sha] {\n			continue\n		}\n'))
ok('c20-ok-seen','C20',P,('''	m := map[string]bool{}
	for _, s := range arr1 {
		m[s] = true
	}
	for s := range m {
		res = append(res, s)
	}
	return
''','''	m := map[string]bool{}
	for _, s := range arr1 {
		if m[s] {
			continue
		}
		m[s] = true
		res = append(res, s)
	}
	return
'''))
ok('c20-ok-seen2','C20',P,('''	m := map[string]bool{}
	for _, s := range arr1 {
		m[s] = true
	}
	for s := range m {
		res = append(res, s)
	}
	return
''','''	m := make(map[string]struct{}, len(arr1))
	for i := range arr1 {
		if _, ok := m[arr1[i]]; !ok {
			res = append(res, arr1[i])
			m[arr1[i]] = struct{}{}
		}
	}
	return res
'''))
ok('c20-ok-inline','C20',P,('''	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		namesAndHashes = append(namesAndHashes, nameAndHash{Commit: sha})
	}
''','''	uniq := map[string]bool{}
	for _, sha := range s.opts.PullRequestSHAs {
		uniq[sha] = true
	}
	for sha := range uniq {
		namesAndHashes = append(namesAndHashes, nameAndHash{Commit: sha})
	}
'''))
ok('c20-ok-sorted','C20',P,('	for s := range m {\n		res = append(res, s)\n	}\n','	for s := range m {\n		res = append(res, s)\n	}\n	sort.Strings(res)\n'),('	"runtime"\n','	"runtime"\n	"sort"\n'))
ok('c20-ok-helper','C20',P,('''	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		namesAndHashes = append(namesAndHashes, nameAndHash{Commit: sha})
	}
''','''	namesAndHashes = s.withPullRequests(namesAndHashes)
'''),('func uniqueStrings','''func (s *Process) withPullRequests(list namesAndHashes) namesAndHashes {
	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		list = append(list, nameAndHash{Commit: sha})
	}
	return list
}

func uniqueStrings'''))
ok('c20-ok-prearly','C20',P,('''	name := nameAndHash.Name
	if name == "" { // this''','''	name := nameAndHash.Name
	if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok && name == "" {
		return nil
	}
	if name == "" { // this'''),('''
		// passed sha not found in the tree at all, skip it
		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok {
			return nil
		}
''',''))
ok('c20-ok-lstrip3','C20',B,('refname:lstrip=2)','refname)'),('''			if !strings.HasPrefix(b.Name, "origin/") {
				panic("branch name does not have origin/ prefix")
			}
			b.Name = strings.TrimPrefix(b.Name, "origin/")
		}
''','''			b.Name = strings.TrimPrefix(b.Name, "refs/remotes/origin/")
		} else {
			b.Name = strings.TrimPrefix(b.Name, "refs/heads/")
		}
'''))
ok('c20-ok-slice','C20',B,('strings.TrimPrefix(b.Name, "origin/")','b.Name[len("origin/"):]'))
ok('c20-ok-scanner','C20',B,('''	lines := bytes.Split(data, []byte("\\n"))
	for _, line := range lines {
		line := string(line)
		line = strings.TrimSpace(line)
''','''	for _, line := range strings.Split(string(data), "\\n") {
		line = strings.TrimSpace(line)
'''))
ok('c20-ok-nested','C20',B,('''		if b.Name == "HEAD" {
			continue
		}
		if !opts.IncludeDefault && b.Name == defaultBranch {
			continue
		}
		res = append(res, b)
''','''		switch {
		case b.Name == "HEAD":
		case b.Name == defaultBranch && !opts.IncludeDefault:
		default:
			res = append(res, b)
		}
'''))
ok('c20-ok-parse','C20',B,('''		parts := strings.SplitN(line, "@@@", 3)
		if len(parts) != 3 {
			panic("unexpected format")
		}
		b := BranchWithCommitTime{}
		b.Commit = parts[0]
		b.Name = parts[2]
		date, err := gittime.Parse(parts[1])
		if err != nil {
			panic("invalid date format")
		}
		b.CommitCommitterTime = date
''','''		b := parseRef(line)
'''),('func getDefaultBranch','''func parseRef(line string) BranchWithCommitTime {
	parts := strings.SplitN(line, "@@@", 3)
	if len(parts) != 3 {
		panic("unexpected format")
	}
	date, err := gittime.Parse(parts[1])
	if err != nil {
		panic("invalid date format")
	}
	return BranchWithCommitTime{Name: parts[2], Commit: parts[0], CommitCommitterTime: date}
}

func getDefaultBranch'''))
ok('c20-ok-feeder','C20',P,('	workCh := namesAndHashes.Chan()\n','''	workCh := make(chan nameAndHash)
	go func() {
		defer close(workCh)
		for i := range namesAndHashes {
			workCh <- namesAndHashes[i]
		}
	}()
'''))
ok('c20-ok-getnames','C20',N,('''	for _, item := range res0 {
		res = append(res, nameAndHash{Name: item.Name, Commit: item.Commit})
	}
	return res, nil
''','''	out := make(namesAndHashes, 0, len(res0))
	for i := 0; i < len(res0); i++ {
		var nh nameAndHash
		nh.Name = res0[i].Name
		nh.Commit = res0[i].Commit
		out = append(out, nh)
	}
	return out, nil
'''))
