P='ripsrc/branches2/process.go'
BC='ripsrc/branches2/branch_commits.go'
PG='ripsrc/parentsgraph/parents.go'
LI='ripsrc/fileinfo/license_enabled.go'
HP='ripsrc/history3/process/process.go'
CI='ripsrc/code_info.go'
SORT='	sort.Strings(res) // to have consistent order\n'
bug('c21-nosort','C21',BC,(SORT,''),('	"sort"\n',''))
bug('c21-children-nosort','C21',PG,('''	for _, data := range s.Children {
		sort.Strings(data)
	}
''',''),('	"sort"\n',''))
bug('c21-children-sort-some','C21',PG,('		sort.Strings(data)\n','		if len(data) > 2 {\n\t\t\tsort.Strings(data)\n\t\t}\n'))
bug('c21-license-tie','C21',LI,('''				// same confidence happens for close variants of a license, always pick the same one
				return matches[i].Name < matches[j].Name
''','				return false\n'))
bug('c21-license-best','C21',LI,('''		matches := make([]License, 0)
		for k, v := range kv {
			matches = append(matches, License{k, v})
		}
''','''		matches := make([]License, 0)
		for k, v := range kv {
			if len(matches) == 0 || v > matches[0].Confidence {
				matches = []License{{k, v}}
			}
		}
'''))
bug('c21-license-first','C21',LI,('''		matches := make([]License, 0)
''','''		for k, v := range kv {
			if v == 1 {
				return &License{k, v}, nil
			}
		}
		matches := make([]License, 0)
'''))
bug('c21-id-time','C21',P,('''	parts := []string{name}
	if len(branchedFrom) > 0 {
		parts = append(parts, branchedFrom[0])
	}
''','''	parts := []string{name}
	if len(branchedFrom) > 0 {
		parts = append(parts, branchedFrom[0])
	} else {
		parts = append(parts, time.Now().Format("2006"))
	}
'''),('	"sync"\n','	"sync"\n	"time"\n'))
bug('c21-first-from-set','C21',BC,('''	var res []string
	for c := range commitsHash {
		if !dup[c] {
			res = append(res, c)
		}
	}
''','''	var res []string
	for c := range commitsHash {
		if len(res) > 64 {
			break
		}
		if !dup[c] {
			res = append(res, c)
		}
	}
'''))
bug('c21-dup-chain','C21',BC,('''			d := false
			for _, p := range gr.Parents[h] {
				if hasDeep[p] {
					d = true
				}
			}
''','''			d := false
			for _, p := range gr.Parents[h] {
				if hasDeep[p] && !dup[p] {
					d = true
				}
			}
'''))
bug('c21-worker-count','C21',P,('''	for i := 0; i < s.opts.Concurrency; i++ {
''','''	seen := map[string]bool{}
	for i := 0; i < s.opts.Concurrency; i++ {
'''),('''				err = s.processBranch(ctx, nameAndHash, res)
''','''				lastErrMu.Lock()
				dup := seen[nameAndHash.Commit]
				seen[nameAndHash.Commit] = true
				lastErrMu.Unlock()
				if dup && nameAndHash.Name != "" {
					continue
				}
				err = s.processBranch(ctx, nameAndHash, res)
'''))
bug('c21-merge-carry','C21',HP,('''	root := ""

	for f := range files {
''','''	root := ""
	var prevPick *incblame.Blame

	for f := range files {
'''),('''		s.repo[commitHash][f] = res2

	}
''','''		if prevPick != nil && len(prevPick.Lines) == len(res2.Lines) {
			res2 = prevPick
		}
		prevPick = res2
		s.repo[commitHash][f] = res2

	}
'''))
bug('c21-info-budget','C21',CI,('''	for filePath, blf := range blame.Files {
''','''	left := 1 << 20
	for filePath, blf := range blame.Files {
'''),('''		if skipReason != "" {
			r.Skipped = skipReason
''','''		left -= len(fileBytes)
		if left < 0 {
			skipReason = "commit too large"
		}
		if skipReason != "" {
			r.Skipped = skipReason
'''))
bug('c21-license-of-commit','C21',CI,('''	for filePath, blf := range blame.Files {
''','''	var license *fileinfo.License
	for filePath, blf := range blame.Files {
'''),('''		r.License = info.License
''','''		if info.License != nil {
			license = info.License
		}
		r.License = license
'''))
bug('c21-date','C21',CI,('		line2.Date = meta.Date\n','''		line2.Date = meta.Date
		if line2.Date.IsZero() {
			line2.Date = time.Now()
		}
'''))
bug('c21-parts-order','C21',HP,('''	for parHash, part := range parts {
		for _, ch := range part.Changes {
''','''	order := []string{}
	for parHash := range parts {
		order = append(order, parHash)
	}
	if len(order) < parentCount {
		parentHashes = order
	}
	for parHash, part := range parts {
		for _, ch := range part.Changes {
'''))
bug('c21-parts-last','C21',HP,('''			par[parInd] = &diff
''','''			par[parInd] = &diff
			if parentCount > 2 {
				par[0] = &diff
			}
'''))
bug('c21-sort-len','C21',BC,(SORT,'	sort.Slice(res, func(i, j int) bool { return len(gr.Parents[res[i]]) < len(gr.Parents[res[j]]) })\n'))
# behaviour kept
ok('c21-ok-slice','C21',BC,(SORT,'	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })\n'))
ok('c21-ok-desc','C21',BC,(SORT,'	sort.Sort(sort.Reverse(sort.StringSlice(res)))\n\treverseStrings(res)\n'))
ok('c21-ok-stringslice','C21',BC,(SORT,'	sort.Sort(sort.StringSlice(res))\n'))
ok('c21-ok-helper','C21',BC,('''	var res []string
	for c := range commitsHash {
		if !dup[c] {
			res = append(res, c)
		}
	}
	sort.Strings(res) // to have consistent order
	return res
}
''','''	return sortedWithout(commitsHash, dup)
}

func sortedWithout(set, without map[string]bool) []string {
	var res []string
	for c := range set {
		if without[c] {
			continue
		}
		res = append(res, c)
	}
	sort.Strings(res)
	return res
}
'''))
ok('c21-ok-helper2','C21',BC,('''	var res []string
	for c := range commitsHash {
		if !dup[c] {
			res = append(res, c)
		}
	}
	sort.Strings(res) // to have consistent order
	return res
}
''','''	res := without(commitsHash, dup)
	sortAll(res)
	return res
}

func sortAll(l []string) {
	sort.Strings(l)
}

func without(set, without map[string]bool) (res []string) {
	for c := range set {
		if without[c] {
			continue
		}
		res = append(res, c)
	}
	return
}
'''))
ok('c21-ok-named','C21',BC,('''func dedupLinearFromHead(gr *parentsgraph.Graph, commits []string, defaultHead string) []string {
''','''func dedupLinearFromHead(gr *parentsgraph.Graph, commits []string, defaultHead string) (res []string) {
	defer func() { sort.Strings(res) }()
'''),('''	var res []string
	for c''','''	for c'''),(SORT,''))
ok('c21-ok-children-append','C21',PG,('''	for _, data := range s.Children {
		sort.Strings(data)
	}
''','''	s.sortChildren()
'''),('''func (s *Graph) retrieveParents''','''func (s *Graph) sortChildren() {
	for k := range s.Children {
		sort.Strings(s.Children[k])
	}
}

func (s *Graph) retrieveParents'''))
ok('c21-ok-children-keys','C21',PG,('''	for _, data := range s.Children {
		sort.Strings(data)
	}
''','''	for commit, data := range s.Children {
		sort.Strings(data)
		s.Children[commit] = data
	}
'''))
ok('c21-ok-children-local','C21',PG,('''	s.Children = map[string][]string{}
	for commit, parents := range s.Parents {
		if _, ok := s.Children[commit]; !ok {
			// make sure that even if commit does not have any children we have a map key for it
			s.Children[commit] = nil
		}
		for _, p := range parents {
			s.Children[p] = append(s.Children[p], commit)
		}
	}
	for _, data := range s.Children {
		sort.Strings(data)
	}
''','''	children := map[string][]string{}
	for commit := range s.Parents {
		children[commit] = nil
	}
	for commit, parents := range s.Parents {
		for _, p := range parents {
			list := children[p]
			list = append(list, commit)
			children[p] = list
		}
	}
	for _, data := range children {
		if len(data) > 1 {
			sort.Strings(data)
		}
	}
	s.Children = children
'''))
ok('c21-ok-children-sortedkeys','C21',PG,('''	for commit, parents := range s.Parents {
		if _, ok''','''	var keys []string
	for commit := range s.Parents {
		keys = append(keys, commit)
	}
	sort.Strings(keys)
	for _, commit := range keys {
		parents := s.Parents[commit]
		if _, ok'''),('''	for _, data := range s.Children {
		sort.Strings(data)
	}
''',''))
ok('c21-ok-license-max','C21',LI,('''		matches := make([]License, 0)
		for k, v := range kv {
			matches = append(matches, License{k, v})
		}
''','''		matches := make([]License, len(kv))
		matches = matches[:0]
		for name, confidence := range kv {
			m := License{Name: name, Confidence: confidence}
			matches = append(matches, m)
		}
'''))
ok('c21-ok-license-helper','C21',LI,('''			sort.Slice(matches, func(i, j int) bool {
				if matches[i].Confidence != matches[j].Confidence {
					return matches[i].Confidence > matches[j].Confidence
				}
				// same confidence happens for close variants of a license, always pick the same one
				return matches[i].Name < matches[j].Name
			})
''','''			sort.Slice(matches, func(i, j int) bool {
				return better(matches[i], matches[j])
			})
'''),('''func detect(''','''func better(a, b License) bool {
	if a.Confidence != b.Confidence {
		return a.Confidence > b.Confidence
	}
	return a.Name < b.Name
}

func detect('''))
ok('c21-ok-license-early','C21',LI,('''	if len(kv) > 0 {
		matches''','''	if len(kv) == 0 {
		return nil, nil
	}
	{
		matches'''))
ok('c21-ok-info-count','C21',CI,('''	for filePath, blf := range blame.Files {
''','''	count := 0
	for filePath, blf := range blame.Files {
		count++
'''),('''		res = append(res, r)
	}
	return
''','''		res = append(res, r)
	}
	if count != len(blame.Files) {
		return nil, fmt.Errorf("lost files")
	}
	return
'''))
ok('c21-ok-info-helper','C21',CI,('''	files := map[string]bool{}
	for _, cf := range commit.Files {
		if cf.Renamed {
			files[cf.RenamedTo] = true
		}
	}
	for p := range blame.Files {
		files[p] = true
	}
''','''	files := allPaths(commit, blame)
'''),('''func (s *Ripsrc) codeInfoFiles''','''func allPaths(commit Commit, blame process.Result) map[string]bool {
	paths := map[string]bool{}
	for p := range blame.Files {
		paths[p] = true
	}
	for _, cf := range commit.Files {
		if !cf.Renamed {
			continue
		}
		paths[cf.RenamedTo] = true
	}
	return paths
}

func (s *Ripsrc) codeInfoFiles'''))
ok('c21-ok-merge-delete','C21',HP,('''	files := map[string]bool{}
	for k := range diffs {
		files[k] = true
	}
''','''	files := make(map[string]bool, len(diffs))
	for k := range diffs {
		files[k] = true
	}
'''))
ok('c21-ok-merge-range','C21',HP,('''	for k := range files {
		diffs := diffs[k]

''','''	for k, diffs := range diffs {
'''),('''	files := map[string]bool{}
	for k := range diffs {
		files[k] = true
	}
''','''	var files map[string]bool
'''))
ok('c21-ok-parts-helper','C21',HP,('''			diff := incblame.Parse(ch.Diff)
			key := ""
			if diff.Path != "" {
				key = diff.Path
			} else {
				key = deletedPrefix + diff.PathPrev
			}
			par, ok := diffs[key]
			if !ok {
				par = make([]*incblame.Diff, parentCount, parentCount)
				diffs[key] = par
			}
			parInd := hashToParOrd[parHash]
			par[parInd] = &diff
''','''			diff := incblame.Parse(ch.Diff)
			putDiff(diffs, &diff, hashToParOrd[parHash], parentCount)
'''),('''const deletedPrefix''','''func putDiff(diffs map[string][]*incblame.Diff, diff *incblame.Diff, ind, count int) {
	key := diff.Path
	if key == "" {
		key = deletedPrefix + diff.PathPrev
	}
	if diffs[key] == nil {
		diffs[key] = make([]*incblame.Diff, count)
	}
	diffs[key][ind] = diff
}

const deletedPrefix'''))
ok('c21-ok-unique','C21',P,('''	m := map[string]bool{}
	for _, s := range arr1 {
		m[s] = true
	}
	for s := range m {
		res = append(res, s)
	}
	return
''','''	m := map[string]bool{}
	for _, s := range arr1 {
		if m[s] {
			continue
		}
		m[s] = true
		res = append(res, s)
	}
	return
'''))
ok('c21-ok-worker','C21',P,('''			for nameAndHash := range workCh {
''','''			for {
				nameAndHash, ok := <-workCh
				if !ok {
					return
				}
'''))
ok('c21-ok-worker-fn','C21',P,('''		go func() {
			defer wg.Done()
			for nameAndHash''','''		go func(workCh chan nameAndHash) {
			defer wg.Done()
			for nameAndHash'''),('''				}
			}
		}()
	}
	wg.Wait()''','''				}
			}
		}(workCh)
	}
	wg.Wait()'''))
# second round
GR='ripsrc/branches2/merge_commit.go'
bug('c21-children-first','C21',PG,('''		for _, p := range parents {
			s.Children[p] = append(s.Children[p], commit)
		}
''','''		for _, p := range parents {
			if len(s.Children[p]) < 2 {
				s.Children[p] = append(s.Children[p], commit)
			}
		}
'''))
bug('c21-res-commit-last','C21',HP,('''EACHFILE:
	for k := range files {
''','''	lastBin := false
EACHFILE:
	for k := range files {
'''),('''		if binaryDiffs != 0 || binParentsWithDiffs != 0 {
''','''		wasBin := lastBin
		lastBin = binaryDiffs != 0
		if binaryDiffs != 0 || binParentsWithDiffs != 0 || wasBin && len(diffs) > 2 {
'''))
bug('c21-root-pick','C21',HP,('''	for f := range files {
		alreadyAddedAbove := false
''','''	for f := range files {
		root = f
		break
	}

	for f := range files {
		alreadyAddedAbove := false
'''))
bug('c21-line-date-cache','C21',CI,('''		meta := s.commitMeta[line.Commit]
''','''		meta, ok := s.commitMeta[line.Commit]
		if !ok {
			for _, meta = range s.commitMeta {
				break
			}
		}
'''))
bug('c21-skip-slow','C21',CI,('''	res, err := s.codeStats(filePath, bl, fileBytes, lines, res)
''','''	if time.Since(start) > 10*time.Second {
		res.Skipped = "took too long"
		return res, nil
	}
	res, err := s.codeStats(filePath, bl, fileBytes, lines, res)
'''))
bug('c21-prs-rank','C21',P,('''	for _, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		namesAndHashes = append(namesAndHashes, nameAndHash{Commit: sha})
	}
''','''	for i, sha := range uniqueStrings(s.opts.PullRequestSHAs) {
		if i > 1000 {
			break
		}
		namesAndHashes = append(namesAndHashes, nameAndHash{Commit: sha})
	}
'''))
bug('c21-lines-map','C21','ripsrc/history3/incblame/apply.go',('''	sort.Slice(''','''	byText := map[string]Hunk{}
	for _, h := range diff.Hunks {
		byText[string(h.Data)] = h
	}
	if len(byText) < len(diff.Hunks) {
		hunks := []Hunk{}
		for _, h := range byText {
			hunks = append(hunks, h)
		}
		diff.Hunks = hunks
	}
	sort.Slice('''))
ok('c21-ok-dup-inline','C21',BC,('''	dup := map[string]bool{}
	{
		for h := range commitsHash {
			d := false
			for _, p := range gr.Parents[h] {
				if hasDeep[p] {
					d = true
				}
			}
			dup[h] = d
		}
	}

	var res []string
	for c := range commitsHash {
		if !dup[c] {
			res = append(res, c)
		}
	}
''','''	isDup := func(h string) bool {
		for _, p := range gr.Parents[h] {
			if hasDeep[p] {
				return true
			}
		}
		return false
	}

	res := []string{}
	for c := range commitsHash {
		if isDup(c) {
			continue
		}
		res = append(res, c)
	}
'''))
ok('c21-ok-dup-set','C21',BC,('''			d := false
			for _, p := range gr.Parents[h] {
				if hasDeep[p] {
					d = true
				}
			}
			dup[h] = d
''','''			for _, p := range gr.Parents[h] {
				if hasDeep[p] {
					dup[h] = true
					break
				}
			}
'''))
ok('c21-ok-delete','C21',BC,('''	var res []string
	for c := range commitsHash {
		if !dup[c] {
			res = append(res, c)
		}
	}
''','''	for c := range dup {
		if dup[c] {
			delete(commitsHash, c)
		}
	}
	res := make([]string, 0, len(commitsHash))
	for c := range commitsHash {
		res = append(res, c)
	}
'''))
ok('c21-ok-candidates','C21',HP,('''		var candidates []*incblame.Blame
		for _, p := range parentHashes {
			bl := s.repo.GetFileOptional(p, f)
			if bl != nil {
				candidates = append(candidates, bl)
			}
		}
''','''		candidates := s.candidates(parentHashes, f)
'''),('''const deletedPrefix''','''func (s *Process) candidates(parents []string, path string) (res []*incblame.Blame) {
	for _, p := range parents {
		if bl := s.repo.GetFileOptional(p, path); bl != nil {
			res = append(res, bl)
		}
	}
	return res
}

const deletedPrefix'''))
ok('c21-ok-mergefile','C21',HP,('''		s.repo[commitHash][f] = res2

''','''		s.keep(commitHash, f, res2)
'''),('''const deletedPrefix''','''func (s *Process) keep(commit, path string, bl *incblame.Blame) {
	s.repo[commit][path] = bl
}

const deletedPrefix'''))
ok('c21-ok-stats','C21',CI,('''		s.CodeInfoTimings.Count++
		s.CodeInfoTimings.Time += dur
''','''		t := s.CodeInfoTimings
		t.Count = t.Count + 1
		t.Time = t.Time + dur
'''))
ok('c21-ok-info-collect','C21',CI,('''	for filePath, blf := range blame.Files {
		if filePath == "" {''','''	paths := make([]string, 0, len(blame.Files))
	for p := range blame.Files {
		paths = append(paths, p)
	}
	for _, filePath := range paths {
		blf := blame.Files[filePath]
		if filePath == "" {'''))
ok('c21-ok-info-sorted','C21',CI,('''	for filePath, blf := range blame.Files {
		if filePath == "" {''','''	paths := make([]string, 0, len(blame.Files))
	for p := range blame.Files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, filePath := range paths {
		blf := blame.Files[filePath]
		if filePath == "" {'''),('	"runtime/debug"\n','	"runtime/debug"\n	"sort"\n'))
ok('c21-ok-hash','C21',P,('''	h := sha256.New()
	_, err := h.Write([]byte(s))
	if err != nil {
		panic(err)
	}
	return hex.EncodeToString(h.Sum(nil))
''','''	sum := sha256.Sum256([]byte(s))
	return hex.EncodeToString(sum[:])
'''))
ok('c21-ok-log-time','C21',P,('''	gr := s.opts.CommitGraph

	res := Branch{}
''','''	gr := s.opts.CommitGraph
	began := time.Now()
	defer func() {
		if d := time.Since(began); d > time.Second {
			s.opts.Logger.Info("slow branch", "name", name, "d", d)
		}
	}()

	res := Branch{}
'''),('	"sync"\n','	"sync"\n	"time"\n'))
