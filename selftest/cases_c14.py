P='ripsrc/history3/process/process.go'; R='ripsrc/history3/process/repo/repo.go'; G='ripsrc/parentsgraph/parents.go'
bug('c14-no-merge-trim','C14',P,('	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)\n','	if len(s.mergeParts) > 1 {\n		s.trimGraphAfterCommitProcessed(s.mergePartsCommit)\n	}\n'))
bug('c14-skip-empty','C14',P,('	s.trimGraphAfterCommitProcessed(commit.Hash)\n','	if len(res.Files) > 0 {\n		s.trimGraphAfterCommitProcessed(commit.Hash)\n	}\n'))
bug('c14-twice','C14',P,('''		if s.mergePartsCommit == commit.Hash {
			s.merge''','''		if s.mergePartsCommit == commit.Hash {
			s.trimGraphAfterCommitProcessed(commit.Hash)
			s.merge'''))
bug('c14-wronghash','C14',P,('	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)\n','	s.trimGraphAfterCommitProcessed(s.lastProcessedCommitHash + "")\n'))
bug('c14-firstparent','C14',P,('for _, p := range parents {\n		s.childrenP','for _, p := range parents[:1] {\n		s.childrenP'))
bug('c14-nocmp','C14',P,('== len(siblings) {','== len(siblings)-1 {'))
bug('c14-lt','C14',P,('if s.childrenProcessed[p] == len(siblings) {','if s.childrenProcessed[p] > 1 || s.childrenProcessed[p] == len(siblings) {'))
bug('c14-self','C14',P,('s.unloader.Unload(p)','s.unloader.Unload(commit)'))
bug('c14-sib','C14',P,('siblings := s.graph.Children[p]','siblings := s.graph.Parents[p]'))
bug('c14-delete','C14',P,('	s.mergeParts = nil\n','	s.mergeParts = nil\n	delete(s.repo, s.graph.Parents[s.mergePartsCommit][0])\n'))
bug('c14-inc','C14',P,('s.childrenProcessed[p]++','s.childrenProcessed[p] += len(parents)'))
bug('c14-early','C14',P,('''	res, err := s.processRegularCommit(commit)
	if err != nil {
		return err
	}
	s.trimGraphAfterCommitProcessed(commit.Hash)
''','''	s.trimGraphAfterCommitProcessed(commit.Hash)
	res, err := s.processRegularCommit(commit)
	if err != nil {
		return err
	}
'''))
bug('c14-max','C14',R,('const maxCommitsInCheckpoint = 1000','const maxCommitsInCheckpoint = 100'))
bug('c14-ge','C14',R,('s.toUnload.Len() > maxC','s.toUnload.Len() >= maxC'))
bug('c14-lifo','C14',R,('s.toUnload.PushFront','s.toUnload.PushBack'))
bug('c14-noremove','C14',R,('		s.toUnload.Remove(last)\n',''))
bug('c14-now','C14',R,('delete(s.repo, last.Value.(string))','delete(s.repo, commitHash)\n		_ = last'))
bug('c14-front','C14',R,('s.toUnload.Back()','s.toUnload.Front()'))
bug('c14-kids','C14',G,('''		for _, p := range parents {
			s.Ch''','''		for i, p := range parents {
			if i > 0 && p == parents[0] {
				continue
			}
			if len(parents) > 2 && i == 2 {
				continue
			}
			s.Ch'''))
bug('c14-kidsdup','C14',G,('			s.Children[p] = append(s.Children[p], commit)\n','			s.Children[p] = append(s.Children[p], commit)\n			if len(parents) == 2 {\n				s.Children[p] = append(s.Children[p], commit)\n			}\n'))
bug('c14-kidsover','C14',G,('s.Children[p] = append(s.Children[p], commit)','s.Children[p] = append([]string(nil), commit)'))
bug('c14-kidsreset','C14',G,('''		if _, ok := s.Children[commit]; !ok {
			// make''','''		if len(parents) == 0 {
			// make'''))
ok('c14-helper','C14',P,('''		s.childrenProcessed[p]++ // mark commit as processed
		siblings := s.graph.Children[p]
		if s.childrenProcessed[p] == len(siblings) {
			// done with parent, can delete it
			s.unloader.Unload(p)
		}
''','''		s.countChild(p)
'''),('''func (s *Process) processCommit(''','''func (s *Process) countChild(p string) {
	n := s.childrenProcessed[p] + 1
	s.childrenProcessed[p] = n
	if n >= len(s.graph.Children[p]) {
		s.unloader.Unload(p)
	}
}

func (s *Process) processCommit('''))
ok('c14-loop','C14',P,('''	for _, p := range parents {
		s.childrenProcessed[p]++ // mark''','''	for i := 0; i < len(parents); i++ {
		p := parents[i]
		s.childrenProcessed[p]++ // mark'''))
ok('c14-after-send','C14',P,('''	s.trimGraphAfterCommitProcessed(commit.Hash)
	resChan <- res
''','''	resChan <- res
	s.trimGraphAfterCommitProcessed(res.Commit)
'''))
ok('c14-after-send2','C14',P,('''	s.trimGraphAfterCommitProcessed(commit.Hash)
	resChan <- res
''','''	resChan <- res
	s.trimGraphAfterCommitProcessed(commit.Hash)
'''))
ok('c14-unl','C14',R,('''	if s.toUnload.Len() > maxCommitsInCheckpoint {
		last := s.toUnload.Back()
		s.toUnload.Remove(last)
		delete(s.repo, last.Value.(string))
	}
''','''	if s.toUnload.Len() <= maxCommitsInCheckpoint {
		return
	}
	s.dropOldest()
'''),('''func (s *Unloader) Unload(''','''func (s *Unloader) dropOldest() {
	h := s.toUnload.Remove(s.toUnload.Back()).(string)
	delete(s.repo, h)
}

func (s *Unloader) Unload('''))
ok('c14-kidshelper','C14',G,('''			s.Children[p] = append(s.Children[p], commit)
''','''			s.addChild(p, commit)
'''),('''func (s *Graph) retrieveParents''','''func (s *Graph) addChild(parent, child string) {
	s.Children[parent] = append(s.Children[parent], child)
}

func (s *Graph) retrieveParents'''))
ok('c14-kidslocal','C14',G,('''	s.Children = map[string][]string{}
	for''','''	kids := make(map[string][]string, len(s.Parents))
	for'''),('''		if _, ok := s.Children[commit]; !ok {
			// make sure that even if commit does not have any children we have a map key for it
			s.Children[commit] = nil
		}''','''		if _, ok := kids[commit]; !ok {
			kids[commit] = nil
		}'''),('s.Children[p] = append(s.Children[p], commit)','kids[p] = append(kids[p], commit)'),('''	for _, data := range s.Children {
		sort.Strings(data)
	}
''','''	for k := range kids {
		sort.Strings(kids[k])
	}
	s.Children = kids
'''))
