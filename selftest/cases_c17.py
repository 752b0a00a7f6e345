P='ripsrc/branches2/process.go'
BC='ripsrc/branches2/branch_commits.go'
BB='ripsrc/branches2/behind_branch.go'
NH='ripsrc/branches2/name_hash.go'
PG='ripsrc/parentsgraph/parents.go'
LI='ripsrc/fileinfo/license_enabled.go'
LO='ripsrc/pkg/logger/logger.go'
HP='ripsrc/history3/process/process.go'
PA='ripsrc/history3/process/parser/parser.go'
CM='ripsrc/commitmeta/commitmeta.go'
CO='ripsrc/code.go'
BR='ripsrc/branches.go'
RD='''				lastErrMu.Lock()
				err := lastErr
				lastErrMu.Unlock()
'''
WR='''					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
'''
bug('c17-read-unlocked','C17',P,(RD,'				err := lastErr\n'))
bug('c17-write-unlocked','C17',P,(WR,'					lastErr = err\n'))
bug('c17-errvar-outside','C17',P,('''				err = s.processBranch(ctx, nameAndHash, res)
''','''				lastErrMu.Lock()
				current = nameAndHash
				lastErrMu.Unlock()
				err = s.processBranch(ctx, current, res)
'''),('	var lastErr error\n','	var lastErr error\n	var current nameAndHash\n'))
bug('c17-add-inside','C17',P,('''		wg.Add(1)
		go func() {
''','''		go func() {
			wg.Add(1)
'''))
bug('c17-no-wait','C17',P,('	wg.Wait()\n	return lastErr\n','	go wg.Wait()\n	return lastErr\n'))
bug('c17-current-branch-field','C17',P,('	name := nameAndHash.Name\n','	s.current = nameAndHash\n	name := nameAndHash.Name\n'),
  ('	reachableFromHead reachableFromHead\n}','	reachableFromHead reachableFromHead\n\n	current nameAndHash\n}'))
bug('c17-memo-graph','C17',BC,('''		rec(defaultHead)
	}

	commitsDone := map''','''		rec(defaultHead)
		delete(gr.Parents, "")
	}

	commitsDone := map'''))
bug('c17-behind-cache','C17',BB,('''	done := map[string]bool{}
''','''	if n, ok := behindCache[branchHead]; ok {
		return n
	}
	defer func() { behindCache[branchHead] = res }()
	done := map[string]bool{}
'''),('func behindBranch(','var behindCache = map[string]int{}\n\nfunc behindBranch('))
bug('c17-reach-in-place','C17',BC,('''		reachableFromHead = map[string]bool{}
		done := map''','''		for k := range reachableFromHead {
			delete(reachableFromHead, k)
		}
		done := map'''))
bug('c17-reach-cond','C17',BC,('''		reachableFromHead = map[string]bool{}
		done := map''','''		if len(reachableFromHead) > 1 {
			reachableFromHead = map[string]bool{}
		}
		done := map'''))
bug('c17-reverse-shared','C17',BC,('''	branchedFrom = dedup''','''	reverseStrings(gr.Parents[branchHead])
	branchedFrom = dedup'''))
bug('c17-count-logged','C17',P,('''	res.FirstCommit = res.Commits[0]
''','''	res.FirstCommit = res.Commits[0]
	s.done++
'''),('	reachableFromHead reachableFromHead\n}','	reachableFromHead reachableFromHead\n\n	done int\n}'))
bug('c17-rlock-write','C17',P,('	var lastErrMu sync.Mutex\n','	var lastErrMu sync.RWMutex\n'),(RD,RD.replace('Lock()','RLock()').replace('UnR','RUn').replace('.UnRLock','.RUnlock').replace('.RUnLock','.RUnlock')),
  (WR,WR.replace('.Lock()','.RLock()').replace('.Unlock()','.RUnlock()')))
bug('c17-two-locks','C17',P,('	var lastErrMu sync.Mutex\n','	var lastErrMu, readMu sync.Mutex\n'),(RD,RD.replace('lastErrMu','readMu')))
bug('c17-lock-per-worker','C17',P,('	var lastErrMu sync.Mutex\n',''),('		wg.Add(1)\n','		wg.Add(1)\n		var lastErrMu sync.Mutex\n'))
bug('c17-kept-on-return','C17',P,(RD+'''				if err != nil {
					return
				}
''','''				lastErrMu.Lock()
				err := lastErr
				if err != nil {
					return
				}
				lastErrMu.Unlock()
'''))
bug('c17-nested-lock','C17',P,(WR,'''					lastErrMu.Lock()
					if lastErr == nil {
						setErr(err)
					}
					lastErrMu.Unlock()
'''),('	for i := 0; i < s.opts.Concurrency; i++ {\n','''	setErr := func(err error) {
		lastErrMu.Lock()
		defer lastErrMu.Unlock()
		lastErr = err
	}
	for i := 0; i < s.opts.Concurrency; i++ {
'''))
bug('c17-detect-no-lock','C17',LI,('	mu.Lock()\n',''),('	mu.Unlock()\n',''),('var mu sync.Mutex\n\n',''),('	"sync"\n',''))
bug('c17-detect-early','C17',LI,('''	mu.Unlock()
	if err != nil {''','''	if len(kv) == 0 && err == nil {
		return nil, nil
	}
	mu.Unlock()
	if err != nil {'''))
bug('c17-detect-local-mu','C17',LI,('	mf := &mem','	var mu sync.Mutex\n	mf := &mem'),('var mu sync.Mutex\n\n',''))
bug('c17-detect-early-unlock','C17',LI,('''	mu.Lock()
	kv, err''','''	mu.Lock()
	mu.Unlock()
	kv, err'''),('(mf)\n	mu.Unlock()\n','(mf)\n'))
bug('c17-detect-big-skip','C17',LI,('''	mu.Lock()
	kv, err := licensedb.Detect(mf)
	mu.Unlock()
''','''	if len(buf) < 1000 {
		mu.Lock()
		defer mu.Unlock()
	}
	kv, err := licensedb.Detect(mf)
'''))
bug('c17-log-nolock','C17',LO,('		s.mu.Lock()\n		defer s.mu.Unlock()\n',''),('	mu sync.Mutex\n',''),('	"sync"\n',''))
bug('c17-log-split','C17',LO,('''		_, err = s.wr.Write([]byte("\\n"))
''','''		s.mu.Unlock()
		s.mu.Lock()
		_, err = s.wr.Write([]byte("\\n"))
'''))
bug('c17-log-newline-out','C17',LO,('''	write := func(format string, args ...interface{}) {
		s.mu.Lock()
		defer s.mu.Unlock()
		p := fmt.Sprintf(format, args...)
		_, err := s.wr.Write([]byte(p))
		if err != nil {
			panic(err)
		}
''','''	write := func(format string, args ...interface{}) {
		p := fmt.Sprintf(format, args...)
		s.mu.Lock()
		_, err := s.wr.Write([]byte(p))
		s.mu.Unlock()
		if err != nil {
			panic(err)
		}
'''))
bug('c17-log-debug-raw','C17',LO,('	s.log("DEBUG", msg, args...)\n','	if len(args) == 0 {\n		fmt.Fprintf(s.wr, "DEBUG %v\\n", msg)\n		return\n	}\n	s.log("DEBUG", msg, args...)\n'))
bug('c17-log-relock','C17',LO,('''		p := fmt.Sprintf(format, args...)
''','''		p := fmt.Sprintf(format, args...)
		if p == "" {
			s.Info("empty record")
		}
'''))
bug('c17-log-buffer','C17',LO,('	wr io.Writer\n','	wr io.Writer\n	buf []byte\n'),('		s.mu.Lock()\n		defer s.mu.Unlock()\n		p := fmt.Sprintf(format, args...)\n		_, err := s.wr.Write([]byte(p))\n','		s.buf = append(s.buf[:0], fmt.Sprintf(format, args...)...)\n		s.mu.Lock()\n		defer s.mu.Unlock()\n		_, err := s.wr.Write(s.buf)\n'))
bug('c17-parseerr-early','C17',HP,('''	<-done
	if parseErr != nil {''','''	if parseErr != nil {'''),('		parseErr = p.Run(commits)\n		done <- true\n','		parseErr = p.Run(commits)\n		close(done)\n'),('''	drainAndExit := func() {
		for range commits {
		}
		<-done
	}
''','''	drainAndExit := func() {
		for range commits {
		}
	}
'''))
bug('c17-parseerr-after-signal','C17',HP,('''		parseErr = p.Run(commits)
		done <- true
''','''		err := p.Run(commits)
		done <- true
		parseErr = err
'''))
bug('c17-getall-early','C17',HP,('''	for r := range res {
		res2 = append(res2, r)
	}
	<-done
	return res2, err
''','''	for r := range res {
		res2 = append(res2, r)
	}
	if err != nil {
		return nil, err
	}
	<-done
	return res2, nil
'''))
bug('c17-slice-nojoin','C17',CO,('''	go func() {
		for r := range resChan {
			res = append(res, r)
		}
		done <- true
	}()
	err := s.Code(ctx, resChan)
	<-done
''','''	go func() {
		for r := range resChan {
			res = append(res, r)
		}
		close(done)
	}()
	err := s.Code(ctx, resChan)
'''))
bug('c17-slice-err-return','C17',CM,('''			res[r.SHA] = r
		}
		done <- true
	}()
	err := s.Run(resChan)
	<-done
	return res, err
''','''			res[r.SHA] = r
		}
		close(done)
	}()
	err := s.Run(resChan)
	if len(res) == 0 {
		<-done
	}
	return res, err
'''))
bug('c17-len-early','C17',BR,('''	err := s.Branches(ctx, resChan)
	<-done
	return res, err
''','''	err := s.Branches(ctx, resChan)
	if len(res) == 0 && err != nil {
		<-done
		return nil, err
	}
	<-done
	return res, err
'''))
bug('c17-timing-early','C17',CO,('''			sha := r1.Commit

			rc''','''			sha := r1.Commit
			s.GitProcessTimings.RegularCommitsCount++

			rc'''),('''	err = gitProcessor.Run(gitRes)
''','''	s.GitProcessTimings = gitProcessor.Timing()
	err = gitProcessor.Run(gitRes)
'''))
bug('c17-meta-lazy','C17',CO,('''	err = gitProcessor.Run(gitRes)
''','''	s.commitMeta = map[string]commitmeta.Commit{}
	err = gitProcessor.Run(gitRes)
'''))
bug('c17-sent-then-written','C17',CM,('''	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
		res <- *parser.commit
''','''	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
		files := map[string]*CommitFile{}
		for k, v := range parser.commit.Files {
			files[k] = v
		}
		last := *parser.commit
		last.Files = files
		res <- last
		delete(files, "")
'''))
bug('c17-helper-many','C17',P,('''		wg.Add(1)
		go func() {
			defer wg.Done()
			for nameAndHash := range workCh {
				lastErrMu.Lock()
				err := lastErr
				lastErrMu.Unlock()
				if err != nil {
					return
				}
				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil {
					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
				}
			}
		}()
''','''		wg.Add(1)
		s.worker(ctx, &wg, workCh, res, &lastErr)
'''),("	var lastErrMu sync.Mutex\n",""),("func uniqueStrings(",'''func (s *Process) worker(ctx context.Context, wg *sync.WaitGroup, workCh chan nameAndHash, res chan Branch, lastErr *error) {
	go func() {
		defer wg.Done()
		for item := range workCh {
			err := s.processBranch(ctx, item, res)
			if err != nil {
				*lastErr = err
			}
		}
	}()
}

func uniqueStrings('''))
ok('c17-ok-helper-many','C17',P,('''		wg.Add(1)
		go func() {
			defer wg.Done()
			for nameAndHash := range workCh {
				lastErrMu.Lock()
				err := lastErr
				lastErrMu.Unlock()
				if err != nil {
					return
				}
				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil {
					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
				}
			}
		}()
''','''		s.worker(ctx, &wg, workCh, res, &errs[i])
'''),("	var lastErrMu sync.Mutex\n",""),("	var lastErr error\n","	errs := make([]error, s.opts.Concurrency)\n"),("	return lastErr\n",'''	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''),("func uniqueStrings(",'''func (s *Process) worker(ctx context.Context, wg *sync.WaitGroup, workCh chan nameAndHash, res chan Branch, lastErr *error) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		for item := range workCh {
			err := s.processBranch(ctx, item, res)
			if err != nil {
				*lastErr = err
				return
			}
		}
	}()
}

func uniqueStrings('''))
ok('c17-ok-once-join','C17',HP,('''	drainAndExit := func() {
		for range commits {
		}
		<-done
	}
''','''	var once sync.Once
	drainAndExit := func() {
		for range commits {
		}
		once.Do(func() { <-done })
	}
'''),('''	<-done
	if parseErr != nil {''','''	drainAndExit()
	if parseErr != nil {'''),('	"os"\n','	"os"\n	"sync"\n'))
# refactorings
ok('c17-ok-defer-unlock','C17',LI,('	mu.Lock()\n','	mu.Lock()\n	defer mu.Unlock()\n'),('(mf)\n	mu.Unlock()\n','(mf)\n'))
ok('c17-ok-detect-helper','C17',LI,('''	mu.Lock()
	kv, err := licensedb.Detect(mf)
	mu.Unlock()
''','''	kv, err := detectLocked(mf)
'''),('func detect(','''func detectLocked(mf *memoryfiler) (map[string]float32, error) {
	mu.Lock()
	defer mu.Unlock()
	return licensedb.Detect(mf)
}

func detect('''))
ok('c17-ok-detect-closure','C17',LI,('''	mu.Lock()
	kv, err := licensedb.Detect(mf)
	mu.Unlock()
''','''	var kv map[string]float32
	var err error
	withLock(func() { kv, err = licensedb.Detect(mf) })
'''),('func detect(','''func withLock(f func()) {
	mu.Lock()
	defer mu.Unlock()
	f()
}

func detect('''))
ok('c17-ok-lockfns','C17',LI,('	mu.Lock()\n','	acquire()\n'),('	mu.Unlock()\n','	release()\n'),('func detect(','''func acquire() { mu.Lock() }

func release() { mu.Unlock() }

func detect('''))
ok('c17-ok-rwmutex','C17',P,('	var lastErrMu sync.Mutex\n','	var lastErrMu sync.RWMutex\n'),(RD,RD.replace('.Lock()','.RLock()').replace('.Unlock()','.RUnlock()')))
ok('c17-ok-errfns','C17',P,(RD,'				err := getErr()\n'),(WR,'					setErr(err)\n'),('	for i := 0; i < s.opts.Concurrency; i++ {\n','''	getErr := func() error {
		lastErrMu.Lock()
		defer lastErrMu.Unlock()
		return lastErr
	}
	setErr := func(err error) {
		lastErrMu.Lock()
		lastErr = err
		lastErrMu.Unlock()
	}
	for i := 0; i < s.opts.Concurrency; i++ {
'''))
ok('c17-ok-errtype','C17',P,(RD,'				err := last.get()\n'),(WR,'					last.set(err)\n'),('	var lastErr error\n	var lastErrMu sync.Mutex\n','	var last firstErr\n'),
  ('	return lastErr\n','	return last.get()\n'),('func uniqueStrings(','''type firstErr struct {
	mu  sync.Mutex
	err error
}

func (s *firstErr) get() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err
}

func (s *firstErr) set(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.err = err
}

func uniqueStrings('''))
ok('c17-ok-final-locked','C17',P,('	return lastErr\n','	lastErrMu.Lock()\n	defer lastErrMu.Unlock()\n	return lastErr\n'))
ok('c17-ok-add-once','C17',P,('		wg.Add(1)\n',''),('	for i := 0; i < s.opts.Concurrency; i++ {\n','	wg.Add(s.opts.Concurrency)\n	for i := 0; i < s.opts.Concurrency; i++ {\n'))
ok('c17-ok-done-channel','C17',P,('	wg := sync.WaitGroup{}\n','	done := make(chan struct{})\n'),('		wg.Add(1)\n',''),('			defer wg.Done()\n','			defer func() { done <- struct{}{} }()\n'),('	wg.Wait()\n','	for i := 0; i < s.opts.Concurrency; i++ {\n		<-done\n	}\n'))
ok('c17-ok-worker-method','C17',P,('''		go func() {
			defer wg.Done()
			for nameAndHash := range workCh {
				lastErrMu.Lock()
				err := lastErr
				lastErrMu.Unlock()
				if err != nil {
					return
				}
				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil {
					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
				}
			}
		}()
''','''		go s.worker(ctx, &wg, workCh, res, &lastErr, &lastErrMu)
'''),('func uniqueStrings(','''func (s *Process) worker(ctx context.Context, wg *sync.WaitGroup, workCh chan nameAndHash, res chan Branch, lastErr *error, mu *sync.Mutex) {
	defer wg.Done()
	for item := range workCh {
		mu.Lock()
		err := *lastErr
		mu.Unlock()
		if err != nil {
			return
		}
		err = s.processBranch(ctx, item, res)
		if err != nil {
			mu.Lock()
			*lastErr = err
			mu.Unlock()
		}
	}
}

func uniqueStrings('''))
ok('c17-ok-workers-helper','C17',P,('''	wg := sync.WaitGroup{}
''',''),('''	for i := 0; i < s.opts.Concurrency; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for nameAndHash := range workCh {
				lastErrMu.Lock()
				err := lastErr
				lastErrMu.Unlock()
				if err != nil {
					return
				}
				err = s.processBranch(ctx, nameAndHash, res)
				if err != nil {
					lastErrMu.Lock()
					lastErr = err
					lastErrMu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
''','''	inParallel(s.opts.Concurrency, func() {
		for nameAndHash := range workCh {
			lastErrMu.Lock()
			err := lastErr
			lastErrMu.Unlock()
			if err != nil {
				return
			}
			err = s.processBranch(ctx, nameAndHash, res)
			if err != nil {
				lastErrMu.Lock()
				lastErr = err
				lastErrMu.Unlock()
			}
		}
	})
'''),('func uniqueStrings(','''func inParallel(n int, f func()) {
	wg := sync.WaitGroup{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func uniqueStrings('''))
ok('c17-ok-log-fprintf','C17',LO,('''		_, err := s.wr.Write([]byte(p))
		if err != nil {
			panic(err)
		}
		_, err = s.wr.Write([]byte("\\n"))
		if err''','''		_, err := fmt.Fprintln(s.wr, p)
		if err'''))
ok('c17-ok-log-format-first','C17',LO,('''		s.mu.Lock()
		defer s.mu.Unlock()
		p := fmt.Sprintf(format, args...)
''','''		p := fmt.Sprintf(format, args...)
		s.mu.Lock()
		defer s.mu.Unlock()
'''))
ok('c17-ok-log-method','C17',LO,('''	write := func(format string, args ...interface{}) {
		s.mu.Lock()
		defer s.mu.Unlock()
		p := fmt.Sprintf(format, args...)
		_, err := s.wr.Write([]byte(p))
		if err != nil {
			panic(err)
		}
		_, err = s.wr.Write([]byte("\\n"))
		if err != nil {
			panic(err)
		}
	}
''',''),('		write("ERROR','		s.write("ERROR'),('	write("%v','	s.write("%v'),('type kv struct','''func (s *DefaultLogger) write(format string, args ...interface{}) {
	line := fmt.Sprintf(format+"\\n", args...)
	s.mu.Lock()
	_, err := io.WriteString(s.wr, line)
	s.mu.Unlock()
	if err != nil {
		panic(err)
	}
}

type kv struct'''))
ok('c17-ok-log-whole-lock','C17',LO,('''	write := func(format string, args ...interface{}) {
		s.mu.Lock()
		defer s.mu.Unlock()
''','''	s.mu.Lock()
	defer s.mu.Unlock()
	write := func(format string, args ...interface{}) {
'''))
ok('c17-ok-close-done','C17',HP,('''		parseErr = p.Run(commits)
		done <- true
''','''		defer close(done)
		parseErr = p.Run(commits)
'''))
ok('c17-ok-errchan','C17',HP,('''	done := make(chan bool)

	var parseErr error
	go func() {
		parseErr = p.Run(commits)
		done <- true
	}()
''','''	done := make(chan error, 1)

	go func() {
		done <- p.Run(commits)
	}()
'''),('''	<-done
	if parseErr != nil {''','''	parseErr := <-done
	if parseErr != nil {'''))
ok('c17-ok-wg-slice','C17',CO,('''	done := make(chan bool)
	go func() {
		for r := range resChan {
			res = append(res, r)
		}
		done <- true
	}()
	err := s.Code(ctx, resChan)
	<-done
	return res, err
''','''	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for r := range resChan {
			res = append(res, r)
		}
	}()
	err := s.Code(ctx, resChan)
	wg.Wait()
	return res, err
'''),('	"fmt"\n','	"fmt"\n	"sync"\n'))
ok('c17-ok-swap-sides','C17',CO,('''	done := make(chan bool)
	go func() {
		for r := range resChan {
			res = append(res, r)
		}
		done <- true
	}()
	err := s.Code(ctx, resChan)
	<-done
	return res, err
''','''	var err error
	done := make(chan bool)
	go func() {
		err = s.Code(ctx, resChan)
		done <- true
	}()
	for r := range resChan {
		res = append(res, r)
	}
	<-done
	return res, err
'''))
ok('c17-ok-collector-helper','C17',CO,('''	done := make(chan bool)
	go func() {
		for r := range resChan {
			res = append(res, r)
		}
		done <- true
	}()
	err := s.Code(ctx, resChan)
	<-done
	return res, err
''','''	wait := collect(resChan, &res)
	err := s.Code(ctx, resChan)
	wait()
	return res, err
'''),('func (s *Ripsrc) CodeSlice(','''func collect(ch chan BlameResult, to *[]BlameResult) func() {
	done := make(chan bool)
	go func() {
		for r := range ch {
			*to = append(*to, r)
		}
		done <- true
	}()
	return func() { <-done }
}

func (s *Ripsrc) CodeSlice('''))
ok('c17-ok-result-chan','C17',BR,('''	done := make(chan bool)
	go func() {
		for r := range resChan {
			res = append(res, r)
		}
		done <- true
	}()
	err := s.Branches(ctx, resChan)
	<-done
	return res, err
''','''	all := make(chan []Branch)
	go func() {
		var list []Branch
		for r := range resChan {
			list = append(list, r)
		}
		all <- list
	}()
	err := s.Branches(ctx, resChan)
	return <-all, err
'''))
ok('c17-ok-deferred-join','C17',HP,('''	drainAndExit := func() {
		for range commits {
		}
		<-done
	}
''','''	joined := false
	drainAndExit := func() {
		for range commits {
		}
		if !joined {
			joined = true
			<-done
		}
	}
'''),('''	<-done
	if parseErr != nil {''','''	drainAndExit()
	if parseErr != nil {'''))
ok('c17-ok-reach-local','C17',BC,('''		reachableFromHead = map[string]bool{}
		done := map''','''		local := map[string]bool{}
		done := map'''),('			reachableFromHead[hash] = true\n','			local[hash] = true\n'),('''		rec(defaultHead)
	}

	commitsDone''','''		rec(defaultHead)
		reachableFromHead = local
	}

	commitsDone'''))
ok('c17-ok-reach-helper','C17',BC,('''		reachableFromHead = map[string]bool{}
		done := map[string]bool{}
		var rec func(string)
		rec = func(hash string) {
			if done[hash] {
				return
			}
			done[hash] = true

			reachableFromHead[hash] = true
			if hash == branchHead {
				// remove merge commit to branch head
				return
			}
			par, ok := gr.Parents[hash]
			if !ok {
				panic("commit not found in tree")
			}
			for _, p := range par {
				rec(p)
			}
		}
		rec(defaultHead)
''','''		reachableFromHead = reachableUpTo(gr, defaultHead, branchHead)
'''),('func toSet(','''func reachableUpTo(gr *parentsgraph.Graph, from, stop string) reachableFromHead {
	res := reachableFromHead{}
	todo := []string{from}
	for len(todo) > 0 {
		hash := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if res[hash] {
			continue
		}
		res[hash] = true
		if hash == stop {
			continue
		}
		par, ok := gr.Parents[hash]
		if !ok {
			panic("commit not found in tree")
		}
		todo = append(todo, par...)
	}
	return res
}

func toSet('''))
ok('c17-ok-locked-count','C17',P,('''	res.FirstCommit = res.Commits[0]
''','''	res.FirstCommit = res.Commits[0]
	s.mu.Lock()
	s.done++
	s.mu.Unlock()
'''),('	reachableFromHead reachableFromHead\n}','	reachableFromHead reachableFromHead\n\n	mu   sync.Mutex\n	done int\n}'))
ok('c17-ok-locked-cache','C17',BB,('''	rfb := new''','''	behindMu.Lock()
	n, ok := behindCache[branchHead+defaultHead]
	behindMu.Unlock()
	if ok {
		return n
	}
	defer func() {
		behindMu.Lock()
		defer behindMu.Unlock()
		behindCache[branchHead+defaultHead] = res
	}()
	rfb := new'''),('func behindBranch(','var behindMu sync.Mutex\nvar behindCache = map[string]int{}\n\nfunc behindBranch('),('import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"','import (\n	"sync"\n\n	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"\n)'))
ok('c17-ok-atomic','C17',P,('''	res.FirstCommit = res.Commits[0]
''','''	res.FirstCommit = res.Commits[0]
	atomic.AddInt64(&s.done, 1)
'''),('	reachableFromHead reachableFromHead\n}','	reachableFromHead reachableFromHead\n\n	done int64\n}'),('	"sync"\n','	"sync"\n	"sync/atomic"\n'))
ok('c17-ok-once','C17',LI,('var mu sync.Mutex\n','var mu = &sync.Mutex{}\n'))
ok('c17-ok-chan-prefilled','C17',NH,('''	res := make(chan nameAndHash)
	go func() {
		for _, v := range s {
			res <- v
		}
		close(res)
	}()
	return res
''','''	res := make(chan nameAndHash, len(s))
	for _, v := range s {
		res <- v
	}
	close(res)
	return res
'''))
ok('c17-ok-worker-args','C17',P,('		go func() {\n			defer wg.Done()\n','		go func(work <-chan nameAndHash, out chan Branch) {\n			defer wg.Done()\n'),('range workCh {','range work {'),('nameAndHash, res)\n				if','nameAndHash, out)\n				if'),('''			}
		}()
	}
	wg.Wait()''','''			}
		}(workCh, res)
	}
	wg.Wait()'''))
ok('c17-ok-sem','C17',P,('	var lastErrMu sync.Mutex\n','	lastErrMu := new(sync.Mutex)\n'))
ok('c17-ok-each-index','C17',P,(RD,''),('				if err != nil {\n					return\n				}\n				err = s.processBranch(ctx, nameAndHash, res)\n','				err := s.processBranch(ctx, nameAndHash, res)\n'),
  (WR,'					errs[i] = err\n					return\n'),('	var lastErr error\n	var lastErrMu sync.Mutex\n','	errs := make([]error, s.opts.Concurrency)\n'),('		go func() {\n			defer wg','		go func(i int) {\n			defer wg'),('''		}()
	}
	wg.Wait()
	return lastErr
''','''		}(i)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''))
bug('c17-each-index-captured','C17',P,(RD,''),('				if err != nil {\n					return\n				}\n				err = s.processBranch(ctx, nameAndHash, res)\n','				err := s.processBranch(ctx, nameAndHash, res)\n'),
  (WR,'					errs[i] = err\n					return\n'),('	var lastErr error\n	var lastErrMu sync.Mutex\n','	errs := make([]error, s.opts.Concurrency)\n'),('''	wg.Wait()
	return lastErr
''','''	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''))
bug('c17-each-index-early','C17',P,(RD,''),('				if err != nil {\n					return\n				}\n				err = s.processBranch(ctx, nameAndHash, res)\n','				err := s.processBranch(ctx, nameAndHash, res)\n'),
  (WR,'					errs[i] = err\n					return\n'),('	var lastErr error\n	var lastErrMu sync.Mutex\n','	errs := make([]error, s.opts.Concurrency)\n'),('		go func() {\n			defer wg','		go func(i int) {\n			defer wg'),('''		}()
	}
	wg.Wait()
	return lastErr
''','''		}(i)
		if i > 0 && errs[i-1] != nil {
			break
		}
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
'''))
