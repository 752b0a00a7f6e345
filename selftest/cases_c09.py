GE='ripsrc/gitexec/gitexec.go'; PR='ripsrc/history3/process/process.go'; CO='ripsrc/code.go'; BR='ripsrc/branches.go'; CMF='ripsrc/commitmeta/commitmeta.go'; B2='ripsrc/branches2/process.go'; NH='ripsrc/branches2/name_hash.go'; HPP='ripsrc/history3/process/parser/parser.go'
# C09: channels closed exactly once, nothing sent after
bug('c09-noclose','C09',BR,('	defer close(res)\n	if !s.opts.AllBranches {\n','	if !s.opts.AllBranches {\n'),('	err = pr.Run(ctx, res2)\n	<-done\n	return err','	err = pr.Run(ctx, res2)\n	<-done\n	close(res)\n	return err'))
bug('c09-double','C09',CO,('	err := s.CodeByCommit(ctx, res2)\n	<-done\n	if err != nil {\n		return err\n	}','	err := s.CodeByCommit(ctx, res2)\n	<-done\n	if err != nil {\n		close(res)\n		return err\n	}'))
bug('c09-nojoin','C09',CO,('	err := s.CodeByCommit(ctx, res2)\n	<-done\n	if err != nil {\n		return err\n	}\n','	err := s.CodeByCommit(ctx, res2)\n	if err != nil {\n		return err\n	}\n	<-done\n'))
bug('c09-early','C09',HPP,('	defer close(res)\n\n	s.res = res','	s.res = res'),('	// handle empty log output\n	if s.state != stNotStarted {\n		s.endCommit()\n	}\n	return nil','	// handle empty log output\n	if s.state != stNotStarted {\n		s.endCommit()\n	}\n	close(res)\n	return nil'))
bug('c09-blames','C09',CO,('				rc.Blames <- r\n			}\n			close(rc.Blames)','				rc.Blames <- r\n			}\n			if len(rs) > 0 {\n				close(rc.Blames)\n			}'))
bug('c09-wgearly','C09',B2,('	wg.Wait()\n	return lastErr','	if s.opts.Concurrency > 1 {\n		wg.Wait()\n	}\n	return lastErr'))
bug('c09-wgadd','C09',B2,('		wg.Add(1)\n		go func() {\n			defer wg.Done()\n','		go func() {\n			wg.Add(1)\n			defer wg.Done()\n'))
bug('c09-runerr','C09',CMF,('	defer close(res)\n	r, err := s.gitLog()\n	if err != nil {\n		return err\n	}\n	defer r.Close()','	r, err := s.gitLog()\n	if err != nil {\n		return err\n	}\n	defer close(res)\n	defer r.Close()'))
bug('c09-asyncfwd','C09',CO,('				rc.Blames <- r\n			}\n			close(rc.Blames)','				rc.Blames <- r\n			}\n			go close(rc.Blames)\n			if len(rs) == 0 {\n				close(rc.Blames)\n			}'))
ok('c09-deferfn','C09',CO,('func (s *Ripsrc) Code(ctx context.Context, res chan BlameResult) error {\n	defer close(res)\n','func (s *Ripsrc) Code(ctx context.Context, res chan BlameResult) error {\n	defer func() {\n		close(res)\n	}()\n'))
ok('c09-wg','C09',CO,('	done := make(chan bool)\n\n	go func() {\n		for r := range res2 {\n			for f := range r.Blames {\n				res <- f\n			}\n		}\n		done <- true\n	}()\n\n	err := s.CodeByCommit(ctx, res2)\n	<-done\n','	var wg sync.WaitGroup\n	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		for r := range res2 {\n			for f := range r.Blames {\n				res <- f\n			}\n		}\n	}()\n\n	err := s.CodeByCommit(ctx, res2)\n	wg.Wait()\n'),('import (\n','import (\n	"sync"\n'))
ok('c09-closedone','C09',CO,('				res <- f\n			}\n		}\n		done <- true\n	}()','				res <- f\n			}\n		}\n		close(done)\n	}()'))
ok('c09-helper','C09',B2,('		go func() {\n			defer wg.Done()\n			for nameAndHash := range workCh {','		go s.worker(ctx, &wg, &lastErrMu, &lastErr, workCh, res)\n	}\n	wg.Wait()\n	return lastErr\n}\n\nfunc (s *Process) worker(ctx context.Context, wg *sync.WaitGroup, lastErrMu *sync.Mutex, lastErr *error, workCh chan nameAndHash, res chan Branch) {\n	{\n		{\n			defer wg.Done()\n			for nameAndHash := range workCh {'),('				err := lastErr\n','				err := *lastErr\n'),('					lastErr = err\n','					*lastErr = err\n'),('				}\n			}\n		}()\n	}\n	wg.Wait()\n	return lastErr\n}','				}\n			}\n		}\n	}\n}'))
# C10: nothing stays blocked
bug('c10-nodrain','C10',PR,('			if err != nil {\n				drainAndExit()\n				return err\n			}\n		}\n		i++','			if err != nil {\n				return err\n			}\n		}\n		i++'))
bug('c10-drainonly','C10',PR,('		for range commits {\n		}\n		<-done\n','		for range commits {\n		}\n'))
bug('c10-nodrain2','C10',PR,('		for range commits {\n		}\n		<-done\n','		<-done\n'))
bug('c10-parseerr','C10',PR,('		parseErr = p.Run(commits)\n		done <- true','		parseErr = p.Run(commits)\n		if parseErr == nil {\n			done <- true\n		}'))
bug('c10-donelate','C10',CO,('	err := s.CodeByCommit(ctx, res2)\n	<-done\n	if err != nil {\n		return err\n	}\n','	err := s.CodeByCommit(ctx, res2)\n	if err != nil {\n		return err\n	}\n	<-done\n'))
bug('c10-dup','C10',BR,('	err = pr.Run(ctx, res2)\n	<-done\n','	<-done\n	err = pr.Run(ctx, res2)\n'))
bug('c10-start','C10',BR,('	res2 := make(chan Branch)\n	done := make(chan bool)\n	go func() {\n		for r := range res2 {\n			res <- r\n		}\n		done <- true\n	}()\n','	res2 := make(chan Branch)\n	done := make(chan bool)\n	go func() {\n		for r := range res2 {\n			res <- r\n		}\n		done <- true\n	}()\n	if s.opts.RepoDir == "" {\n		return errors.New("no repo")\n	}\n'))
bug('c10-wgdone','C10',B2,('			defer wg.Done()\n			for','			for'),('					lastErrMu.Unlock()\n				}\n			}\n','					lastErrMu.Unlock()\n				}\n			}\n			if s.opts.UseOrigin {\n				wg.Done()\n			}\n'))
bug('c10-lock','C10',B2,('				if err != nil {\n					return\n				}\n				err = s','				if s.opts.UseOrigin {\n					lastErrMu.Lock()\n				}\n				err = s'))
bug('c10-noblames','C10',CO,('			res <- rc\n			for _, r := range rs {\n				rc.Blames <- r\n			}\n			close(rc.Blames)','			for _, r := range rs {\n				rc.Blames <- r\n			}\n			close(rc.Blames)\n			res <- rc'))
bug('c10-namesclose','C10',NH,('			res <- v\n		}\n		close(res)\n','			res <- v\n		}\n		if len(s) > 0 {\n			close(res)\n		}\n'))
bug('c10-workererr','C10',B2,('				err = s.processBranch(ctx, nameAndHash, res)\n				if err != nil {','				err = s.processBranch(ctx, nameAndHash, res)\n				if err == nil {\n					err = ctx.Err()\n				}\n				if err != nil {'))
bug('c10-unread','C10',CMF,('	defer r.Close()\n\n	var parser parser','	var parser parser'))
bug('c10-unread2','C10','ripsrc/parentsgraph/parents.go',('	defer r.Close()\n',''))
bug('c10-unread3','C10',PR,('	defer r.Close()\n\n	commits','	commits'))
ok('c10-errch','C10',PR,('	done := make(chan bool)\n\n	var parseErr error\n	go func() {\n		parseErr = p.Run(commits)\n		done <- true\n	}()\n\n	drainAndExit := func() {\n		for range commits {\n		}\n		<-done\n	}\n','	parsed := make(chan error, 1)\n	go func() {\n		parsed <- p.Run(commits)\n	}()\n\n	drainAndExit := func() {\n		for range commits {\n		}\n		<-parsed\n	}\n'),('	<-done\n	if parseErr','	parseErr := <-parsed\n	if parseErr'))
ok('c10-bufdone','C10',CO,('	done := make(chan bool)\n\n	go func() {\n		for r := range res2','	done := make(chan bool, 1)\n\n	go func() {\n		for r := range res2'))
ok('c10-deferdrain','C10',PR,('	i := 0\n	for commit := range commits {','	joined := false\n	defer func() {\n		if !joined {\n			drainAndExit()\n		}\n	}()\n	i := 0\n	for commit := range commits {'),('			if err != nil {\n				drainAndExit()\n				return err\n			}\n		}\n		i++','			if err != nil {\n				return err\n			}\n		}\n		i++'),('		if err != nil {\n			drainAndExit()\n			return err\n		}\n	}\n','		if err != nil {\n			return err\n		}\n	}\n'),('	<-done\n	if parseErr','	<-done\n	joined = true\n	if parseErr'))
ok('c10-closeexpl','C10','ripsrc/parentsgraph/parents.go',('	defer r.Close()\n','	defer func() {\n		_ = r.Close()\n	}()\n'))
