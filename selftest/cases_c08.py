GE='ripsrc/gitexec/gitexec.go'; PR='ripsrc/history3/process/process.go'; CO='ripsrc/code.go'; BR='ripsrc/branches.go'; RS='ripsrc/ripsrc.go'; CMF='ripsrc/commitmeta/commitmeta.go'; PGR='ripsrc/parentsgraph/parents.go'; B2='ripsrc/branches2/process.go'; NH='ripsrc/branches2/name_hash.go'; WR='ripsrc/history3/process/repo/writer.go'; RD='ripsrc/history3/process/repo/reader.go'; MS='ripsrc/history3/process/repo/msgp.go'; HPP='ripsrc/history3/process/parser/parser.go'
bug('c08-piped1','C08',GE,('		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)\n		if err != nil {\n			panic(err)\n		}\n		err = wr.Close()','		defer wr.Close()\n		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)\n		if err != nil {\n			return\n		}\n		err = wr.Close()'))
bug('c08-piped2','C08',GE,('		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)\n		if err != nil {\n			panic(err)\n		}\n		err = wr.Close()','		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)\n		if err != nil {\n			fmt.Fprintln(os.Stderr, err)\n		}\n		err = wr.Close()'))
bug('c08-run','C08',GE,('	if err := c.Run(); err != nil {\n		return fmt','	if err := c.Run(); err != nil && ctx.Err() == nil {\n		return fmt'))
bug('c08-runexit','C08',GE,('	if err := c.Run(); err != nil {\n','	if err := c.Run(); err != nil {\n		if _, ok := err.(*exec.ExitError); ok {\n			return nil\n		}\n'))
bug('c08-start','C08',GE,('	if err := c.Run(); err != nil {','	if err := c.Start(); err != nil {'))
bug('c08-gwclose','C08',GE,('	err = gw.Close()\n	if err != nil {\n		return err\n	}\n','	gw.Close()\n'))
bug('c08-cachepart','C08',GE,('	if err != nil {\n		return nil, fmt.Errorf("can\'t write git','	if err != nil && !os.IsExist(err) {\n		return nil, fmt.Errorf("can\'t write git'))
bug('c08-graph','C08',PGR,('	err := s.retrieveParents()\n	if err != nil {\n		return err\n	}\n','	err := s.retrieveParents()\n	if err != nil {\n		s.opts.Logger.Info("could not read", "err", err)\n	}\n'))
bug('c08-keep','C08',RS,('	err := graph.Read()\n	if err != nil {\n		return err\n	}\n\n	s.commitGraph = graph\n	return nil','	s.commitGraph = graph\n	return graph.Read()'))
bug('c08-codeerr','C08',CO,('	<-done\n	if err != nil {\n		return err\n	}\n\n	return nil\n}\n\ntype CommitCode','	<-done\n	if err != nil {\n		return nil\n	}\n\n	return nil\n}\n\ntype CommitCode'))
bug('c08-infopanic','C08',CO,('			if err != nil {\n				panic(err)\n			}\n			res <- rc','			if err != nil {\n				s.opts.Logger.Info("failed", "err", err)\n			}\n			res <- rc'))
bug('c08-shadow','C08',CO,('	err = gitProcessor.Run(gitRes)\n	<-done\n','	if err := gitProcessor.Run(gitRes); err != nil {\n		s.opts.Logger.Info("failed", "err", err)\n	}\n	<-done\n'))
bug('c08-brerr','C08',BR,('	err = pr.Run(ctx, res2)\n	<-done\n	return err','	err = pr.Run(ctx, res2)\n	<-done\n	return ctx.Err()'))
bug('c08-map','C08',CMF,('	err := s.Run(resChan)\n	<-done\n	return res, err\n}\n\nconst mb','	err := s.Run(resChan)\n	<-done\n	if len(res) > 0 {\n		return res, nil\n	}\n	return res, err\n}\n\nconst mb'))
bug('c08-date','C08',CMF,('				if err != nil {\n					return false, fmt.Errorf("error parsing commit','				if err != nil && t.IsZero() {\n					return false, fmt.Errorf("error parsing commit'))
bug('c08-lasterr','C08',B2,('	wg.Wait()\n	return lastErr','	wg.Wait()\n	return nil'))
bug('c08-lasterr2','C08',B2,('				if err != nil {\n					lastErrMu.Lock()\n					lastErr = err','				if err != nil && ctx.Err() != nil {\n					lastErrMu.Lock()\n					lastErr = err'))
bug('c08-names','C08',NH,('	if err != nil {\n		return res, err\n	}\n	for','	if err != nil {\n		opts.Logger.Info("no branches", "err", err)\n	}\n	for'))
bug('c08-exec','C08',NH,('	if err != nil {\n		return nil, err\n	}\n	return out','	if err != nil && out.Len() == 0 {\n		return nil, err\n	}\n	return out'))
bug('c08-parseerr','C08',PR,('	if parseErr != nil {\n		return parseErr\n	}\n','	if parseErr != nil && i == 0 {\n		return parseErr\n	}\n'))
bug('c08-ckpt','C08',PR,('	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)\n	if err != nil {\n		return err\n	}\n','	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)\n	if err != nil {\n		s.opts.Logger.Info("checkpoint not saved", "err", err)\n	}\n'))
bug('c08-ckptgo','C08',PR,('	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)\n	if err != nil {\n		return err\n	}\n','	go func() {\n		err := writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)\n		if err != nil {\n			s.opts.Logger.Info("checkpoint not saved", "err", err)\n		}\n	}()\n'))
bug('c08-drain','C08',PR,('			err := s.initCheckpoints()\n			if err != nil {\n				drainAndExit()\n				return err\n			}','			err := s.initCheckpoints()\n			if err != nil {\n				drainAndExit()\n				return parseErr\n			}'))
bug('c08-merge','C08',PR,('	if err != nil {\n		panic(err)\n	}\n	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)','	if err != nil {\n		s.mergeParts = nil\n		return\n	}\n	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)'))
bug('c08-finish','C08',WR,('	err = linesWr.Finish()\n	if err != nil {\n		return err\n	}\n',''))
bug('c08-finish2','C08',WR,('	err = linesWr.Finish()\n	if err != nil {\n		return err\n	}\n','	linesWr.Finish()\n'))
bug('c08-rowerr','C08',WR,('		err := repoWr.Write(r)\n		if err != nil {\n			panic(err)\n		}\n','		repoWr.Write(r)\n'))
bug('c08-blerr','C08',WR,('			err := blamesWr.Write(bl)\n			if err != nil {\n				return err\n			}\n','			if err := blamesWr.Write(bl); err != nil {\n				continue\n			}\n'))
bug('c08-noflush','C08',MS,('	err := s.wr.Flush()\n	if err != nil {\n		return err\n	}\n	err = s.gw','	err := s.gw'))
bug('c08-rdbreak','C08',RD,('			err := linesR.Read(obj)\n			if err != nil {\n				if msgIsEOF(err) {\n					break\n				}\n				return nil, err\n			}','			err := linesR.Read(obj)\n			if err != nil {\n				break\n			}'))
bug('c08-rdeof','C08',RD,('	if err.Error() == "unexpected EOF" {','	if strings.HasSuffix(err.Error(), "EOF") || len(err.Error()) > 0 {'),('	"path/filepath"\n','	"path/filepath"\n	"strings"\n'))
bug('c08-recover','C08',PR,('	defer func() {\n		close(resChan)\n	}()\n','	defer func() {\n		if r := recover(); r != nil {\n			s.opts.Logger.Info("failed", "err", r)\n		}\n		close(resChan)\n	}()\n'))
bug('c08-recover2','C08',CO,('	go func() {\n		for r1 := range gitRes {\n','	go func() {\n		defer func() {\n			if recover() != nil {\n				done <- true\n			}\n		}()\n		for r1 := range gitRes {\n'))
bug('c08-scan','C08',HPP,('	if err := scanner.Err(); err != nil {\n		return err\n	}\n','	if err := scanner.Err(); err != nil && s.state == stNotStarted {\n		return err\n	}\n'))
bug('c08-ctxnil','C08',GE,('	err := ExecIntoWriter(ctx, buf, gitCommand, repoDir, args)\n	if err != nil {\n		return nil, err\n	}\n','	if err := ExecIntoWriter(ctx, buf, gitCommand, repoDir, args); err != nil && buf.Len() == 0 {\n		return nil, err\n	}\n'))
ok('c08-errch','C08',CO,('	res2 := make(chan CommitCode)\n	done := make(chan bool)\n\n	go func() {\n		for r := range res2 {\n			for f := range r.Blames {\n				res <- f\n			}\n		}\n		done <- true\n	}()\n\n	err := s.CodeByCommit(ctx, res2)\n	<-done\n','	res2 := make(chan CommitCode)\n	errc := make(chan error, 1)\n\n	go func() {\n		errc <- s.CodeByCommit(ctx, res2)\n	}()\n	for r := range res2 {\n		for f := range r.Blames {\n			res <- f\n		}\n	}\n\n	err := <-errc\n'))
ok('c08-cwe','C08',GE,('		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)\n		if err != nil {\n			panic(err)\n		}\n		err = wr.Close()\n		if err != nil {\n			panic(err)\n		}\n','		wr.CloseWithError(ExecIntoWriter(ctx, wr, gitCommand, repoDir, args))\n'))
ok('c08-named','C08',PGR,('func (s *Graph) retrieveParents() error {\n	r, err := s.gitLogParents()\n	if err != nil {\n		return err\n	}\n	defer r.Close()\n\n	pp := parentsp.New(r)\n	res, err := pp.Run()\n	if err != nil {\n		return err\n	}\n\n	s.Parents = res\n	return nil\n','func (s *Graph) retrieveParents() (err error) {\n	r, err := s.gitLogParents()\n	if err != nil {\n		return\n	}\n	defer func() {\n		if cerr := r.Close(); err == nil {\n			err = cerr\n		}\n	}()\n\n	s.Parents, err = parentsp.New(r).Run()\n	return\n'))
ok('c08-fin','C08',WR,('	err = repoWr.Finish()\n	if err != nil {\n		return err\n	}\n	err = blamesWr.Finish()\n	if err != nil {\n		return err\n	}\n	err = linesWr.Finish()\n	if err != nil {\n		return err\n	}\n	err = lineDataWr.Finish()\n	if err != nil {\n		return err\n	}\n','	for _, w := range []*msgWriter{repoWr, blamesWr, linesWr, lineDataWr} {\n		if err := w.Finish(); err != nil {\n			return err\n		}\n	}\n'))
ok('c08-startwait','C08',GE,('	if err := c.Run(); err != nil {\n		return fmt.Errorf("failed executing git command %v", err)\n	}\n	return nil','	if err := c.Start(); err != nil {\n		return fmt.Errorf("failed starting git command %v", err)\n	}\n	err := c.Wait()\n	if err != nil {\n		return fmt.Errorf("failed executing git command %v", err)\n	}\n	return err'))
ok('c08-chk','C08',GE,('		if err != nil {\n			panic(err)\n		}\n		err = wr.Close()\n		if err != nil {\n			panic(err)\n		}\n','		must(err)\n		must(wr.Close())\n'),('func hashString','func must(err error) {\n	if err != nil {\n		panic(err)\n	}\n}\n\nfunc hashString'))
ok('c08-readall','C08',RD,('	lineData := map[uint64][]byte{}\n	{\n		for {\n			obj := &disk.LineData{}\n			err := lineDataR.Read(obj)\n			if err != nil {\n				if msgIsEOF(err) {\n					break\n				}\n				return nil, err\n			}\n			lineData[obj.Pointer] = obj.Data\n		}\n	}\n','	lineData, err := readLineData(lineDataR)\n	if err != nil {\n		return nil, err\n	}\n'),('func msgIsEOF','func readLineData(r *msgReader) (map[uint64][]byte, error) {\n	res := map[uint64][]byte{}\n	for {\n		obj := &disk.LineData{}\n		err := r.Read(obj)\n		if err != nil && msgIsEOF(err) {\n			return res, nil\n		}\n		if err != nil {\n			return nil, fmt.Errorf("line data: %v", err)\n		}\n		res[obj.Pointer] = obj.Data\n	}\n}\n\nfunc msgIsEOF'))
ok('c08-eg','C08',B2,('	var lastErr error\n	var lastErrMu sync.Mutex\n','	errs := make(chan error, s.opts.Concurrency)\n'),('			for nameAndHash := range workCh {\n				lastErrMu.Lock()\n				err := lastErr\n				lastErrMu.Unlock()\n				if err != nil {\n					return\n				}\n				err = s.processBranch(ctx, nameAndHash, res)\n				if err != nil {\n					lastErrMu.Lock()\n					lastErr = err\n					lastErrMu.Unlock()\n				}\n			}\n','			var werr error\n			for nameAndHash := range workCh {\n				if werr != nil {\n					continue\n				}\n				werr = s.processBranch(ctx, nameAndHash, res)\n			}\n			errs <- werr\n'),('	wg.Wait()\n	return lastErr','	wg.Wait()\n	close(errs)\n	for err := range errs {\n		if err != nil {\n			return err\n		}\n	}\n	return nil'))
ok('c08-msg','C08',MS,('	err = s.f.Close()\n	if err != nil {\n		return err\n	}\n	return os.Rename','	if err := s.f.Close(); err != nil {\n		return err\n	}\n	return os.Rename'))
ok('c08-initerr','C08',PR,('			err := s.initCheckpoints()\n			if err != nil {\n				drainAndExit()\n				return err\n			}\n		}\n		i++\n		commit.Parents = s.graph.Parents[commit.Hash]\n		err := s.processCommit(resChan, commit)\n','			err = s.initCheckpoints()\n		}\n		i++\n		commit.Parents = s.graph.Parents[commit.Hash]\n		if err == nil {\n			err = s.processCommit(resChan, commit)\n		}\n'))
