W='ripsrc/history3/process/repo/writer.go'; RD='ripsrc/history3/process/repo/reader.go'; P='ripsrc/history3/process/process.go'
bug('c13-nocmp','C13',RD,('if checkpointCommit != expectedCommit {','if checkpointCommit == "" {'))
bug('c13-prefix','C13',RD,('if checkpointCommit != expectedCommit {','if !strings.HasPrefix(checkpointCommit, expectedCommit) {'),('	"path/filepath"\n','	"path/filepath"\n	"strings"\n'))
bug('c13-missing','C13',RD,('		if err != nil {\n			return nil, fmt.Errorf("failed reading checkpoint version file','		if os.IsNotExist(err) {\n			b = []byte(expectedCommit)\n			err = nil\n		}\n		if err != nil {\n			return nil, fmt.Errorf("failed reading checkpoint version file'),('	"path/filepath"\n','	"os"\n	"path/filepath"\n'))
bug('c13-warn','C13',RD,('			return nil, ErrCheckpointNotExpected{CheckpointDir: dir, WantCommit: expectedCommit, HaveCommit: checkpointCommit}','			s.logger.Info("unexpected", "err", ErrCheckpointNotExpected{CheckpointDir: dir, WantCommit: expectedCommit, HaveCommit: checkpointCommit})'))
bug('c13-label','C13',W,('[]byte(lastCommit)','[]byte(lastCommit[:12])'))
bug('c13-labelnl','C13',W,('[]byte(lastCommit)','[]byte(lastCommit+"\\n")'))
bug('c13-markername','C13',W,('filepath.Join(tmpDir, checkpointVersionFile)','filepath.Join(tmpDir, "version")'))
bug('c13-nolabel-merge','C13',P,('	s.lastProcessedCommitHash = commitHash\n',''))
bug('c13-label-parent','C13',P,('	s.lastProcessedCommitHash = commit.Hash\n','	if len(commit.Parents) > 0 {\n		s.lastProcessedCommitHash = commit.Parents[0]\n	} else {\n		s.lastProcessedCommitHash = commit.Hash\n	}\n'))
bug('c13-label-cond','C13',P,('	s.lastProcessedCommitHash = commit.Hash\n','	if len(commit.Changes) > 0 {\n		s.lastProcessedCommitHash = commit.Hash\n	}\n'))
bug('c13-writeonerr','C13',P,('	<-done\n	if parseErr != nil {\n		return parseErr\n	}\n\n	if len(s.mergeParts) > 0 {\n		s.processGotMergeParts(resChan)\n	}\n','	<-done\n	if len(s.mergeParts) > 0 {\n		s.processGotMergeParts(resChan)\n	}\n	if parseErr != nil && i == 0 {\n		return parseErr\n	}\n'),('	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)','	if parseErr != nil {\n		return parseErr\n	}\n	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)'))
bug('c13-beforeflush','C13',P,('	if len(s.mergeParts) > 0 {\n		s.processGotMergeParts(resChan)\n	}\n\n	if i == 0','	last := s.lastProcessedCommitHash\n	if len(s.mergeParts) > 0 {\n		s.processGotMergeParts(resChan)\n	}\n\n	if i == 0'),('s.checkpointsDir, s.lastProcessedCommitHash)','s.checkpointsDir, last)'))
bug('c13-fallback','C13',P,('		if err != nil {\n			return fmt.Errorf("Could not read checkpoint: %v", err)\n		}\n','		if err != nil {\n			s.opts.Logger.Info("could not read checkpoint", "err", err)\n			r = repo.New()\n		}\n'))
bug('c13-fullread','C13',P,('if s.opts.CommitFromIncl == "" {\n		s.repo','if s.opts.CommitFromIncl == "" && s.opts.NoStrictResume {\n		s.repo'))
bug('c13-periodic','C13',P,('		i++\n','		i++\n		if i%100000 == 0 && s.lastProcessedCommitHash != "" {\n			if err := repo.NewCheckpointWriter(s.opts.Logger).Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash); err != nil {\n				drainAndExit()\n				return err\n			}\n		}\n'))
bug('c13-defer','C13',P,('	r, err := s.gitLogPatches()\n	if err != nil {\n		return err\n	}\n\n	defer r.Close()\n','	r, err := s.gitLogPatches()\n	if err != nil {\n		return err\n	}\n\n	defer r.Close()\n	defer func() {\n		if s.lastProcessedCommitHash != "" {\n			repo.NewCheckpointWriter(s.opts.Logger).Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)\n		}\n	}()\n'))
bug('c13-wrongdir','C13',P,('writer.Write(s.repo, s.checkpointsDir, ','writer.Write(s.repo, s.opts.RepoDir, '))
bug('c13-nonstrict','C13',P,('if s.opts.NoStrictResume {','if s.opts.NoStrictResume || s.opts.CommitFromMakeNonIncl {'))
ok('c13-trim','C13',RD,('checkpointCommit := string(b)','checkpointCommit := strings.TrimSpace(string(b))'),('	"path/filepath"\n','	"path/filepath"\n	"strings"\n'))
ok('c13-helper','C13',RD,('	if expectedCommit != "" {\n		// no expected commit validation requested\n		b, err := ioutil.ReadFile(filepath.Join(dir, checkpointVersionFile))\n		if err != nil {\n			return nil, fmt.Errorf("failed reading checkpoint version file, err: %v", err)\n		}\n		checkpointCommit := string(b)\n		if checkpointCommit != expectedCommit {\n			return nil, ErrCheckpointNotExpected{CheckpointDir: dir, WantCommit: expectedCommit, HaveCommit: checkpointCommit}\n		}\n	}\n','	if err := checkVersion(dir, expectedCommit); err != nil {\n		return nil, err\n	}\n'),('func msgIsEOF(','''func checkVersion(dir, want string) error {
	if want == "" {
		return nil
	}
	b, err := ioutil.ReadFile(filepath.Join(dir, checkpointVersionFile))
	if err != nil {
		return fmt.Errorf("failed reading checkpoint version file, err: %v", err)
	}
	if have := string(b); have != want {
		return ErrCheckpointNotExpected{CheckpointDir: dir, WantCommit: want, HaveCommit: have}
	}
	return nil
}

func msgIsEOF('''))
ok('c13-save','C13',P,('	writer := repo.NewCheckpointWriter(s.opts.Logger)\n	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)\n	if err != nil {\n		return err\n	}\n\n	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)\n	//fmt.Println("repo len", len(s.repo))\n	return nil\n}','	return s.save()\n}\n\nfunc (s *Process) save() error {\n	return repo.NewCheckpointWriter(s.opts.Logger).Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)\n}'))
ok('c13-labelrun','C13',P,('	s.lastProcessedCommitHash = commitHash\n',''),('	s.lastProcessedCommitHash = commit.Hash\n',''),('	s.trimGraphAfterCommitProcessed(commit.Hash)\n','	s.lastProcessedCommitHash = commit.Hash\n	s.trimGraphAfterCommitProcessed(commit.Hash)\n'),('	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)\n','	s.lastProcessedCommitHash = s.mergePartsCommit\n	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)\n'))
ok('c13-labellater','C13',P,('	s.lastProcessedCommitHash = commitHash\n',''),('	s.lastProcessedCommitHash = commit.Hash\n',''),('	resChan <- res\n	return nil\n','	resChan <- res\n	s.lastProcessedCommitHash = res.Commit\n	return nil\n'),('	s.mergeParts = nil\n	resChan <- res\n','	s.mergeParts = nil\n	s.lastProcessedCommitHash = res.Commit\n	resChan <- res\n'))
ok('c13-errchan','C13',P,('	done := make(chan bool)\n\n	var parseErr error\n	go func() {\n		parseErr = p.Run(commits)\n		done <- true\n	}()\n','	done := make(chan error, 1)\n	go func() {\n		done <- p.Run(commits)\n	}()\n'),('	<-done\n	if parseErr != nil {\n		return parseErr\n	}\n','	if err := <-done; err != nil {\n		return err\n	}\n'))
ok('c13-init','C13',P,('	if s.opts.CommitFromIncl == "" {\n		s.repo = repo.New()\n	} else {\n','	if from := s.opts.CommitFromIncl; len(from) == 0 {\n		s.repo = make(repo.Repo)\n	} else {\n'))
