BR='ripsrc/branches.go'; CI='ripsrc/commit_info.go'; RS='ripsrc/ripsrc.go'; CO='ripsrc/code.go'; P='ripsrc/history3/process/process.go'; B2='ripsrc/branches2/name_hash.go'; PG='ripsrc/parentsgraph/parentsgraph.go'; BM='ripsrc/branchmeta/branchmeta.go'; CM='ripsrc/commitmeta/commitmeta.go'
# C29
bug('c29-noorigin','C29',BR,('	opts.UseOrigin = s.opts.BranchesUseOrigin\n',''))
bug('c29-invorigin','C29',BR,('s.opts.BranchesUseOrigin','!s.opts.BranchesUseOrigin'))
bug('c29-noprs','C29',BR,('	opts.PullRequestSHAs = s.opts.PullRequestSHAs\n',''))
bug('c29-prcond','C29',BR,('	opts.PullRequestSHAs = s.opts.PullRequestSHAs\n','	if !s.opts.BranchesUseOrigin {\n		opts.PullRequestSHAs = s.opts.PullRequestSHAs\n	}\n'))
bug('c29-nodefault','C29',BR,('	opts.IncludeDefaultBranch = true\n',''))
bug('c29-nonincl','C29',CI,('	copts.CommitFromMakeNonIncl = s.opts.CommitFromMakeNonIncl\n',''))
bug('c29-allbr','C29',CI,('copts.AllBranches = s.opts.AllBranches','copts.AllBranches = s.opts.AllBranches && s.opts.CommitFromIncl == ""'))
bug('c29-graph','C29',RS,('		AllBranches: s.opts.AllBranches,\n',''))
bug('c29-strict','C29',P,('if s.opts.NoStrictResume {','if !s.opts.NoStrictResume {'))
bug('c29-strict2','C29',P,('if s.opts.NoStrictResume {','if s.opts.NoStrictResume || s.opts.AllBranches {'))
bug('c29-chkdir','C29',P,('filepath.Join(opts.CheckpointsDir, "pp-git-cache")','filepath.Join(opts.RepoDir, "pp-git-cache")'))
bug('c29-chkdir2','C29',P,('	if opts.CheckpointsDir != "" {','	if opts.CheckpointsDir != "" && opts.CommitFromIncl != "" {'))
bug('c29-code-chk','C29',CO,('CheckpointsDir:','// CheckpointsDir:'))
bug('c29-code-swap','C29',CO,('NoStrictResume:        s.opts.NoStrictResume','NoStrictResume:        s.opts.CommitFromMakeNonIncl'))
bug('c29-late','C29',RS,('	if s.gitExecPrepared {\n','	if s.opts.CommitFromIncl == "" {\n		s.opts.CheckpointsDir = ""\n	}\n	if s.gitExecPrepared {\n'))
bug('c29-new','C29',RS,('	s.opts = opts\n','	s.opts = Opts{RepoDir: opts.RepoDir, Logger: opts.Logger, CheckpointsDir: opts.CheckpointsDir, NoStrictResume: opts.NoStrictResume, CommitFromIncl: opts.CommitFromIncl, AllBranches: opts.AllBranches, BranchesUseOrigin: opts.BranchesUseOrigin, PullRequestSHAs: opts.PullRequestSHAs}\n'))
bug('c29-new2','C29',P,('	s.opts = opts\n	s.gitCommand','	if opts.CommitFromIncl != "" {\n		opts.AllBranches = false\n	}\n	s.opts = opts\n	s.gitCommand'))
bug('c29-refs','C29',B2,('opts.UseOrigin = s.opts.UseOrigin','opts.UseOrigin = s.opts.UseOrigin && len(s.opts.PullRequestSHAs) == 0'))
ok('c29-lit','C29',BR,('	opts := branches2.Opts{}\n	opts.Logger = s.opts.Logger\n	opts.UseOrigin = s.opts.BranchesUseOrigin\n	opts.CommitGraph = s.commitGraph\n	opts.RepoDir = s.opts.RepoDir\n	opts.IncludeDefaultBranch = true\n	opts.PullRequestSHAs = s.opts.PullRequestSHAs\n	pr := branches2.New(opts)\n	err = pr.Run(ctx, res2)','	err = branches2.New(s.branchOpts()).Run(ctx, res2)'),('func (s *Ripsrc) BranchesSlice','func (s *Ripsrc) branchOpts() branches2.Opts {\n	return branches2.Opts{\n		Logger: s.opts.Logger, UseOrigin: s.opts.BranchesUseOrigin, CommitGraph: s.commitGraph,\n		RepoDir: s.opts.RepoDir, IncludeDefaultBranch: true, PullRequestSHAs: s.opts.PullRequestSHAs,\n	}\n}\n\nfunc (s *Ripsrc) BranchesSlice'))
ok('c29-local','C29',CI,('	copts := commitmeta.Opts{}\n	copts.CommitFromIncl = s.opts.CommitFromIncl\n	copts.CommitFromMakeNonIncl = s.opts.CommitFromMakeNonIncl\n	copts.AllBranches = s.opts.AllBranches\n	copts.WantedBranchRefs = wantedBranchRefs\n','	o := s.opts\n	copts := commitmeta.Opts{CommitFromIncl: o.CommitFromIncl, CommitFromMakeNonIncl: o.CommitFromMakeNonIncl, AllBranches: o.AllBranches, WantedBranchRefs: wantedBranchRefs}\n'))
ok('c29-strictok','C29',P,('		expectedCommit := ""\n		if s.opts.NoStrictResume {\n			// validation disabled\n		} else {\n			expectedCommit = s.opts.CommitFromIncl\n		}\n','		expectedCommit := s.opts.CommitFromIncl\n		if s.opts.NoStrictResume {\n			expectedCommit = ""\n		}\n'))
ok('c29-newlit','C29',RS,('	s := &Ripsrc{}\n	s.opts = opts\n	s.CodeInfoTimings = &CodeInfoTimings{}\n	s.fileInfo = fileinfo.New()\n	return s\n','	return &Ripsrc{opts: opts, CodeInfoTimings: &CodeInfoTimings{}, fileInfo: fileinfo.New()}\n'))
ok('c29-branch','C29',BR,('	opts.UseOrigin = s.opts.BranchesUseOrigin\n','	if s.opts.BranchesUseOrigin {\n		opts.UseOrigin = true\n	}\n'))
ok('c29-chk','C29',P,('	if opts.CheckpointsDir != "" {\n		s.checkpointsDir = filepath.Join(opts.CheckpointsDir, "pp-git-cache")\n	} else {\n		s.checkpointsDir = filepath.Join(opts.RepoDir, "pp-git-cache")\n	}\n','	s.checkpointsDir = cacheDir(opts)\n'),('func (s *Process) Timing()','func cacheDir(opts Opts) string {\n	if dir := opts.CheckpointsDir; dir != "" {\n		return filepath.Join(dir, "pp-git-cache")\n	}\n	return filepath.Join(opts.RepoDir, "pp-git-cache")\n}\n\nfunc (s *Process) Timing()'))
# C01(d)
bug('c01d-noreverse','C01',P,('		"--reverse",\n',''))
bug('c01d-order','C01',P,('		"--date-order",\n',''))
bug('c01d-m','C01',P,('		"-m",\n',''))
bug('c01d-nomerges','C01',P,('		"-m",\n','		"-m",\n		"--no-merges",\n'))
bug('c01d-firstparent','C01',P,('		"-m",\n','		"-m",\n		"--first-parent",\n'))
bug('c01d-max','C01',P,('		"-m",\n','		"-m",\n		"--max-count=100000",\n'))
bug('c01d-head','C01',P,('if s.opts.AllBranches {\n			args = append(args, "--all")','if s.opts.AllBranches && s.opts.CommitFromMakeNonIncl {\n			args = append(args, "--all")'))
bug('c01d-filter','C01',P,('		"-m",\n','		"-m",\n		"--diff-filter=AMR",\n'))
ok('c01d-sep','C01',P,('		"-m",\n','		"--diff-merges=separate",\n'))
