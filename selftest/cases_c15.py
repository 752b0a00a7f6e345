P='ripsrc/history3/process/process.go'; CM='ripsrc/commitmeta/commitmeta.go'; PG='ripsrc/parentsgraph/parents.go'; GE='ripsrc/gitexec/gitexec.go'; BM='ripsrc/branchmeta/branchmeta.go'; GB='ripsrc/gitblame2/gitblame.go'; W='ripsrc/history3/process/repo/writer.go'; MS='ripsrc/history3/process/repo/msgp.go'; RS='ripsrc/ripsrc.go'
bug('c15-limit','C15',CM,('diff.renameLimit=10000','diff.renameLimit=1000'))
bug('c15-quote','C15',P,('		"-c", "core.quotePath=false",\n',''))
bug('c15-rename','C15',P,('		"--pretty=short",\n','		"--pretty=short",\n		"--no-renames",\n'))
bug('c15-nomerges','C15',CM,('		"--numstat",\n','		"--numstat",\n		"--no-merges",\n'))
bug('c15-incl','C15',CM,('			pf = "^..HEAD"','			pf = "..HEAD"'))
bug('c15-all','C15',CM,('	if s.opts.CommitFromIncl != "" {\n		if s.opts.AllBranches {','	if s.opts.CommitFromIncl != "" {\n		if !s.opts.AllBranches {'))
bug('c15-all2','C15',P,('		if s.opts.AllBranches {\n			args = append(args, "--all")\n		}\n','		args = append(args, "--all")\n'))
bug('c15-refs','C15',P,('			for _, c := range s.opts.WantedBranchRefs {\n				args = append(args, c)\n			}\n','			for i, c := range s.opts.WantedBranchRefs {\n				if i < 100 {\n					args = append(args, c)\n				}\n			}\n'))
bug('c15-graph','C15',PG,('	if s.opts.AllBranches {\n		args = append(args, "--all")\n	}\n',''))
bug('c15-graphm','C15',PG,('		"-m",\n','		"--first-parent",\n'))
bug('c15-graphbr','C15',PG,('args = append(args, "--all")','args = append(args, "--branches")'))
bug('c15-attr','C15',CM,('"core.attributesFile="+f.Name(),','"core.attributesFile=" + f.Name() + ".none",'))
bug('c15-meta','C15','ripsrc/commit_info.go',('	copts.CommitFromMakeNonIncl = s.opts.CommitFromMakeNonIncl\n',''))
bug('c15-metaall','C15','ripsrc/commit_info.go',('	copts.AllBranches = s.opts.AllBranches\n','	copts.AllBranches = s.opts.AllBranches && s.opts.CommitFromIncl == ""\n	if s.opts.NoStrictResume {\n		copts.AllBranches = false\n	}\n'))
ok('c15-helper','C15',P,('	if s.opts.CommitFromIncl != "" {\n		if s.opts.AllBranches {\n			for _, c := range s.opts.WantedBranchRefs {\n				args = append(args, c)\n			}\n		}\n		pf := ""\n		if s.opts.CommitFromMakeNonIncl {\n			pf = "..HEAD"\n		} else {\n			pf = "^..HEAD"\n		}\n		args = append(args, s.opts.CommitFromIncl+pf)\n	} else {\n		if s.opts.AllBranches {\n			args = append(args, "--all")\n		}\n	}\n','	args = append(args, s.revisions()...)\n'),
 ('func (s *Process) gitLogPatches()','''func (s *Process) revisions() []string {
	o := s.opts
	if o.CommitFromIncl == "" {
		if !o.AllBranches {
			return nil
		}
		return []string{"--all"}
	}
	var res []string
	if o.AllBranches {
		res = append(res, o.WantedBranchRefs...)
	}
	from := o.CommitFromIncl
	if !o.CommitFromMakeNonIncl {
		from += "^"
	}
	return append(res, from+"..HEAD")
}

func (s *Process) gitLogPatches()'''))
ok('c15-order','C15',CM,('		"--raw",\n		"--reverse",\n','		"--reverse",\n		"--raw",\n		"--no-color",\n'))
ok('c15-devnull','C15',CM,('	args := append(gitexec.LogSettings(),\n		"-c", "core.attributesFile="+f.Name(),\n','	args := append(gitexec.LogSettings(),\n		"-c", "core.attributesfile="+os.DevNull,\n'))
ok('c15-spread','C15',P,('			for _, c := range s.opts.WantedBranchRefs {\n				args = append(args, c)\n			}\n','			args = append(args, s.opts.WantedBranchRefs...)\n'))
ok('c15-const','C15',P,('		"-c", "diff.renameLimit=10000",\n','		"-c", fmt.Sprintf("diff.renameLimit=%s", renameLimit),\n'),('const maxSlowestCommits','const renameLimit = "10000"\n\nconst maxSlowestCommits'))
ok('c15-fields','C15',PG,('	args := append(gitexec.LogSettings(),\n		"log",\n		"-m",\n		"--reverse",\n		"--no-abbrev-commit",\n		"--pretty=format:%H@%P",\n	)\n','	args := logArgs()\n'),('func (s *Graph) gitLogParents','func logArgs() []string {\n	args := append(gitexec.LogSettings(), "log", "--reverse")\n	return append(args, "--pretty=tformat:%H@%P")\n}\n\nfunc (s *Graph) gitLogParents'))
# C16
bug('c16-sh','C16',GE,('exec.CommandContext(ctx, gitCommand, args...)','exec.CommandContext(ctx, "sh", "-c", gitCommand+" "+strings.Join(args, " "))'))
bug('c16-dir','C16',GE,('	c := exec.CommandContext(ctx, gitCommand, args...)\n	c.Dir = repoDir\n','	c := exec.CommandContext(ctx, gitCommand, args...)\n'))
bug('c16-checkout','C16',BM,('	args := []string{\n		"symbolic-ref",\n		"HEAD",\n	}\n','	if _, err := execCommand("git", opts.RepoDir, []string{"pack-refs", "--all"}); err != nil {\n		return "", err\n	}\n	args := []string{\n		"symbolic-ref",\n		"HEAD",\n	}\n'))
bug('c16-symref','C16',BM,('		"symbolic-ref",\n		"HEAD",\n','		"symbolic-ref",\n		"HEAD",\n		"refs/heads/master",\n'))
bug('c16-sep','C16',GB,('		"--",\n',''))
bug('c16-remove','C16',W,('	err := os.RemoveAll(tmpDir)\n','	err := os.RemoveAll(filepath.Dir(dir))\n'))
bug('c16-repodir','C16',P,('s.checkpointsDir = filepath.Join(opts.RepoDir, "pp-git-cache")','s.checkpointsDir = filepath.Join(opts.RepoDir, ".git")'))
bug('c16-commitpath','C16',W,('filepath.Join(tmpDir, checkpointVersionFile)','filepath.Join(tmpDir, lastCommit)'))
bug('c16-attr','C16','ripsrc/gitexec/prepare.go',('	return nil\n}\n\nfunc dirExists','	return os.WriteFile(repoDir+"/.git/info/attributes", nil, 0666)\n}\n\nfunc dirExists'))
bug('c16-dotdot','C16',P,('filepath.Join(opts.CheckpointsDir, "pp-git-cache")','filepath.Join(opts.CheckpointsDir, "..", "pp-git-cache")'))
bug('c16-blamedir','C16',P,('gitblame2.Run(s.opts.RepoDir,','gitblame2.Run(s.checkpointsDir,'))
bug('c16-chdir','C16',P,('	args := append(gitexec.LogSettings(),\n		"-c", "core.attr','	os.Chdir(s.opts.RepoDir)\n\n	args := append(gitexec.LogSettings(),\n		"-c", "core.attr'))
ok('c16-const','C16',P,('filepath.Join(opts.CheckpointsDir, "pp-git-cache")','filepath.Join(opts.CheckpointsDir, cacheDirName)'),('const maxSlowestCommits','const cacheDirName = "pp-git-cache"\n\nconst maxSlowestCommits'))
ok('c16-osw','C16',W,('ioutil.WriteFile(loc+".tmp", data, 0777)','os.WriteFile(loc+".tmp", data, 0666)'),('	"io/ioutil"\n',''))
ok('c16-helper','C16',MS,('	f, err := os.Create(s.loc + ".tmp")\n','	f, err := os.OpenFile(tmpLoc(s.loc), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0666)\n'),('func (s *msgWriter) Write(','func tmpLoc(s string) string { return s + ".tmp" }\n\nfunc (s *msgWriter) Write('))
ok('c16-base','C16',P,('	if opts.CheckpointsDir != "" {\n		s.checkpointsDir = filepath.Join(opts.CheckpointsDir, "pp-git-cache")\n	} else {\n		s.checkpointsDir = filepath.Join(opts.RepoDir, "pp-git-cache")\n	}\n','	base := opts.CheckpointsDir\n	if base == "" {\n		base = opts.RepoDir\n	}\n	s.checkpointsDir = filepath.Join(base, "pp-git-cache")\n'))
# C27
bug('c27-noclose','C27',GE,('	if rerr := os.Remove(s.loc); err == nil {\n		err = rerr\n	}\n	return err','	if err != nil {\n		return err\n	}\n	return os.Remove(s.loc)'))
ok('c27-err','C27',P,('	if err != nil {\n		os.Remove(f.Name())\n		return nil, err\n	}\n	return gitexec','	if err != nil {\n		return nil, err\n	}\n	return gitexec'))
bug('c27-wrong','C27',CM,('return gitexec.RemoveOnClose(r, f.Name()), nil','return gitexec.RemoveOnClose(r, f.Name()+".tmp"), nil'))
bug('c27-plain','C27',CM,('return gitexec.RemoveOnClose(r, f.Name()), nil','return r, nil'))
bug('c27-notclosed','C27',CM,('	defer r.Close()\n',''))
bug('c27-two','C27',P,('	args := []string{\n		"-c", "core.attr','	d, err := ioutil.TempDir("", "x")\n	if err != nil {\n		os.Remove(f.Name())\n		return nil, err\n	}\n	if s.opts.AllBranches {\n		defer os.RemoveAll(d)\n	}\n\n	args := []string{\n		"-c", "core.attr'))
ok('c27-defer','C27',CM,('	r, err := gitexec.ExecPiped(context.Background(), s.gitCommand, s.repoDir, args)\n	if err != nil {\n		os.Remove(f.Name())\n		return nil, err\n	}\n','	attrs := f.Name()\n	r, err := gitexec.ExecPiped(context.Background(), s.gitCommand, s.repoDir, args)\n	if err != nil {\n		_ = os.Remove(attrs)\n		return nil, fmt.Errorf("git log: %v", err)\n	}\n'))
ok('c27-helper','C27',P,('	f, err := ioutil.TempFile("", "ripsrc")\n	if err != nil {\n		return nil, err\n	}\n	err = f.Close()\n	if err != nil {\n		os.Remove(f.Name())\n		return nil, err\n	}\n','	loc, err := emptyFile()\n	if err != nil {\n		return nil, err\n	}\n'),('"core.attributesFile="+f.Name()','"core.attributesFile="+loc'),('		os.Remove(f.Name())\n		return nil, err\n','		os.Remove(loc)\n		return nil, err\n'),('gitexec.RemoveOnClose(r, f.Name())','gitexec.RemoveOnClose(r, loc)'),
 ('func (s *Process) gitLogPatches()','''func emptyFile() (string, error) {
	f, err := ioutil.TempFile("", "ripsrc")
	if err != nil {
		return "", err
	}
	if err := f.Close(); err != nil {
		os.Remove(f.Name())
		return "", err
	}
	return f.Name(), nil
}

func (s *Process) gitLogPatches()'''))
ok('c27-field','C27',GE,('	err := s.ReadCloser.Close()\n	if rerr := os.Remove(s.loc); err == nil {\n		err = rerr\n	}\n	return err','	defer os.Remove(s.loc)\n	return s.ReadCloser.Close()'))
