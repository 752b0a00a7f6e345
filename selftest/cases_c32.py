R = "ripsrc/cmd/cmdutils/repo_run.go"
X = "ripsrc/cmd/cmdutils/errors.go"
C = "ripsrc/cmd/cmdcode/cmd.go"
B = "ripsrc/cmd/cmdbranches/cmd.go"
I = "ripsrc/pkg/gitrepos/" + [f for f in __import__("os").listdir("/repo/ripsrc/pkg/gitrepos") if f.endswith(".go") and "test" not in f][0]
M = "cmd/root.go"
ERRS = '''	if len(repoErrs) != 0 {
		var errs []error
		for _, e := range repoErrs {
			errs = append(errs, e)
		}
		cmdutils.ExitWithErrs(errs)
	}

'''
NONE = '''	if stats.Repos == 0 {
		cmdutils.ExitWithErr(fmt.Errorf("no git repos found in supplied dir: %v", opts.Dir))
	}
'''
CB = '''		if err == cmdutils.ErrRevParseFailed {
			stats.SkippedEmptyRepos++
		} else if err != nil {
			re := RepoError{Repo: dir, Err: err}
			repoErrors = append(repoErrors, re)
		}
		return nil
'''
bug("c32-exit0", "C32", X, ("	os.Exit(1)\n}\n\nfunc", "	os.Exit(0)\n}\n\nfunc"))
bug("c32-exits0", "C32", X, ('"failed"))\n	os.Exit(1)', '"failed"))\n	os.Exit(0)'))
bug("c32-one-no-exit", "C32", X, ("		ExitWithErr(errs[0])\n		return", "		fmt.Fprintln(color.Output, errs[0])\n		return"))
bug("c32-code-count", "C32", X, ("	os.Exit(1)\n}\n\nfunc", "	os.Exit(len(err.Error()))\n}\n\nfunc"))
bug("c32-no-exits", "C32", C, (ERRS, "	_ = repoErrs\n"))
bug("c32-no-exits-b", "C32", B, (ERRS, "	_ = repoErrs\n"))
bug("c32-many-errs", "C32", C, (ERRS, ERRS.replace("!= 0 {\n		var", "> 1 {\n		var")))
bug("c32-errs-all", "C32", C, (ERRS, ERRS.replace("len(repoErrs) != 0", "len(repoErrs) != 0 && len(repoErrs) == stats.Repos")))
bug("c32-none", "C32", C, (NONE, ""))
bug("c32-none-skipped", "C32", C, (NONE, NONE.replace("stats.Repos == 0", "stats.Repos == 0 && stats.SkippedEmptyRepos != 0")))
bug("c32-none-before", "C32", B, (NONE, ""), ('	stats, repoErrs, err := runOnDirs(ctx, out, opts, opts.Dir, start)\n', '	stats, repoErrs, err := runOnDirs(ctx, out, opts, opts.Dir, start)\n	if stats.Repos == 0 {\n		fmt.Fprintln(out, "no repos")\n		return\n	}\n'))
bug("c32-iter-ignored", "C32", C, ("	if err != nil {\n		rerr = err\n		return\n	}\n	return\n}\n", "	_ = err\n	return\n}\n"))
bug("c32-err-lost", "C32", C, ("	if err != nil {\n		cmdutils.ExitWithErr(err)\n	}\n", "	if err != nil && stats.Repos == 0 {\n		cmdutils.ExitWithErr(err)\n	}\n"))
bug("c32-finish-first", "C32", C, ("	stats, repoErrs, err := runOnDirs(ctx, out, opts, opts.Dir, start)\n", "	stats, repoErrs, err := runOnDirs(ctx, out, opts, opts.Dir, start)\n	fmt.Fprintf(color.Output, \"Finished processing repos %d\\n\", stats.Repos)\n"))
bug("c32-defer-finish", "C32", B, ("	stats, repoErrs, err := runOnDirs(ctx, out, opts, opts.Dir, start)\n", "	stats, repoErrs, err := runOnDirs(ctx, out, opts, opts.Dir, start)\n	color.Green(\"Finished processing repos\")\n"))
bug("c32-empty-err", "C32", C, (CB, CB.replace("			stats.SkippedEmptyRepos++\n", "			stats.SkippedEmptyRepos++\n			return err\n")))
bug("c32-all-empty", "C32", C, (CB, CB.replace("err == cmdutils.ErrRevParseFailed {\n", "err != nil {\n").replace("} else if err != nil {", "} else if false {")))
bug("c32-empty-counted", "C32", C, (CB, CB.replace("		if err == cmdutils.ErrRevParseFailed {\n			stats.SkippedEmptyRepos++\n		} else if err", "		if err")))
bug("c32-err-stop", "C32", B, (CB, CB.replace("err != nil {\n", "err != nil && len(repoErrors) != 0 {\n")))
bug("c32-any-code", "C32", R, ("exitErr, ok := err.(*exec.ExitError); ok && exitErr.ExitCode() == 1", "_, ok := err.(*exec.ExitError); ok"))
bug("c32-any-code2", "C32", R, ("exitErr.ExitCode() == 1", "exitErr.ExitCode() != 0"))
bug("c32-no-quiet", "C32", R, ('"--quiet", ', ''))
bug("c32-no-verify", "C32", R, ('"--verify", ', ''))
bug("c32-head-err", "C32", R, ('	if err != nil {\n		return false, fmt', '	if err != nil && repoDir == "" {\n		return false, fmt'))
bug("c32-run-err", "C32", R, ('		return err\n	}\n\n	fmt.Fprintf(color.Output, "completed', '	}\n\n	fmt.Fprintf(color.Output, "completed'))
bug("c32-run-nil", "C32", R, ('color.RedString(err.Error()))\n\n		return err', 'color.RedString(err.Error()))\n\n		return nil'))
bug("c32-not-run", "C32", R, ("	err = run()\n", "	if start.IsZero() {\n		err = run()\n	}\n"))
bug("c32-no-warn", "C32", R, ('		fmt.Fprintf(wr, "git rev-parse HEAD failed, happens for empty repos, repo: %v \\n", repoDir)\n', ''), (C, '	if stats.SkippedEmptyRepos != 0 {\n		fmt.Fprintf(color.Output, "%v", color.YellowString("Warning! Skipped %v empty repos\\n", stats.SkippedEmptyRepos))\n	}\n', ''), (C, '	fmt.Fprintf(color.Output, "%v", color.GreenString("Finished processing repos %d entries %d in %v\\n", stats.Repos, stats.Entries, time.Since(start)))\n', '	_ = color.Output\n'))
bug("c32-lib-err", "C32", C, ("		if err != nil {\n			return err\n		}\n\n		fmt.Fprintln(wr)", "		if err != nil && entries == 0 {\n			return err\n		}\n\n		fmt.Fprintln(wr)"))
bug("c32-lib-err2", "C32", B, ("		err := ripper.Branches(ctx, res)\n		<-done\n\n		if err != nil {\n			return err\n		}\n", "		go ripper.Branches(ctx, res)\n		<-done\n"))
bug("c32-lib-err3", "C32", B, ("		err := ripper.Branches(ctx, res)\n		<-done\n\n		if err != nil {\n			return err\n		}\n", "		_ = ripper.Branches(ctx, res)\n		<-done\n"))
bug("c32-entries-err", "C32", C, ("	return entries, err\n", "	if entries > 0 {\n		err = nil\n	}\n	return entries, err\n"))
bug("c32-stat", "C32", I, ('			return false, fmt.Errorf("can\'t check', '			return false, nil\n			return false, fmt.Errorf("can\'t check'))
bug("c32-readdir", "C32", I, ('	subs, err := ioutil.ReadDir(dir)\n	if err != nil {\n		return fmt.Errorf("can\'t read passed dir, err: %v", err)\n	}\n', '	subs, _ := ioutil.ReadDir(dir)\n'))
bug("c32-sub-err", "C32", I, ("		err := IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb)\n		if err != nil {\n			return err\n		}\n", "		IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb)\n"))
bug("c32-last-sub", "C32", I, ("	for _, sub := range subs {\n", "	var last error\n	for _, sub := range subs {\n"), ("maxRecursion-1, cb)\n		if err != nil {\n			return err\n		}\n	}\n\n	return nil", "maxRecursion-1, cb)\n		last = err\n	}\n\n	return last"))
bug("c32-main", "C32", M, ("		os.Exit(1)\n", "		return\n"))
bug("c32-main0", "C32", M, ("		os.Exit(1)\n", "		os.Exit(0)\n"))
bug("c32-validate", "C32", "cmd/validate.go", ("			if err != nil {\n				panic(err)\n			}\n			<-done", "			if err != nil {\n				fmt.Println(err)\n			}\n			<-done"))
bug("c32-recover", "C32", C, ("	start := time.Now()\n\n	if opts", "	start := time.Now()\n	if opts.Dir == \"\" {\n		fmt.Fprintln(out, \"no dir\")\n		return\n	}\n\n	if opts"))

ok("c32-errors-is", "C32", C, (CB, CB.replace("err == cmdutils.ErrRevParseFailed", "errors.Is(err, cmdutils.ErrRevParseFailed)")), ('import (\n', 'import (\n	"errors"\n'))
ok("c32-switch", "C32", C, (CB, '''		switch {
		case err == nil:
		case err == cmdutils.ErrRevParseFailed:
			stats.SkippedEmptyRepos++
		default:
			repoErrors = append(repoErrors, RepoError{Repo: dir, Err: err})
		}
		return nil
'''))
ok("c32-return-iter", "C32", C, ("	if err != nil {\n		rerr = err\n		return\n	}\n	return\n}\n", "	return stats, repoErrors, err\n}\n"))
ok("c32-none-first", "C32", C, (NONE, ""), (ERRS, NONE + ERRS))
ok("c32-errs-inline", "C32", B, (ERRS, '''	errs := make([]error, 0, len(repoErrs))
	for i := range repoErrs {
		errs = append(errs, repoErrs[i])
	}
	if len(errs) > 0 {
		cmdutils.ExitWithErrs(errs)
	}
'''))
ok("c32-exit2", "C32", X, ("	os.Exit(1)\n}\n\nfunc", "	os.Exit(2)\n}\n\nfunc"))
ok("c32-exit-helper", "C32", X, ("	os.Exit(1)\n}\n\nfunc ExitWithErrs", "	exit()\n}\n\nfunc exit() { os.Exit(1) }\n\nfunc ExitWithErrs"))
ok("c32-errors-as", "C32", R, ("	if exitErr, ok := err.(*exec.ExitError); ok && exitErr.ExitCode() == 1 {", "	var exitErr *exec.ExitError\n	if errors.As(err, &exitErr) && exitErr.ExitCode() == 1 {"))
ok("c32-nil-first", "C32", R, ('''	if exitErr, ok := err.(*exec.ExitError); ok && exitErr.ExitCode() == 1 {
		return false, nil
	}
	if err != nil {
		return false, fmt.Errorf("git rev-parse HEAD failed to run: %v", err)
	}
	return true, nil
''', '''	if err == nil {
		return true, nil
	}
	if exitErr, ok := err.(*exec.ExitError); ok && exitErr.ExitCode() == 1 {
		return false, nil
	}
	return false, fmt.Errorf("git rev-parse HEAD failed to run: %v", err)
'''))
ok("c32-q", "C32", R, ('"--quiet"', '"-q"'))
ok("c32-iter-named", "C32", I, ("	for _, sub := range subs {\n		if !sub.IsDir() {\n			continue\n		}\n		err := IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb)\n		if err != nil {\n			return err\n		}\n	}\n", "	for i := range subs {\n		if sub := subs[i]; sub.IsDir() {\n			if err := IterDir(filepath.Join(dir, sub.Name()), maxRecursion-1, cb); err != nil {\n				return err\n			}\n		}\n	}\n"))
ok("c32-cb-direct", "C32", I, ("		err := cb(dir)\n		if err != nil {\n			return err\n		}\n		return nil\n", "		return cb(dir)\n"))
ok("c32-readdir-os", "C32", I, ("ioutil.ReadDir", "os.ReadDir"), ('	"io/ioutil"\n', ''))
ok("c32-count-at-end", "C32", C, ("		stats.Repos += 1\n		stats.Entries += entries\n", "		stats.Entries += entries\n"), (CB, CB.replace("		return nil\n", "		stats.Repos++\n		return nil\n")))
ok("c32-rune", "C32", M, ("		os.Exit(1)\n", "		os.Exit(3)\n"))
ok("c32-noop", "C32", C, ("	start := time.Now()\n\n	if opts", "	start := time.Now()\n	_ = len(opts.Dir)\n\n	if opts"))
