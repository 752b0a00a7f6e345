W='ripsrc/history3/process/repo/writer.go'; MS='ripsrc/history3/process/repo/msgp.go'; RD='ripsrc/history3/process/repo/reader.go'
rem='''	err = os.RemoveAll(dir)
	if err != nil {
		return err
	}

'''
fin='''	err = repoWr.Finish()
	if err != nil {
		return err
	}
	err = blamesWr.Finish()
	if err != nil {
		return err
	}
	err = linesWr.Finish()
	if err != nil {
		return err
	}
	err = lineDataWr.Finish()
	if err != nil {
		return err
	}
'''
ver='''	err = writeFileAtomic(filepath.Join(tmpDir, checkpointVersionFile), []byte(lastCommit))
	if err != nil {
		return err
	}

'''
bug('c11-early','C11',W,(rem,''),(fin,rem+fin))
bug('c11-ver-after','C11',W,(ver,''),('	return os.Rename(tmpDir, dir)\n','	err = os.Rename(tmpDir, dir)\n	if err != nil {\n		return err\n	}\n	return writeFileAtomic(filepath.Join(dir, checkpointVersionFile), []byte(lastCommit))\n'))
bug('c11-ver-swap','C11',W,(rem,''),(ver,rem+ver))
bug('c11-inplace','C11',W,('	tmpDir := filepath.Join(dir, "tmp")\n	err := os.RemoveAll(tmpDir)\n','	tmpDir := filepath.Join(dir, checkpointDirName)\n	err := os.RemoveAll(tmpDir)\n'),(rem,''),('	return os.Rename(tmpDir, dir)\n','	return nil\n'))
bug('c11-noflush','C11',MS,('	err := s.wr.Flush()\n	if err != nil {\n		return err\n	}\n	err = s.gw','	err := s.gw'))
bug('c11-flushorder','C11',MS,('	err := s.wr.Flush()\n	if err != nil {\n		return err\n	}\n	err = s.gw.Flush()\n','	err := s.gw.Flush()\n	if err != nil {\n		return err\n	}\n	err = s.wr.Flush()\n'))
bug('c11-noclose','C11',MS,('	err = s.f.Close()\n	if err != nil {\n		return err\n	}\n	return os.Rename','	return os.Rename'))
bug('c11-ignored','C11',W,('	err = linesWr.Finish()\n	if err != nil {\n		return err\n	}\n','	linesWr.Finish()\n'))
bug('c11-skip','C11',W,('	err = linesWr.Finish()\n	if err != nil {\n		return err\n	}\n',''))
bug('c11-deferfin','C11',W,('	err = lineDataWr.Finish()\n	if err != nil {\n		return err\n	}\n','	defer lineDataWr.Finish()\n'))
bug('c11-merge','C11',W,('	err := os.RemoveAll(tmpDir)\n','	err := os.RemoveAll(filepath.Dir(tmpDir))\n'))
bug('c11-piecewise','C11',W,(rem,''),('	return os.Rename(tmpDir, dir)\n','''	err = os.MkdirAll(dir, 0777)
	if err != nil {
		return err
	}
	for _, n := range []string{"repo", "blames", "lines", "line-data", checkpointVersionFile} {
		err = os.Rename(filepath.Join(tmpDir, n), filepath.Join(dir, n))
		if err != nil {
			return err
		}
	}
	return nil
'''))
bug('c11-reader','C11',RD,('	lineDataR, err := newMsgReader(dir, "line-data")\n	if err != nil {\n		return nil, err\n	}\n','	lineDataR, err := newMsgReader(dir, "line-data")\n	if os.IsNotExist(err) {\n		return repo, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n'),('	"path/filepath"\n','	"os"\n	"path/filepath"\n'))
bug('c11-readtmp','C11',RD,('	lineDataR, err := newMsgReader(dir, "line-data")\n','	lineDataR, err := newMsgReader(filepath.Join(dir, "..", "tmp"), "line-data")\n'))
bug('c11-noplace','C11',W,('	return os.Rename(tmpDir, dir)\n','	os.Rename(tmpDir, dir)\n	return nil\n'))
bug('c11-closed-before-ver','C11',W,('	return os.Rename(loc+".tmp", loc)','	go os.Rename(loc+".tmp", loc)\n	return nil'))
bug('c11-name','C11',W,('newMsgWriter(tmpDir, "lines")','newMsgWriter(tmpDir, "line")'))
ok('c11-loop','C11',W,(fin,'''	for _, w := range []*msgWriter{repoWr, blamesWr, linesWr, lineDataWr} {
		if err := w.Finish(); err != nil {
			return err
		}
	}
'''))
ok('c11-loop2','C11',W,(fin,'''	err = finishAll(repoWr, blamesWr, linesWr, lineDataWr)
	if err != nil {
		return err
	}
'''),('func writeFileAtomic(','''func finishAll(ws ...*msgWriter) error {
	for i := 0; i < len(ws); i++ {
		if err := ws[i].Finish(); err != nil {
			return err
		}
	}
	return nil
}

func writeFileAtomic('''))
ok('c11-order','C11',W,('	err = repoWr.Finish()\n	if err != nil {\n		return err\n	}\n	err = blamesWr','	err = blamesWr'),('	err = lineDataWr.Finish()\n	if err != nil {\n		return err\n	}\n','	if err := lineDataWr.Finish(); err != nil {\n		return fmt.Errorf("line data: %v", err)\n	}\n	if err := repoWr.Finish(); err != nil {\n		return err\n	}\n'),('import (\n','import (\n	"fmt"\n'))
ok('c11-verfirst','C11',W,(ver,''),(fin,ver+fin))
ok('c11-helper','C11',W,(rem+'	return os.Rename(tmpDir, dir)\n','	return replaceDir(tmpDir, dir)\n'),('func writeFileAtomic(','''func replaceDir(from, to string) error {
	if err := os.RemoveAll(to); err != nil {
		return err
	}
	return os.Rename(from, to)
}

func writeFileAtomic('''))
ok('c11-backup','C11',W,('	err = os.RemoveAll(dir)\n	if err != nil {\n		return err\n	}\n\n	return os.Rename(tmpDir, dir)\n','''	old := dir + ".old"
	if err := os.RemoveAll(old); err != nil {
		return err
	}
	if err := os.Rename(dir, old); err != nil && !os.IsNotExist(err) {
		return err
	}
	if err := os.Rename(tmpDir, dir); err != nil {
		return err
	}
	return os.RemoveAll(old)
'''))
ok('c11-notmp','C11',MS,('os.Create(s.loc + ".tmp")','os.Create(s.loc)'),('	err = s.f.Close()\n	if err != nil {\n		return err\n	}\n	return os.Rename(s.loc+".tmp", s.loc)','	return s.f.Close()'))
ok('c11-gzclose','C11',MS,('s.gw.Flush()','s.gw.Close()'))
