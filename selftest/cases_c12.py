W = 'ripsrc/history3/process/repo/writer.go'
R = 'ripsrc/history3/process/repo/reader.go'
M = 'ripsrc/history3/process/repo/msgp.go'
D = 'ripsrc/history3/process/repo/disk/disk_gen.go'
RP = 'ripsrc/history3/process/repo/repo.go'

bug('c12-w-swap-commit', 'C12', W, ('bl.Commit = file.Commit', 'bl.Commit = ch'))
bug('c12-w-nobinary', 'C12', W, ('			bl.IsBinary = file.IsBinary\n', ''))
bug('c12-w-binary-const', 'C12', W, ('bl.IsBinary = file.IsBinary', 'bl.IsBinary = len(file.Lines) == 0'))
bug('c12-w-noinc', 'C12', W, ('				linePointerC++\n				lp := linePointerC\n', '				if len(l.Line) != 0 {\n					linePointerC++\n				}\n				lp := linePointerC\n'))
bug('c12-w-noinc-blame', 'C12', W, ('			blamePointerC++\n			blp := blamePointerC\n', '			blp := blamePointerC\n			blamePointerC++\n'))
bug('c12-w-memo-lines-by-commit', 'C12', W, ('writeRepoRow(ch, fp, blp)\n				continue', 'writeRepoRow(file.Commit, fp, blp)\n				continue'))
bug('c12-w-memo-noRow', 'C12', W, ('				writeRepoRow(ch, fp, blp)\n				continue', '				_ = blp\n				continue'))
bug('c12-w-line-memo-skip', 'C12', W, ('					bl.LinePointers = append(bl.LinePointers, lp)\n					continue', '					_ = lp\n					continue'))
bug('c12-w-empty-commit', 'C12', W, ('			writeRepoRow(ch, "", 0)\n', ''))
bug('c12-w-skip-binary', 'C12', W, ('		for fp, file := range commit {\n', '		for fp, file := range commit {\n			if file.IsBinary {\n				continue\n			}\n'))
bug('c12-w-skip-emptyfiles', 'C12', W, ('		for fp, file := range commit {\n', '		for fp, file := range commit {\n			if len(file.Lines) == 0 {\n				continue\n			}\n'))
bug('c12-w-skip-emptylines', 'C12', W, ('			for _, l := range file.Lines {\n', '			for _, l := range file.Lines {\n				if len(l.Line) == 0 {\n					continue\n				}\n'))
bug('c12-w-line-commit', 'C12', W, ('l2.Commit = l.Commit', 'l2.Commit = file.Commit'))
bug('c12-w-data-trim', 'C12', W, ('dp := xxhash.Sum64(l.Line)', 'dp := xxhash.Sum64(l.Line[:len(l.Line)/2])'))
bug('c12-w-data-const', 'C12', W, ('lineData[dp] = true\n				}', 'lineData[dp] = true\n				}\n				if len(l.Line) == 0 {\n					dp = 1\n				}'))
bug('c12-w-data-early', 'C12', W, ('if ok := lineData[dp]; !ok {', 'if ok := lineData[dp]; !ok && len(l.Line) > 0 {'))
bug('c12-w-break', 'C12', W, ('				bl.LinePointers = append(bl.LinePointers, lp)\n			}\n', '				bl.LinePointers = append(bl.LinePointers, lp)\n				if len(bl.LinePointers) > 1<<20 {\n					break\n				}\n			}\n'))
bug('c12-w-reverse', 'C12', W, ('for _, l := range file.Lines {\n', 'for i := len(file.Lines) - 1; i >= 0; i-- {\n				l := file.Lines[i]\n'))
bug('c12-w-row-swap', 'C12', W, ('		r.Commit = commit\n		r.Path = filePath\n', '		r.Commit = filePath\n		r.Path = commit\n'))
bug('c12-w-key-commit', 'C12', W, ('blamePointers := map[*incblame.Blame]uint64{}', 'blamePointers := map[*incblame.Blame]uint64{}\n	byCommit := map[string]uint64{}'), ('			if blp, ok := blamePointers[file]; ok {', '			if blp, ok := byCommit[file.Commit]; ok {'), ('			blamePointers[file] = blp\n', '			blamePointers[file] = blp\n			byCommit[file.Commit] = blp\n'))
bug('c12-w-file', 'C12', W, ('newMsgWriter(tmpDir, "lines")', 'newMsgWriter(tmpDir, "line")'))
bug('c12-r-file', 'C12', R, ('newMsgReader(dir, "line-data")', 'newMsgReader(dir, "linedata")'))
bug('c12-r-hoist', 'C12', R, ('		for {\n			obj := &disk.LineData{}\n', '		obj := &disk.LineData{}\n		for {\n'))
bug('c12-r-swap', 'C12', R, ('line.Commit = obj.Commit', 'line.Commit = ""'))
bug('c12-r-nobinary', 'C12', R, ('			bl.IsBinary = obj.IsBinary\n', ''))
bug('c12-r-order', 'C12', R, ('bl.Lines = append(bl.Lines, line)', 'bl.Lines = append([]*incblame.Line{line}, bl.Lines...)'))
bug('c12-r-skip-line', 'C12', R, ('				bl.Lines = append(bl.Lines, line)', '				if line.Commit == bl.Commit && len(line.Line) == 0 {\n					continue\n				}\n				bl.Lines = append(bl.Lines, line)'))
bug('c12-r-empty-commit', 'C12', R, ('			if _, ok := repo[obj.Commit]; !ok {\n				repo[obj.Commit] = map[string]*incblame.Blame{}\n			}\n			if obj.BlamePointer == 0 {\n				// commit without files\n				continue\n			}\n', '			if obj.BlamePointer == 0 {\n				// commit without files\n				continue\n			}\n			if _, ok := repo[obj.Commit]; !ok {\n				repo[obj.Commit] = map[string]*incblame.Blame{}\n			}\n'))
bug('c12-r-replace', 'C12', R, ('			if _, ok := repo[obj.Commit]; !ok {', '			if _, ok := repo[obj.Commit][obj.Path]; !ok {'))
bug('c12-r-commit', 'C12', R, ('repo[obj.Commit][obj.Path] = bl', 'repo[bl.Commit][obj.Path] = bl'), ('repo[obj.Commit] = map[string]*incblame.Blame{}\n', 'repo[obj.Commit] = map[string]*incblame.Blame{}\n				_ = 1\n'))
bug('c12-r-first', 'C12', R, ('				if !ok {\n					panic("line")\n				}\n', '				if !ok {\n					panic("line")\n				}\n				if lp == obj.LinePointers[0] {\n					line = lines[obj.LinePointers[0]]\n				}\n				line.Commit = bl.Commit\n'))
bug('c12-r-zero', 'C12', R, ('if obj.BlamePointer == 0 {', 'if obj.BlamePointer <= 1 {'))
bug('c12-g-key', 'C12', D, ('''	// write "ldp"
	err = en.Append(0xa3, 0x6c, 0x64, 0x70)
''', '''	// write "ldp"
	err = en.Append(0xa3, 0x6c, 0x70, 0x64)
'''))
bug('c12-g-dec-field', 'C12', D, ('z.LineDataPointer, err = dc.ReadUint64()', 'z.Pointer, err = dc.ReadUint64()'))
bug('c12-g-enc-field', 'C12', D, ('err = en.WriteUint64(z.LineDataPointer)', 'err = en.WriteUint64(z.Pointer)'))
bug('c12-g-count', 'C12', D, ('	// map header, size 2\n	// write "p"\n	err = en.Append(0x82, 0xa1, 0x70)', '	// map header, size 2\n	// write "p"\n	err = en.Append(0x81, 0xa1, 0x70)'))
bug('c12-g-bool', 'C12', D, ('err = en.WriteBool(z.IsBinary)', 'err = en.WriteBool(!z.IsBinary)'))
bug('c12-g-elem', 'C12', D, ('err = en.WriteUint64(z.LinePointers[za0001])', 'err = en.WriteUint64(z.LinePointers[0])'))
bug('c12-g-decel', 'C12', D, ('z.LinePointers[za0001], err = dc.ReadUint64()', 'z.LinePointers[0], err = dc.ReadUint64()'))

ok('c12-ok-literal', 'C12', W, ('''			bl := &sBlame{}
			bl.Pointer = blamePointerC
			bl.Commit = file.Commit
			bl.IsBinary = file.IsBinary
			bl.LinePointers = make([]uint64, 0, len(file.Lines))
''', '''			bl := &sBlame{
				Pointer:  blp,
				IsBinary: file.IsBinary,
				Commit:   file.Commit,
			}
'''))
ok('c12-ok-index', 'C12', W, ('bl.LinePointers = make([]uint64, 0, len(file.Lines))', 'bl.LinePointers = make([]uint64, len(file.Lines))'), ('for _, l := range file.Lines {', 'for i, l := range file.Lines {'), ('					bl.LinePointers = append(bl.LinePointers, lp)\n					continue', '					bl.LinePointers[i] = lp\n					continue'), ('				bl.LinePointers = append(bl.LinePointers, lp)\n			}', '				bl.LinePointers[i] = lp\n			}'))
ok('c12-ok-local-list', 'C12', W, ('			bl.LinePointers = make([]uint64, 0, len(file.Lines))\n', '			var lps []uint64\n'), ('					bl.LinePointers = append(bl.LinePointers, lp)\n					continue', '					lps = append(lps, lp)\n					continue'), ('				bl.LinePointers = append(bl.LinePointers, lp)\n			}\n', '				lps = append(lps, lp)\n			}\n			bl.LinePointers = lps\n'))
ok('c12-ok-linehelper', 'C12', W, ('''				dp := xxhash.Sum64(l.Line)
				if ok := lineData[dp]; !ok {
					ld := &sLineData{
						Pointer: dp,
						Data:    l.Line}
					err := lineDataWr.Write(ld)
					if err != nil {
						return err
					}
					lineData[dp] = true
				}
''', '''				dp, err := s.writeData(lineDataWr, lineData, l.Line)
				if err != nil {
					return err
				}
'''), ('				err := linesWr.Write(l2)', '				err = linesWr.Write(l2)'), ('func writeFileAtomic(', '''func (s *CheckpointWriter) writeData(wr *msgWriter, seen map[uint64]bool, b []byte) (uint64, error) {
	dp := xxhash.Sum64(b)
	if seen[dp] {
		return dp, nil
	}
	seen[dp] = true
	return dp, wr.Write(&sLineData{Pointer: dp, Data: b})
}

func writeFileAtomic('''))
ok('c12-ok-lenid', 'C12', W, ('				linePointerC++\n				lp := linePointerC\n				linePointers[l] = lp\n', '				lp := uint64(len(linePointers)) + 1\n				linePointers[l] = lp\n'), ('	linePointerC := uint64(0)\n', ''))
ok('c12-ok-else', 'C12', W, ('''		if len(commit) == 0 {
			// keep commits without files, blame pointers start from 1
			writeRepoRow(ch, "", 0)
		}

		for fp''', '''		if len(commit) == 0 {
			// keep commits without files, blame pointers start from 1
			writeRepoRow(ch, "", 0)
			continue
		}

		for fp'''))
ok('c12-ok-lookup0', 'C12', W, ('if blp, ok := blamePointers[file]; ok {', 'if blp := blamePointers[file]; blp != 0 {'))
ok('c12-ok-r-files', 'C12', R, ('''			if _, ok := repo[obj.Commit]; !ok {
				repo[obj.Commit] = map[string]*incblame.Blame{}
			}
''', '''			files := repo[obj.Commit]
			if files == nil {
				files = map[string]*incblame.Blame{}
				repo[obj.Commit] = files
			}
'''), ('repo[obj.Commit][obj.Path] = bl', 'files[obj.Path] = bl'))
ok('c12-ok-r-index', 'C12', R, ('			for _, lp := range obj.LinePointers {\n', '			bl.Lines = make([]*incblame.Line, len(obj.LinePointers))\n			for i, lp := range obj.LinePointers {\n'), ('bl.Lines = append(bl.Lines, line)', 'bl.Lines[i] = line'))
ok('c12-ok-r-literal', 'C12', R, ('''			line := &incblame.Line{}
			line.Commit = obj.Commit
''', ''), ('''			line.Line = v
			lines[obj.Pointer] = line
''', '''			lines[obj.Pointer] = &incblame.Line{Line: v, Commit: obj.Commit}
'''))
ok('c12-ok-r-value', 'C12', R, ('			obj := &disk.Line{}\n			err := linesR.Read(obj)', '			var obj disk.Line\n			err := linesR.Read(&obj)'))
ok('c12-ok-r-hoist-line', 'C12', R, ('		for {\n			obj := &disk.Line{}\n', '		obj := &disk.Line{}\n		for {\n'))
ok('c12-ok-r-loopfn', 'C12', R, ('''		for {
			obj := &disk.LineData{}
			err := lineDataR.Read(obj)
			if err != nil {
				if msgIsEOF(err) {
					break
				}
				return nil, err
			}
			lineData[obj.Pointer] = obj.Data
		}
''', '''		for {
			obj, err := readLineData(lineDataR)
			if err != nil {
				return nil, err
			}
			if obj == nil {
				break
			}
			lineData[obj.Pointer] = obj.Data
		}
'''), ('func msgIsEOF(', '''func readLineData(r *msgReader) (*disk.LineData, error) {
	obj := &disk.LineData{}
	err := r.Read(obj)
	if err == nil {
		return obj, nil
	}
	if msgIsEOF(err) {
		return nil, nil
	}
	return nil, err
}

func msgIsEOF('''))
ok('c12-ok-r-first-row', 'C12', R, ('			if obj.BlamePointer == 0 {\n				// commit without files\n				continue\n			}\n			bl, ok', '			if obj.BlamePointer < 1 {\n				// commit without files\n				continue\n			}\n			bl, ok'))
