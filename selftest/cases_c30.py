A='ripsrc/history3/incblame/apply.go'; IP='ripsrc/history3/incblame/parse.go'; ML='ripsrc/history3/incblame/maxline.go'; HP='ripsrc/history3/process/parser/parser.go'; PG='ripsrc/parentsgraph/parentsp/parser.go'; CM='ripsrc/commitmeta/commitmeta.go'
bug('c30-less','C30',ML,('100 * mb','10 * mb'))
bug('c30-nobuf','C30',A,('		scanner.Buffer(nil, maxLine)\n',''))
bug('c30-condbuf','C30',A,('		scanner.Buffer(nil, maxLine)\n','		if len(h.Data) > 1000000 {\n			scanner.Buffer(nil, maxLine)\n		}\n'))
bug('c30-cm','C30',CM,('	scanner.Buffer(nil, maxLine)\n',''))
bug('c30-cmerr','C30',CM,('	if err := scanner.Err(); err != nil {\n		return err\n	}\n',''))
bug('c30-histup','C30',HP,('const maxLine = 100 * mb','const maxLine = 1000 * mb'))
bug('c30-apperr','C30',A,('		if err := scanner.Err(); err != nil {\n			rerr(err)\n		}\n','		if err := scanner.Err(); err != nil && len(res) == 0 {\n			rerr(err)\n		}\n'))
bug('c30-parseerr','C30',IP,('	if err := scanner.Err(); err != nil {\n		panic(err)\n	}\n','	if err := scanner.Err(); err != nil {\n		p.state = stParseDiff\n	}\n'))
bug('c30-pgerr','C30',PG,('		return res, err\n','		return res, nil\n'))
bug('c30-skiplong','C30',HP,('		s.line(line)\n','		if len(line) > 10*mb {\n			continue\n		}\n		s.line(line)\n'))
bug('c30-trunc','C30',IP,('	p.currentLines = append(p.currentLines, b...)\n','	if len(b) > 4096 {\n		b = b[:4096]\n	}\n	p.currentLines = append(p.currentLines, b...)\n'))
bug('c30-bufswap','C30',A,('scanner.Buffer(nil, maxLine)','scanner.Buffer(make([]byte, 0, 4096), len(h.Data))'))
bug('c30-limr','C30',CM,('bufio.NewScanner(r)','bufio.NewScanner(io.LimitReader(r, 1<<32))'))
bug('c30-toolong','C30',CM,('	if err := scanner.Err(); err != nil {\n','	if err := scanner.Err(); err != nil && err != bufio.ErrTooLong {\n'))
ok('c30-helper','C30',A,('		scanner := bufio.NewScanner(bytes.NewReader(h.Data))\n		scanner.Buffer(nil, maxLine)\n','		scanner := newLineScanner(h.Data)\n'),('func copyBytes','func newLineScanner(b []byte) *bufio.Scanner {\n	s := bufio.NewScanner(bytes.NewReader(b))\n	s.Buffer(make([]byte, 0, 65536), maxLine)\n	return s\n}\n\nfunc copyBytes'))
ok('c30-wrap','C30',CM,('	if err := scanner.Err(); err != nil {\n		return err\n	}\n','	err = scanner.Err()\n	if err != nil {\n		return fmt.Errorf("could not read git log: %v", err)\n	}\n'))
ok('c30-last','C30',PG,('	if err := scanner.Err(); err != nil {\n		return res, err\n	}\n	return res, nil\n','	return res, scanner.Err()\n'))
ok('c30-split','C30',PG,('	scanner.Buffer(nil, maxLine)\n','	scanner.Buffer(nil, maxLine)\n	scanner.Split(bufio.ScanLines)\n'))
ok('c30-long','C30',HP,('		s.line(line)\n','		if len(line) > 50*mb {\n			return fmt.Errorf("line too long: %v", len(line))\n		}\n		s.line(line)\n'))
ok('c30-up','C30',ML,('100 * mb','200 * mb'))
