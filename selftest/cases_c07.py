A='ripsrc/history3/incblame/apply.go'; IP='ripsrc/history3/incblame/parse.go'; HP='ripsrc/history3/process/parser/parser.go'; R='ripsrc/history3/process/repo/reader.go'; PG='ripsrc/parentsgraph/parentsp/parser.go'; CM='ripsrc/commitmeta/commitmeta.go'; P='ripsrc/history3/process/process.go'
bug('c07-addline','C07',A,('addLine(copyBytes(data))','addLine(data)'))
bug('c07-copybytes','C07',A,('	res := make([]byte, len(b))\n	copy(res, b)\n	return res\n','	if len(b) == 0 {\n		return nil\n	}\n	return b[:len(b):len(b)]\n'))
bug('c07-startdiff','C07',HP,('	s.diff = []byte{}\n','	s.diff = s.diff[:0]\n'))
bug('c07-startdiff2','C07',HP,('	s.diff = []byte{}\n	s.diff = append(s.diff, b...)\n','	s.diff = b\n'))
bug('c07-curlines','C07',IP,('	p.currentLines = nil\n','	p.currentLines = p.currentLines[:0]\n'))
bug('c07-curlines2','C07',IP,('	p.currentLines = append(p.currentLines, b...)\n','	if p.currentLines == nil {\n		p.currentLines = b\n	} else {\n		p.currentLines = append(p.currentLines, b...)\n	}\n'))
bug('c07-changes','C07',HP,('	s.commit = c\n','	c.Changes = s.commit.Changes[:0]\n	s.commit = c\n'))
bug('c07-decode','C07',R,('		for {\n			obj := &disk.LineData{}\n','		obj := &disk.LineData{}\n		for {\n'))
bug('c07-section','C07',IP,('func (p *parser) parseContext(b []byte) {\n','func (p *parser) parseContext(b []byte) {\n	p.content = b\n'))
bug('c07-prev','C07',PG,('	for scanner.Scan() {\n		line := scanner.Bytes()\n','	var prev []byte\n	for scanner.Scan() {\n		line := scanner.Bytes()\n		if bytes.Equal(line, prev) {\n			continue\n		}\n		prev = line\n'))
bug('c07-contexts','C07',IP,('	p.currentContexts = nil\n','	p.currentContexts = p.currentContexts[:0]\n'),('	p.currentContexts = parseContext(b)\n','	p.currentContexts = append(p.currentContexts, parseContext(b)...)\n'))
bug('c07-keepsplit','C07',PG,('		commit := string(parts[0])\n','		commit := string(parts[0])\n		last = parts[0]\n'),('	scanner := bufio','	var last []byte\n	scanner := bufio'),('	return res, nil\n','	if len(last) == 0 && len(res) > 0 {\n		return res, io.ErrUnexpectedEOF\n	}\n	return res, nil\n'))
ok('c07-append','C07',A,('addLine(copyBytes(data))','addLine(append([]byte(nil), data...))'))
ok('c07-append2','C07',A,('addLine(copyBytes(data))','addLine([]byte(string(data)))'))
ok('c07-append3','C07',A,('addLine(copyBytes(data))','addLine(bytes.Join([][]byte{data}, nil))'))
ok('c07-startdiff3','C07',HP,('	s.diff = []byte{}\n	s.diff = append(s.diff, b...)\n','	s.diff = append(make([]byte, 0, 1024), b...)\n'))
ok('c07-startdiff4','C07',HP,('	s.diff = []byte{}\n	s.diff = append(s.diff, b...)\n	s.diff = append(s.diff, \'\\n\')\n','	s.diff = nil\n	s.addDiffLine(b)\n'),('func (s *Parser) endDiff','func (s *Parser) addDiffLine(b []byte) {\n	s.diff = append(s.diff, b...)\n	s.diff = append(s.diff, 10)\n}\n\nfunc (s *Parser) endDiff'))
ok('c07-decode2','C07',R,('			obj := &disk.LineData{}\n			err := lineDataR.Read(obj)\n','			var obj disk.LineData\n			err := lineDataR.Read(&obj)\n'))
ok('c07-decode3','C07',R,('		for {\n			obj := &disk.Line{}\n','		obj := &disk.Line{}\n		for {\n'))
ok('c07-local','C07',PG,('		line := scanner.Bytes()\n','		line := scanner.Bytes()\n		var first []byte\n		for _, b := range [][]byte{line} {\n			first = b\n		}\n		_ = first\n'))
ok('c07-timing','C07',P,('		s.SlowestCommits = s.SlowestCommits[0:maxSlowestCommits]\n','		n := maxSlowestCommits\n		s.SlowestCommits = s.SlowestCommits[:n]\n'))
ok('c07-idx','C07',HP,('		line := scanner.Bytes()\n		s.line(line)\n','		s.line(scanner.Bytes())\n'))
