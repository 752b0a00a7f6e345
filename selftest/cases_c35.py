PP='ripsrc/parentsgraph/parentsp/parser.go'; PG='ripsrc/parentsgraph/parents.go'
P='C35 C14 C08 C30 C21'
SPL='''		var parents []string
		if len(parts[1]) != 0 {
			parents = strings.Split(string(parts[1]), " ")
		}
		res[commit] = parents
'''
bug('c35-two','C35',PP,('strings.Split(string(parts[1]), " ")','strings.SplitN(string(parts[1]), " ", 2)'))
bug('c35-skiproot','C35',PP,('		res[commit] = parents\n','		if len(parents) != 0 {\n			res[commit] = parents\n		}\n'))
bug('c35-emptyparent','C35',PP,('		if len(parts[1]) != 0 {\n			parents = strings.Split(string(parts[1]), " ")\n		}\n','		parents = strings.Split(string(parts[1]), " ")\n'))
bug('c35-first','C35',PP,('		res[commit] = parents\n','		if len(parents) > 2 {\n			parents = parents[:2]\n		}\n		res[commit] = parents\n'))
bug('c35-swap','C35',PP,('		res[commit] = parents\n','		if len(parents) == 2 {\n			parents[0], parents[1] = parents[1], parents[0]\n		}\n		res[commit] = parents\n'))
bug('c35-break','C35',PP,('		res[commit] = parents\n','		res[commit] = parents\n		if len(parents) == 0 {\n			break\n		}\n'))
bug('c35-dedup','C35',PP,('		res[commit] = parents\n','		if _, ok := res[commit]; ok {\n			continue\n		}\n		res[commit] = parents\n		for _, p := range parents {\n			if _, ok := res[p]; !ok {\n				res[p] = nil\n			}\n		}\n'))
bug('c35-cap','C35',PP,('		res[commit] = parents\n','		res[commit] = parents[:len(parents):len(parents)]\n		if len(parents) > 1 && parents[0] == parents[1] {\n			delete(res, commit)\n		}\n'))
bug('c35-order','C35',PG,('	err := s.retrieveParents()\n	if err != nil {\n		return err\n	}\n	s.childrenFromParents()\n','	s.childrenFromParents()\n	err := s.retrieveParents()\n	if err != nil {\n		return err\n	}\n'))
bug('c35-keep','C35',PG,('	s.Parents = res\n','	if s.Parents == nil {\n		s.Parents = res\n	}\n'))
bug('c35-nochildren','C35',PG,('	s.childrenFromParents()\n	return nil\n','	if len(s.Parents) > 1 {\n		s.childrenFromParents()\n	}\n	return nil\n'))
bug('c35-lastchild','C35',PG,('		for _, p := range parents {\n			s.Children[p] = append','		for i, p := range parents {\n			if i > 1 {\n				break\n			}\n			s.Children[p] = append'))
ok('ok-c35-fields',P,PP,(SPL,'		res[commit] = strings.Fields(string(parts[1]))\n'))
ok('ok-c35-text',P,PP,('		line := scanner.Bytes()\n		parts := bytes.Split(line, []byte("@"))\n','		parts := strings.SplitN(scanner.Text(), "@", 2)\n'),('string(parts[0])','parts[0]'),('string(parts[1])','parts[1]'),('	"bytes"\n',''))
ok('ok-c35-index',P,PP,('		parts := bytes.Split(line, []byte("@"))\n','		at := bytes.IndexByte(line, \'@\')\n'),('string(parts[0])','string(line[:at])'),('		if len(parts[1]) != 0 {\n			parents = strings.Split(string(parts[1]), " ")\n','		if rest := string(line[at+1:]); rest != "" {\n			parents = strings.Split(rest, " ")\n'))
ok('ok-c35-loop',P,PP,('			parents = strings.Split(string(parts[1]), " ")\n','			for _, p := range bytes.Split(parts[1], []byte(" ")) {\n				parents = append(parents, string(p))\n			}\n'),('	"strings"\n',''))
ok('ok-c35-helper',P,PP,('		parts := bytes.Split(line, []byte("@"))\n\n		commit := string(parts[0])\n'+SPL,'		commit, parents := parseLine(line)\n		res[commit] = parents\n'),('func (s *Parser) Run','func parseLine(line []byte) (commit string, parents []string) {\n	parts := bytes.Split(line, []byte("@"))\n	commit = string(parts[0])\n	if len(parts[1]) == 0 {\n		return\n	}\n	return commit, strings.Split(string(parts[1]), " ")\n}\n\nfunc (s *Parser) Run'))
ok('ok-c35-early',P,PP,(SPL,'		if len(parts[1]) == 0 {\n			res[commit] = nil\n			continue\n		}\n		res[commit] = strings.Split(string(parts[1]), " ")\n'))
ok('ok-c35-inline',P,PG,('	s.Parents = res\n	return nil\n','	s.set(res)\n	return nil\n'),('	err := s.retrieveParents()\n	if err != nil {\n		return err\n	}\n	s.childrenFromParents()\n	return nil\n','	return s.retrieveParents()\n'),('	s.Parents = parents\n	s.childrenFromParents()\n','	s.set(parents)\n'),('func (s *Graph) childrenFrom','func (s *Graph) set(parents map[string][]string) {\n	s.Parents = parents\n	s.childrenFromParents()\n}\n\nfunc (s *Graph) childrenFrom'))
ok('ok-c35-cut',P,PP,('		parts := bytes.Split(line, []byte("@"))\n','		sha, rest, _ := strings.Cut(string(line), "@")\n'),('string(parts[0])','sha'),('		if len(parts[1]) != 0 {\n			parents = strings.Split(string(parts[1]), " ")\n','		if rest != "" {\n			parents = strings.Split(rest, " ")\n'),('	"bytes"\n',''))
