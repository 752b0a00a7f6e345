P='ripsrc/history3/process/parser/parser.go'
bug('c01-eof-flush','C01',P,('''	if s.state != stNotStarted {
		s.endCommit()''','''	if s.state == stInDiff {
		s.endCommit()'''))
bug('c01-no-send-before-next','C01',P,('''			s.endCommit()
			s.state = stCommitNext
			s.line(b)''','''			s.state = stCommitNext
			s.line(b)'''))
bug('c01-drop-last-diff','C01',P,('''	if s.state == stInDiff {
		s.endDiff()
	}
''',''))
bug('c01-drop-mid-diff','C01',P,('''			s.endDiff()
			s.startDiff(b)''','''			s.startDiff(b)'''))
bug('c01-skip-long','C01',P,('''			s.diff = append(s.diff, b...)
			s.diff = append(s.diff, '\\n')
		}''','''			if len(b) < 100000 {
			s.diff = append(s.diff, b...)
			s.diff = append(s.diff, '\\n')
			}
		}'''))
bug('c01-index-line','C01',P,('''	case stInDiff:
''','''	case stInDiff:
		if startsWith(b, "index ") {
			return
		}
'''))
bug('c01-nl','C01',P,('''			s.diff = append(s.diff, b...)
			s.diff = append(s.diff, '\\n')
		}''','''			s.diff = append(s.diff, b...)
		}'''))
bug('c01-keep-changes','C01',P,('''	s.commit = c
''','''	s.commit.Hash = c.Hash
	s.commit.MergeDiffFrom = c.MergeDiffFrom
'''))
bug('c01-dup-empty','C01',P,('''			// commit message
			return
		}
		if b[0] == ' ' {''','''			// commit message
			if s.msgEmptyLines > 1 { s.endCommit() }
			return
		}
		if b[0] == ' ' {'''))
bug('c01-skip-empty-commit','C01',P,('''	s.state = stCommitNext
	s.res <- s.commit''','''	s.state = stCommitNext
	if len(s.commit.Changes) == 0 && s.commit.MergeDiffFrom != "" {
		return
	}
	s.res <- s.commit'''))
bug('c01-tab-msg','C01',P,("if b[0] == ' ' {","if b[0] == ' ' || b[0] == 'd' && len(b) > 200 {"))
ok('c01-ok-inline','C01',P,('''			s.diff = append(s.diff, b...)
			s.diff = append(s.diff, '\\n')
		}''','''			s.diff = append(append(s.diff, b...), "\\n"...)
		}'''))
ok('c01-ok-if','C01',P,('''	case stSkipAuthor:
		s.state = stSkippingMessageDiffOrCommitNext
''','''	case stSkipAuthor:
		s.headerDone()
'''),('''func (s *Parser) startDiff(''','''func (s *Parser) headerDone() {
	s.state = stSkippingMessageDiffOrCommitNext
}

func (s *Parser) startDiff('''))
ok('c01-ok-flush','C01',P,('''	s.state = stCommitNext
	s.res <- s.commit''','''	c := s.commit
	s.res <- c
	s.state = stCommitNext'''))
ok('c01-ok-hasprefix','C01',P,('''	return string(b[:len(prefix)]) == prefix''','''	return strings.HasPrefix(string(b), prefix)'''))
ok('c01-ok-loop','C01',P,('''	for scanner.Scan() {
		line := scanner.Bytes()
		s.line(line)
	}
''','''	for {
		if !scanner.Scan() {
			break
		}
		s.line(scanner.Bytes())
	}
'''))
ok('c01-ok-ifchain','C01',P,('''		if len(b) == 0 {
			s.endCommit()
		} else if s.isDiffStart(b) {
			s.endDiff()
			s.startDiff(b)
		} else {
			s.diff = append(s.diff, b...)
			s.diff = append(s.diff, '\\n')
		}''','''		if len(b) == 0 {
			s.endCommit()
			return
		}
		if s.isDiffStart(b) {
			s.endDiff()
			s.startDiff(b)
			return
		}
		s.keep(b)'''),('''func (s *Parser) startDiff(b []byte) {
	s.state = stInDiff
	s.diff = []byte{}
	s.diff = append(s.diff, b...)
	s.diff = append(s.diff, '\\n')
''','''func (s *Parser) keep(b []byte) {
	s.diff = append(s.diff, b...)
	s.diff = append(s.diff, '\\n')
}

func (s *Parser) startDiff(b []byte) {
	s.state = stInDiff
	s.diff = make([]byte, 0, len(b)+1)
	s.keep(b)
'''))
