F = "ripsrc/history3/incblame/parse.go"
LINE = '''			for _, s := range p.wantedMeta {
				if startsWith(b, s+" ") {
					p.preMeta[s] = string(b[len(s)+1:])
				}
			}
'''
PRE = '''		if !startsWith(b, "---") {
''' + LINE + '''		} else {
			p.state = stNextIsCurrName

		}
'''
CTX = '''		if len(b) <= 2 {
			return
		}
		if string(b[0:2]) == "@@" {
			p.parseContext(b)
			return
		}
	case'''
IN = '''	if string(b[0:2]) == "@@" {
		p.finishHunk()
		p.parseContext(b)
		return
	}
	p.currentLines = append(p.currentLines, b...)
	p.currentLines = append(p.currentLines, "\\n"...)
'''
FIN = '''	if len(p.currentContexts) != 0 {
		h := Hunk{}
		h.Locations = p.currentContexts
		h.Data = p.currentLines

		p.res = append(p.res, h)

	}

	p.currentContexts = nil
	p.currentLines = nil
'''
bug("c31-no-rename-to", "C31", F, ("metaRenameFrom, metaRenameTo, ", "metaRenameFrom, "))
bug("c31-no-binary", "C31", F, ("metaDeletedFile, metaBinaryFiles}", "metaDeletedFile}"))
bug("c31-no-new", "C31", F, ("metaNewFile, metaDel", "metaDel"))
bug("c31-value-offset", "C31", F, ("b[len(s)+1:]", "b[len(s):]"))
bug("c31-value-field", "C31", F, ("string(b[len(s)+1:])", 'string(bytes.Split(b[len(s)+1:], []byte(" "))[0])'))
bug("c31-value-trim", "C31", F, ("string(b[len(s)+1:])", 'string(bytes.TrimSpace(b[len(s)+1:]))'))
bug("c31-del-hunks", "C31", F, ('		p.diff.Path = ""\n		p.diff.Hunks = nil\n', '		p.diff.Path = ""\n'))
bug("c31-del-path", "C31", F, ('		p.diff.Path = ""\n', ''))
bug("c31-new-prev", "C31", F, ('		p.diff.PathPrev = ""\n', '		p.diff.Path = ""\n'))
bug("c31-rename-swapped", "C31", F, ('p.diff.PathPrev = p.preMeta[metaRenameFrom]', 'p.diff.PathPrev = p.preMeta[metaRenameTo]'))
bug("c31-rename-path", "C31", F, ('		p.diff.Path = p.preMeta[metaRenameTo]\n', ''))
bug("c31-no-last", "C31", F, ("	p.finishHunk()\n\n	p.diff.Hunks", "	p.diff.Hunks"))
bug("c31-hunks-early", "C31", F, ("	p.finishHunk()\n\n	p.diff.Hunks = p.res\n", "	p.diff.Hunks = p.res\n	p.finishHunk()\n"))
bug("c31-no-finish", "C31", F, ("		p.finishHunk()\n		p.parseContext(b)", "		p.parseContext(b)"))
bug("c31-finish-late", "C31", F, ("		p.finishHunk()\n		p.parseContext(b)", "		p.parseContext(b)\n		p.finishHunk()"))
bug("c31-lines-kept", "C31", F, ("	p.currentContexts = nil\n	p.currentLines = nil\n", "	p.currentContexts = nil\n"))
bug("c31-lines-reset", "C31", F, ("	p.currentLines = nil\n", "	p.currentLines = p.currentLines[:0]\n"))
bug("c31-single-location", "C31", F, ("if len(p.currentContexts) != 0 {", "if len(p.currentContexts) == 2 {"))
bug("c31-single-at", "C31", F, ('	if string(b[0:2]) == "@@" {\n		p.finishHunk', '	if b[0] == \'@\' && b[1] == \'@\' && b[2] == \' \' {\n		p.finishHunk'))
bug("c31-first-three-at", "C31", F, ('		if string(b[0:2]) == "@@" {\n			p.parse', '		if startsWith(b, "@@ ") {\n			p.parse'))
bug("c31-header-inside", "C31", F, ('	if string(b[0:2]) == "@@" {\n		p.finishHunk', '	if bytes.Contains(b, []byte("@@")) {\n		p.finishHunk'))
bug("c31-header-trim", "C31", F, ('	if string(b[0:2]) == "@@" {\n		p.finishHunk', '	if bytes.HasPrefix(bytes.TrimSpace(b), []byte("@@")) {\n		p.finishHunk'))
bug("c31-no-newline", "C31", F, ('	p.currentLines = append(p.currentLines, "\\n"...)\n', ''))
bug("c31-newline-first", "C31", F, ('	p.currentLines = append(p.currentLines, b...)\n	p.currentLines = append(p.currentLines, "\\n"...)\n', '	p.currentLines = append(p.currentLines, "\\n"...)\n	p.currentLines = append(p.currentLines, b...)\n'))
bug("c31-skip-noeol", "C31", F, ('	p.currentLines = append(p.currentLines, b...)\n', '	if b[0] == \'\\\\\' {\n		return\n	}\n	p.currentLines = append(p.currentLines, b...)\n'))
bug("c31-skip-minus", "C31", F, ('	p.currentLines = append(p.currentLines, b...)\n', '	if startsWith(b, "---") {\n		return\n	}\n	p.currentLines = append(p.currentLines, b...)\n'))
bug("c31-meta-anywhere", "C31", F, ("func (p *parser) line(b []byte) {\n", "func (p *parser) line(b []byte) {\n	if startsWith(b, metaBinaryFiles) || startsWith(b, \"-\"+metaRenameFrom) {\n		p.preMeta[metaBinaryFiles] = \"x\"\n	}\n"))
ok("c31-meta-to-hunks", "C31", F, ("			p.state = stNextIsCurrName\n", "			p.state = stNextIsContext\n"), (CTX, CTX.replace("		if string", "		" + LINE.strip() .replace("b, s", "b[1:], s") + "\n		if string")))
ok("c31-minus-two", "C31", F, (PRE, PRE.replace('"---"', '"--"')), ("	case stNextIsCurrName:\n		p.state = stNextIsContext\n", "	case stNextIsCurrName:\n		p.state = stInPatchLines\n"))
bug("c31-rename-once", "C31", F, ('if p.preMeta[metaRenameFrom] != "" {', 'if p.preMeta[metaRenameFrom] != "" && !p.diff.IsBinary && len(p.res) > 0 {'))
bug("c31-binary-no-hunks", "C31", F, ('if p.preMeta[metaBinaryFiles] != "" {', 'if len(p.res) == 0 {'))
bug("c31-binary-git-only", "C31", F, ('const metaBinaryFiles = "Binary files"', 'const metaBinaryFiles = "Binary files a/"'))
bug("c31-deleted-mode", "C31", F, ('const metaDeletedFile = "deleted file"', 'const metaDeletedFile = "deleted file mode 100644,"'))
bug("c31-alias", "C31", F, ("		h.Locations = p.currentContexts\n", "		h.Locations = p.currentContexts[:1]\n"))
bug("c31-prepend", "C31", F, ("		p.res = append(p.res, h)\n", "		p.res = append([]Hunk{h}, p.res...)\n"))
bug("c31-stop-early", "C31", F, ("		p.line(scanner.Bytes())\n", "		p.line(scanner.Bytes())\n		if p.preMeta[metaRenameTo] != \"\" {\n			break\n		}\n"))
bug("c31-swap", "C31", F, ("p.diff.PathPrev, p.diff.Path, err =", "p.diff.Path, p.diff.PathPrev, err ="))

ok("c31-hasprefix", "C31", F, (PRE, PRE.replace('startsWith(b, "---")', 'bytes.HasPrefix(b, []byte("---"))')))
ok("c31-hasprefix2", "C31", F, ('	if string(b[0:2]) == "@@" {\n		p.finishHunk', '	if bytes.HasPrefix(b, []byte("@@")) {\n		p.finishHunk'))
ok("c31-bytes", "C31", F, ('	if string(b[0:2]) == "@@" {\n		p.finishHunk', '	if b[0] == \'@\' && b[1] == \'@\' {\n		p.finishHunk'))
ok("c31-early-return", "C31", F, (FIN, '''	defer func() {
		p.currentContexts, p.currentLines = nil, nil
	}()
	if len(p.currentContexts) == 0 {
		return
	}
	p.res = append(p.res, Hunk{Locations: p.currentContexts, Data: p.currentLines})
'''))
ok("c31-one-append", "C31", F, ('	p.currentLines = append(p.currentLines, "\\n"...)\n', "	p.currentLines = append(p.currentLines, '\\n')\n"))
ok("c31-else", "C31", F, (IN, '''	if string(b[0:2]) != "@@" {
		p.currentLines = append(p.currentLines, b...)
		p.currentLines = append(p.currentLines, "\\n"...)
	} else {
		p.finishHunk()
		p.parseContext(b)
	}
'''))
ok("c31-return-early-pre", "C31", F, (PRE, '''		if startsWith(b, "---") {
			p.state = stNextIsCurrName
			return
		}
		p.metaLine(b)
'''), ("func extractName", '''func (p *parser) metaLine(b []byte) {
	for _, name := range p.wantedMeta {
		prefix := name + " "
		if !startsWith(b, prefix) {
			continue
		}
		p.preMeta[name] = string(b[len(prefix):])
		break
	}
}

func extractName'''))
ok("c31-has", "C31", F, ('	if p.preMeta[metaBinaryFiles] != "" {\n		p.diff.IsBinary = true\n	}\n', '	_, p.diff.IsBinary = p.preMeta[metaBinaryFiles]\n'))
ok("c31-reorder", "C31", F, ('	if p.preMeta[metaBinaryFiles] != "" {\n		p.diff.IsBinary = true\n	}\n', ''), ('	if p.preMeta[metaNewFile]', '	if p.preMeta[metaBinaryFiles] != "" {\n		p.diff.IsBinary = true\n	}\n\n	if p.preMeta[metaNewFile]'))
ok("c31-trimprefix", "C31", F, ("				if startsWith(b, s+\" \") {\n					p.preMeta[s] = string(b[len(s)+1:])\n				}\n", "				if v := strings.TrimPrefix(string(b), s+\" \"); v != string(b) {\n					p.preMeta[s] = v\n				}\n"), ('	"fmt"\n', '	"fmt"\n	"strings"\n'))
ok("c31-ifs", "C31", F, (CTX, '''		if len(b) > 2 && b[0] == '@' && b[1] == '@' {
			p.parseContext(b)
		}
	case'''))
ok("c31-int-state", "C31", F, ('	stParseDiff      = "stParseDiff"\n	stParsingPreMeta = "stParsingPreMeta"\n	stNextIsCurrName = "stNextIsCurrName"\n	stNextIsContext  = "stNextIsContext"\n	stInPatchLines   = "stInPatchLines"\n', '	stParseDiff = iota\n	stParsingPreMeta\n	stNextIsCurrName\n	stNextIsContext\n	stInPatchLines\n'), ("	state   string\n", "	state   int\n"))
ok("c31-plain-func", "C31", F, ("	p := newParser(content)\n	return p.Parse()\n", "	return newParser(content).Parse()\n"), ("	res = p.diff\n\n	return\n", "	return p.diff\n"))
ok("c31-bin-cond", "C31", F, ('	if p.preMeta[metaBinaryFiles] != "" {\n		p.diff.IsBinary = true\n	}\n', '	p.diff.IsBinary = p.preMeta[metaBinaryFiles] != ""\n'))
bug("c31-bin-inv", "C31", F, ('	if p.preMeta[metaBinaryFiles] != "" {\n		p.diff.IsBinary = true\n	}\n', '	p.diff.IsBinary = p.preMeta[metaBinaryFiles] == ""\n'))
bug("c31-panic-new", "C31", F, ('		p.diff.PathPrev = ""\n', '		p.diff.PathPrev = ""\n		if p.preMeta[metaBinaryFiles] != "" {\n			panic("new binary file")\n		}\n'))
