M='ripsrc/commitmeta/commitmeta.go'
bug('c24-email-committer','C24',M,('!Author: %ae','!Author: %ce'))
bug('c24-name-mapped','C24',M,('!AName: %an','!AName: %aN'))
bug('c24-date-committer','C24',M,('!Date: %aI','!Date: %cI'))
bug('c24-swap-fields','C24',M,('p.commit.CommitterEmail = string(buf[len(committerPrefix):])','p.commit.AuthorEmail = string(buf[len(committerPrefix):])'))
bug('c24-cut-len','C24',M,('p.commit.CommitterName = string(buf[len(committerNamePrefix):])','p.commit.CommitterName = string(buf[len(authorNamePrefix)+1:])'))
bug('c24-msg-colon','C24',M,('p.commit.Message = string(buf[len(messagePrefix):])','p.commit.Message = strings.SplitN(string(buf[len(messagePrefix):]), ": ", 2)[0]'))
bug('c24-msg-empty','C25',M,('				p.commit.Message = string(buf[len(messagePrefix):])\n				p.state = parserStateFiles\n','				msg := string(buf[len(messagePrefix):])\n				if msg != "" {\n					p.commit.Message = msg\n					p.state = parserStateFiles\n				}\n'))
bug('c24-msg-state','C24',M,('messagePrefix       = []byte("!Message: ")','messagePrefix       = []byte("!Message:")'))
bug('c24-parents-two','C24',M,('strings.Split(parents, " ")','strings.SplitN(parents, " ", 2)'))
bug('c24-parents-first','C24',M,('p.commit.Parents = strings.Split(parents, " ")','p.commit.Parents = strings.Split(parents, " ")[:1]'))
bug('c24-email-brackets','C24',M,('p.commit.AuthorEmail = string(buf[len(authorPrefix):])','p.commit.AuthorEmail = parseEmail("<" + string(buf[len(authorPrefix):]) + ">")'))
bug('c24-trim-name','C24',M,('p.commit.AuthorName = string(buf[len(authorNamePrefix):])','p.commit.AuthorName = strings.Trim(string(buf[len(authorNamePrefix):]), "<>[]")+""'),('"strings"','"strings"'))
bug('c24-ordinal-twice','C24',M,('				p.commit.Message = string(buf','				p.ordinal++\n				p.commit.Message = string(buf'))
bug('c24-ordinal-merge','C24',M,('					p.commit.Parents = strings.Split(parents, " ")\n','					p.commit.Parents = strings.Split(parents, " ")\n					if len(p.commit.Parents) > 1 {\n						p.commit.Ordinal++\n					}\n'))
bug('c24-ordinal-limit','C24',M,('				p.ordinal++\n','				if p.total < 100000 {\n					p.ordinal++\n				}\n'))
bug('c24-last','C24',M,('	if parser.commit != nil && parser.commit.SHA != "" {','	if parser.commit != nil && len(parser.commit.Files) > 0 {'))
bug('c24-prev-empty','C24',M,('				if p.commit != nil && p.commit.SHA != "" { // because','				if p.commit != nil && p.commit.Message != "" { // because'))
bug('c24-total','C24',M,('p.limit > 0 && p.total == p.limit','p.total == 1000000'))
bug('c24-inherit','C24',M,('				if p.commit != nil && p.commit.SHA != "" { // because','				var prev []string\n				if p.commit != nil {\n					prev = p.commit.Parents\n				}\n				if p.commit != nil && p.commit.SHA != "" { // because'),('				p.commit = &Commit{\n','				p.commit = &Commit{\n					Parents: prev,\n'))
bug('c24-state-keep','C24',M,('			p.state = parserStateNumStats\n','			p.state = parserStateDiff\n'),('			if line[0:1] == "!" {','			if line[0:1] == "!" && p.commit == nil {'))
bug('c24-header-in-body','C24',M,('			if line[0:1] == "!" {','			if strings.HasPrefix(line, "!SHA:") && len(p.commit.Parents) < 2 {'))
bug('c24-authorfallback','C24',M,('				p.commit.AuthorEmail = string(buf[len(authorPrefix):])\n','				p.commit.AuthorEmail = string(buf[len(authorPrefix):])\n				if p.commit.AuthorEmail == "" {\n					p.commit.AuthorEmail = p.commit.CommitterEmail\n				}\n'))
bug('c24-date-layout','C24',M,('time.Parse(time.RFC3339, d)','time.Parse("2006-01-02T15:04:05", d[:19])'))
ok('c24-ok-const','C24',M,('commitPrefix        = []byte("!SHA: ")','commitPrefix        = []byte("!Commit: ")'),('!SHA: %H','!Commit: %H'))
ok('c24-ok-order','C24',M,('!Author: %ae%n!AName: %an%n','!AName: %an%n!Author: %ae%n'))
ok('c24-ok-trimprefix','C24',M,('p.commit.AuthorEmail = string(buf[len(authorPrefix):])','p.commit.AuthorEmail = string(bytes.TrimPrefix(buf, authorPrefix))'))
ok('c24-ok-helper','C24',M,('				p.commit.AuthorName = string(buf[len(authorNamePrefix):])\n','				p.setAuthorName(buf)\n'),('func (p *parser) parse(','func (p *parser) setAuthorName(buf []byte) {\n	c := p.commit\n	c.AuthorName = string(buf[len(authorNamePrefix):])\n}\n\nfunc (p *parser) parse('))
ok('c24-ok-header-fn','C24',M,('			if bytes.HasPrefix(buf, authorPrefix) {\n				p.commit.AuthorEmail = string(buf[len(authorPrefix):])\n				return true, nil\n			}\n','			if v, ok := cutPrefix(buf, authorPrefix); ok {\n				p.commit.AuthorEmail = v\n				return true, nil\n			}\n'),('func (p *parser) parse(','func cutPrefix(b, pre []byte) (string, bool) {\n	if !bytes.HasPrefix(b, pre) {\n		return "", false\n	}\n	return string(b[len(pre):]), true\n}\n\nfunc (p *parser) parse('))
ok('c24-ok-table','C24',M,('''			if bytes.HasPrefix(buf, authorPrefix) {
				p.commit.AuthorEmail = string(buf[len(authorPrefix):])
				return true, nil
			}
			if bytes.HasPrefix(buf, authorNamePrefix) {
				p.commit.AuthorName = string(buf[len(authorNamePrefix):])
				return true, nil
			}
''','''			for _, h := range []struct {
				prefix []byte
				dst    *string
			}{{authorPrefix, &p.commit.AuthorEmail}, {authorNamePrefix, &p.commit.AuthorName}} {
				if bytes.HasPrefix(buf, h.prefix) {
					*h.dst = string(buf[len(h.prefix):])
					return true, nil
				}
			}
'''))
ok('c24-ok-new','C24',M,('				p.commit = &Commit{\n','				c := &Commit{\n'),('					//Previous: parentCommit,\n				}\n','				}\n				p.commit = c\n'))
ok('c24-ok-switch','C24',M,('''			if bytes.HasPrefix(buf, committerPrefix) {
				p.commit.CommitterEmail = string(buf[len(committerPrefix):])
				return true, nil
			}
			if bytes.HasPrefix(buf, committerNamePrefix) {
				p.commit.CommitterName = string(buf[len(committerNamePrefix):])
				return true, nil
			}
''','''			switch {
			case strings.HasPrefix(line, "!Committer: "):
				p.commit.CommitterEmail = line[12:]
				return true, nil
			case strings.HasPrefix(line, "!CName: "):
				_, v, _ := strings.Cut(line, ": ")
				p.commit.CommitterName = v
				return true, nil
			}
'''))
ok('c24-ok-total','C24',M,('				p.total++\n				return true, nil','				p.total += 1\n				return true, nil'))
ok('c24-ok-bytes','C24',M,('parser.parse(scanner.Text())','parser.parse(string(scanner.Bytes()))'))
ok('c24-ok-flush','C24',M,('''				if p.commit != nil && p.commit.SHA != "" { // because we send when we detect the next commit
					//parentCommit = p.commit
					p.commits <- *p.commit
					p.commit = nil
				}
''','''				p.flush()
'''),('	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit\n		res <- *parser.commit\n	}\n','	parser.flush()\n'),('func (p *parser) parse(','func (p *parser) flush() {\n	if p.commit == nil {\n		return\n	}\n	p.commits <- *p.commit\n	p.commit = nil\n}\n\nfunc (p *parser) parse('))

bug('c25-t-added','C25',M,('	case "A":\n','	case "A", "T":\n'),('"MM", "T":','"MM":'))
bug('c25-d-modified','C25',M,('	case "M", "R", "C", "MM", "T":','	case "M", "R", "C", "MM", "T", "U":'),('	case "D":\n		return GitFileCommitStatusRemoved\n',''),('"T", "U":','"T", "D":'))
bug('c25-rename-new-modified','C25',M,('						Status:      GitFileCommitStatusAdded,\n						Filename:    toFn,','						Status:      GitFileCommitStatusModified,\n						Filename:    toFn,'))
bug('c25-rename-old','C25',M,('						Status:      GitFileCommitStatusRemoved,\n						Filename:    fromFn,\n						Renamed:     true,\n						RenamedFrom: fromFn,\n						RenamedTo:   toFn,','						Status:      GitFileCommitStatusRemoved,\n						Filename:    fromFn,\n						Renamed:     true,\n						RenamedFrom: toFn,\n						RenamedTo:   fromFn,'))
bug('c25-rename-100','C25',M,('bytes.HasPrefix(action, removePrefix)','bytes.HasPrefix(action, removePrefix) && !bytes.Equal(action, []byte("R100"))'))
bug('c25-copy-no-source','C25',M,('						CopiedFrom: fromFn,\n','						CopiedFrom: toFn,\n'),('					fromFn := string(paths[0])\n					toFn := string(paths[1])\n					cf','					toFn := string(paths[1])\n					cf'))
bug('c25-copy-mask','C25',M,('copyPrefix          = []byte("C")','copyPrefix          = []byte("C1")'))
bug('c25-adds-dels','C25',M,('file.Additions = int(adds)','file.Additions = int(dels)'),('file.Deletions = int(dels)','file.Deletions = int(adds)'))
bug('c25-binary','C25',M,('if tok[0] == "-" {','if tok[0] == "-" && tok[1] == "0" {'))
bug('c25-oldname','C25',M,('return newfn, oldfn, true','return oldfn, newfn, true'))
bug('c25-oldname2','C25',M,('return s[1], s[0], true','return s[0], s[1], true'))
bug('c25-space','C25',M,('cf := &CommitFile{\n						Filename: fn,','fn = strings.TrimSpace(fn)\n					cf := &CommitFile{\n						Filename: fn,'))
bug('c25-fields','C25',M,('tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)','tok2 := bytes.Split(bytes.Join(bytes.Fields(buf)[4:], space), space)'))
bug('c25-mask-exec','C25',M,('^(100644|100755)$','^(100644)$'))
bug('c25-mask-del','C25',M,('!filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask)','!filenameMask.Match(mask)'))
bug('c25-mask-old','C25',M,('mask := tok1[1]','mask := tok1[0][1:]'))
bug('c25-parse8','C25',M,('strconv.ParseInt(tok[0], 10, 32)','strconv.ParseInt(tok[0], 10, 16)'))
bug('c25-numstat-skip','C25',M,('				} else {\n					adds, _','				} else if !file.Renamed || file.Status != GitFileCommitStatusAdded {\n					adds, _'))
bug('c25-join','C25',M,('newfn := path.Join(match[1], match[3], match[4])','newfn := match[1] + match[3] + match[4]'))
bug('c25-literal','C25',M,('				if p.commit.Files[fn] == nil {\n					// not','				if true {\n					// not'))
bug('c25-special-file','C25',M,('				if len(action) == 1 {\n','				if len(action) == 1 && bytes.HasPrefix(paths[0], []byte(".")) {\n					return true, nil\n				}\n				if len(action) == 1 {\n'))
bug('c25-first-only','C25',M,('					p.commit.Files[fn] = cf\n','					if p.commit.Files[fn] == nil || cf.Status != GitFileCommitStatusModified {\n						p.commit.Files[fn] = cf\n					}\n'))
ok('c25-ok-map','C25',M,('''	switch string(name) {
	case "A":
		return GitFileCommitStatusAdded
	case "D":
		return GitFileCommitStatusRemoved
	case "M", "R", "C", "MM", "T":
		return GitFileCommitStatusModified
	}
''','''	if s, ok := statuses[string(name)]; ok {
		return s
	}
'''),('func toCommitStatus(','var statuses = map[string]CommitStatus{\n	"A": GitFileCommitStatusAdded,\n	"D": GitFileCommitStatusRemoved,\n	"M": GitFileCommitStatusModified,\n	"R": GitFileCommitStatusModified,\n	"C": GitFileCommitStatusModified,\n	"MM": GitFileCommitStatusModified,\n	"T": GitFileCommitStatusModified,\n}\n\nfunc toCommitStatus('))
ok('c25-ok-tab','C25',M,('''				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
				action := tok2[0]
				paths := tok2[1:]
''','''				meta, names, _ := strings.Cut(line, "\\t")
				action := []byte(strings.Split(meta, " ")[4])
				paths := bytes.Split([]byte(names), tab)
'''))
ok('c25-ok-helper','C25',M,('''					cf := &CommitFile{
						Filename: fn,
						Status:   toCommitStatus(action),
					}
					p.commit.Files[fn] = cf
					p.filejobs <- cf
				} else if''','''					p.add(&CommitFile{
						Filename: fn,
						Status:   toCommitStatus(action),
					})
				} else if'''),('func (p *parser) parse(','func (p *parser) add(cf *CommitFile) {\n	p.commit.Files[cf.Filename] = cf\n	p.filejobs <- cf\n}\n\nfunc (p *parser) parse('))
ok('c25-ok-split','C25',M,('tok := regSplit(string(buf), tabSplitter)','tok := strings.Split(line, "\\t")'))
ok('c25-ok-atoi','C25',M,('adds, _ := strconv.ParseInt(tok[0], 10, 32)','adds, _ := strconv.Atoi(tok[0])'))
ok('c25-ok-literal','C25',M,('''				fn := tok[2]
				if p.commit.Files[fn] == nil {
					// not the name of a file that looks like a rename
					fn, _, _ = getFilename(fn)
				}
				file := p.commit.Files[fn]
''','''				fn := tok[2]
				file, ok := p.commit.Files[fn]
				if !ok {
					fn, _, _ = getFilename(fn)
					file = p.commit.Files[fn]
				}
'''))
ok('c25-ok-switch','C25',M,('				if len(action) == 1 {\n','				if l := action[0]; l != \'R\' && l != \'C\' {\n'))
