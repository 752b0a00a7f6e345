I='ripsrc/code_info.go'
F='ripsrc/fileinfo/fileinfo.go'
L='ripsrc/fileinfo/license_enabled.go'
bug('c26-commit-author','C26',I,('		meta := s.commitMeta[line.Commit]\n','		meta := s.commitMeta[bl.Commit]\n'))
bug('c26-record-author','C26',I,('		meta := s.commitMeta[line.Commit]\n','		meta, ok := s.commitMeta[line.Commit]\n		if !ok {\n			meta = res.Commit\n		}\n'))
bug('c26-cache-prev','C26',I,('	var lines []*statsLine\n','	var lines []*statsLine\n	var meta Commit\n	last := ""\n'),('		meta := s.commitMeta[line.Commit]\n','		if line.Commit[:7] != last {\n			meta = s.commitMeta[line.Commit]\n			last = line.Commit[:7]\n		}\n'))
bug('c26-committer','C26',I,('line2.Email = meta.AuthorEmail','line2.Email = meta.CommitterEmail'))
bug('c26-name-swap','C26',I,('line2.Name = meta.AuthorName','line2.Name = meta.Author()'))
bug('c26-date-record','C26',I,('line2.Date = meta.Date','line2.Date = res.Commit.Date'))
bug('c26-sha-short','C26',I,('line2.SHA = line.Commit','line2.SHA = meta.SHA'))
bug('c26-sha-file','C26',I,('line2.SHA = line.Commit','line2.SHA = bl.Commit'))
bug('c26-skip-nil','C26',I,('		meta := s.commitMeta[line.Commit]\n','		meta := s.commitMeta[line.Commit]\n		if meta.SHA == "" {\n			continue\n		}\n'))
bug('c26-skip-empty','C26',I,('	for _, l := range lines {\n		res.Lines','	for _, l := range lines {\n		if l.BlameLine.SHA == "" {\n			continue\n		}\n		res.Lines'))
bug('c26-prepend','C26',I,('		res.Lines = append(res.Lines, l.BlameLine)','		res.Lines = append([]*BlameLine{l.BlameLine}, res.Lines...)'))
bug('c26-from-one','C26',I,('	for _, l := range lines {\n		res.Lines','	for _, l := range lines[:len(lines)-0] {\n		res.Lines'),('	if statcallback.generated {','	if len(lines) > 1 && lines[0].Blank {\n		lines = lines[1:]\n	}\n	if statcallback.generated {'))
bug('c26-shared-line','C26',I,('		line2 := &statsLine{}\n		line2.BlameLine = &BlameLine{}\n','		line2 := &statsLine{}\n		line2.BlameLine = shared\n'),('	var lines []*statsLine\n','	var lines []*statsLine\n	shared := &BlameLine{}\n'))
bug('c26-break','C26',I,('		lines = append(lines, line2)\n','		lines = append(lines, line2)\n		if len(lines) > 20000 {\n			break\n		}\n'))
bug('c26-content-nl','C26',I,('		res = append(res, "\\n"...)','		res = append(res, " "...)'))
bug('c26-content-empty','C26',I,('	for _, l := range bl.Lines {\n		res = append(res, l.Line...)','	for _, l := range bl.Lines {\n		if len(l.Line) == 0 {\n			continue\n		}\n		res = append(res, l.Line...)'))
bug('c26-index','C26',I,('index := int(currentLine) - 1','index := int(currentLine)'))
bug('c26-index0','C26',I,('if index >= 0 && index','if index > 0 && index'))
bug('c26-index-last','C26',I,('index < len(p.lines) {','index < len(p.lines)-1 {'))
bug('c26-class','C26',I,('			l.Comment = true','			l.Comment = true\n			l.Code = true'))
bug('c26-class-swap','C26',I,('			l.Blank = true','			l.Code = true'))
bug('c26-stop','C26',I,('			l.line = nil\n		}\n		return true','			l.line = nil\n		}\n		return index < 40000'))
bug('c26-text','C26',I,('line2.line = line.Line','line2.line = bl.Lines[0].Line'))
bug('c26-filename','C26',I,('		r.Filename = filePath\n','		r.Filename = strings.TrimPrefix(filePath, "./")\n'),('	"regexp"\n','	"regexp"\n	"strings"\n'))
bug('c26-record-commit','C26',I,('		r.Commit = commit\n','		r.Commit = s.commitMeta[blf.Commit]\n'))
bug('c26-meta-merge','C26','ripsrc/commit_info.go',('	s.commitMeta = res\n','	if s.commitMeta == nil {\n		s.commitMeta = res\n	}\n	for k, v := range res {\n		if _, ok := s.commitMeta[k]; !ok {\n			s.commitMeta[k] = v\n		}\n	}\n'))
bug('c26-drop-first','C26',I,('	for _, line := range bl.Lines {\n		meta','	for i, line := range bl.Lines {\n		if i == 0 && len(line.Line) == 0 {\n			continue\n		}\n		meta'))
bug('c33-sloc','C33',I,('res.Sloc = filejob.Code','res.Sloc = filejob.Lines'))
bug('c33-swap','C33',I,('res.Comments = filejob.Comment','res.Comments = filejob.Blank'))
bug('c33-size','C33',I,('res.Size = int64(len(fileBytes))','res.Size = int64(filejob.Bytes)'))
bug('c33-size-trim','C33',I,('res.Size = int64(len(fileBytes))','res.Size = int64(len(fileBytes) - len(lines))'))
bug('c33-lang','C33',I,('		Language: res.Language,\n		Content','		Language: "Go",\n		Content'))
bug('c33-stat-twice','C33',I,('res.Complexity = filejob.Complexity','res.Complexity += filejob.Complexity + filejob.Blank - filejob.Blank'))
bug('c33-name','C33',I,('		Filename: filePath,\n		Language','		Filename: res.Status.String(),\n		Language'))
bug('c22-removed','C22',I,('		if r.Status == GitFileCommitStatusRemoved {','		if r.Status == GitFileCommitStatusRemoved && len(blf.Lines) == 0 {'))
bug('c22-skip-cond','C22',I,('		if skipReason != "" {','		if skipReason != "" && info.License == nil {'))
bug('c22-skip-drop','C22',I,('			r.Skipped = skipReason\n			res = append(res, r)\n','			r.Skipped = skipReason\n			if info.License != nil {\n				res = append(res, r)\n			}\n'))
bug('c22-skip-size','C22',I,('			r.Skipped = skipReason\n','			r.Skipped = skipReason\n			r.Size = int64(len(fileBytes))\n'))
bug('c22-reason-lost','C22',I,('			r.Skipped = skipReason\n','			if r.Language == "" {\n				r.Skipped = skipReason\n			}\n'))
bug('c22-removed-drop','C22',I,('			// no need to run code info\n			res = append(res, r)\n','			// no need to run code info\n			if !blf.IsBinary {\n				res = append(res, r)\n			}\n'))
bug('c22-size-1024','C22',F,('const maxFileSize = 1000000','const maxFileSize = 1024 * 1024'))
bug('c22-size-ge','C22',F,('if fileSize > maxFileSize','if fileSize/1000 > maxFileSize/1000'))
bug('c22-lines','C22',F,('if len(args.Lines) > maxLinePerFile','if len(args.Lines) > maxLinePerFile+1'))
bug('c22-width-first','C22',F,('		if len(line) > maxBytesPerLine {','		if len(line) > maxBytesPerLine && len(args.Lines) > 1 {'))
bug('c22-width-skip','C22',F,('	for _, line := range args.Lines {\n','	for i, line := range args.Lines {\n		if i > 1000 {\n			break\n		}\n'))
bug('c22-width-cap','C22',F,('	for _, line := range args.Lines {\n','	for _, line := range args.Lines[:1] {\n'))
bug('c22-license-first','C22',F,('	if fileSize > maxFileSize {\n		return res, fmt.Sprintf(skipFileSize, fileSize/1000, maxFileSize/1000)\n	}\n\n	if possibleLicense(args.FilePath) {\n		l, err := detect(args.FilePath, args.Content)\n		if err != nil {\n			panic(err)\n		}\n		if l != nil {\n			res.License = l\n			return res, skipLicense\n		}\n	}\n','	if possibleLicense(args.FilePath) {\n		l, err := detect(args.FilePath, args.Content)\n		if err != nil {\n			panic(err)\n		}\n		if l != nil {\n			res.License = l\n			return res, skipLicense\n		}\n	}\n	if fileSize > maxFileSize {\n		return res, fmt.Sprintf(skipFileSize, fileSize/1000, maxFileSize/1000)\n	}\n'))
bug('c22-license-conf','C22',F,('		if l != nil {\n			res.License = l\n			return res, skipLicense\n		}','		if l != nil {\n			res.License = l\n			if l.Confidence > 0.9 {\n				return res, skipLicense\n			}\n		}'))
bug('c22-license-many','C22',L,('			if matches[0].Confidence >= minConfidenceLevel {','			if len(matches) < 100 && matches[0].Confidence >= minConfidenceLevel {'))
bug('c22-cache-base','C22',F,('	s.checkFilePathCache[filePath] = res\n','	s.checkFilePathCache[path.Base(filePath)] = res\n'),('s.checkFilePathCache[filePath]; ok','s.checkFilePathCache[path.Base(filePath)]; ok'),('	"fmt"\n','	"fmt"\n	"path"\n'))
bug('c22-cache-lower','C22',F,('	s.checkFilePathCache[filePath] = res\n','	s.checkFilePathCache[strings.ToLower(filePath)] = res\n'))
bug('c22-cache-empty','C22',F,('	if res, ok := s.checkFilePathCache[filePath]; ok {\n		return res\n	}\n	res := s','	if res, ok := s.checkFilePathCache[filePath]; ok {\n		return res\n	}\n	s.checkFilePathCache[filePath] = ""\n	res := s'))
bug('c22-vendor','C22',F,('strings.HasPrefix(filePath, "src/")','strings.Contains(filePath, "src/")'))
bug('c22-vendor-lost','C22',F,('	if s.isVendored(filePath) {','	if s.isVendored(filePath) && !enry.IsDocumentation(filePath) {'))
bug('c22-dot','C22',F,('	if enry.IsDotFile(filePath) {','	if enry.IsDotFile(filePath) && !strings.Contains(filePath, "/") {'))
bug('c22-reason-swap','C22',F,('	if enry.IsDotFile(filePath) {\n		return skipDotFile','	if enry.IsDotFile(filePath) {\n		return skipConfigFile'))
bug('c22-lang-path','C22',F,('enry.GetLanguage(args.FilePath, args.Content)','enry.GetLanguage(strings.ToLower(args.FilePath), args.Content)'))
bug('c22-lang-unknown','C22',F,('	if res.Language == "" {','	if res.Language == "" && len(args.Content) == 0 {'))
bug('c22-lang-early','C22',F,('	if len(args.Lines) > maxLinePerFile {\n','	res.Language = enry.GetLanguage(args.FilePath, args.Content)\n	if len(args.Lines) > maxLinePerFile {\n'))
bug('c22-info-content','C22',I,('Content: fileBytes, Lines: fileLines','Content: fileBytes[:len(fileBytes)/2], Lines: fileLines'))
bug('c22-info-lines','C22',I,('	for _, l := range bl.Lines {\n		res = append(res, l.Line)\n','	for _, l := range bl.Lines {\n		if l.Commit != bl.Commit {\n			continue\n		}\n		res = append(res, l.Line)\n'))
bug('c22-generated-mark','C22',I,('	if statcallback.generated {','	if statcallback.generated || res.Loc == 0 {'))
ok('c26-ok-inline','C26',I,('		meta := s.commitMeta[line.Commit]\n		line2 := &statsLine{}\n		line2.BlameLine = &BlameLine{}\n		line2.Name = meta.AuthorName\n		line2.Email = meta.AuthorEmail\n		line2.Date = meta.Date\n		line2.line = line.Line\n		line2.SHA = line.Commit\n		lines = append(lines, line2)\n','		lines = append(lines, s.newLine(line))\n'),('func blameToFileContent(','func (s *Ripsrc) newLine(line *incblame.Line) *statsLine {\n	meta := s.commitMeta[line.Commit]\n	return &statsLine{\n		BlameLine: &BlameLine{Name: meta.AuthorName, Email: meta.AuthorEmail, Date: meta.Date, SHA: line.Commit},\n		line: line.Line,\n	}\n}\n\nfunc blameToFileContent('))
ok('c26-ok-make','C26',I,('	var lines []*statsLine\n','	lines := make([]*statsLine, 0, len(bl.Lines))\n'))
ok('c26-ok-fill','C26',I,('	var lines []*statsLine\n','	lines := make([]*statsLine, len(bl.Lines))\n'),('	for _, line := range bl.Lines {\n		meta','	for i, line := range bl.Lines {\n		meta'),('		lines = append(lines, line2)\n','		lines[i] = line2\n'))
ok('c26-ok-for','C26',I,('	for _, line := range bl.Lines {\n		meta','	for i := 0; i < len(bl.Lines); i++ {\n		line := bl.Lines[i]\n		meta'))
ok('c26-ok-byte','C26',I,('		res = append(res, "\\n"...)',"		res = append(res, '\\n')"))
ok('c26-ok-resmake','C33',I,('func blameToFileContent(bl *incblame.Blame) (res []byte) {\n','func blameToFileContent(bl *incblame.Blame) (res []byte) {\n	n := 0\n	for _, l := range bl.Lines {\n		n += len(l.Line) + 1\n	}\n	res = make([]byte, 0, n)\n'))
ok('c26-ok-lines-helper','C26',I,('	for _, l := range lines {\n		res.Lines = append(res.Lines, l.BlameLine)\n	}\n','	res.Lines = blameLines(lines)\n'),('type statsLine struct','func blameLines(lines []*statsLine) []*BlameLine {\n	out := make([]*BlameLine, 0, len(lines))\n	for i := range lines {\n		out = append(out, lines[i].BlameLine)\n	}\n	return out\n}\n\ntype statsLine struct'))
ok('c26-ok-if','C26',I,('		switch lineType {\n		case processor.LINE_BLANK:\n			l.Blank = true\n		case processor.LINE_CODE:\n			l.Code = true\n		case processor.LINE_COMMENT:\n			l.Comment = true\n		}\n','		if lineType == processor.LINE_BLANK {\n			l.Blank = true\n		} else if lineType == processor.LINE_CODE {\n			l.Code = true\n		} else if lineType == processor.LINE_COMMENT {\n			l.Comment = true\n		}\n'))
ok('c26-ok-early','C26',I,('	if index >= 0 && index < len(p.lines) {\n		l :=','	if index < 0 || index >= len(p.lines) {\n		return false\n	}\n	{\n		l :='),('		return true\n	}\n	return false\n','		return true\n	}\n'))
ok('c26-ok-method','C26',I,('		switch lineType {\n		case processor.LINE_BLANK:\n			l.Blank = true\n		case processor.LINE_CODE:\n			l.Code = true\n		case processor.LINE_COMMENT:\n			l.Comment = true\n		}\n','		l.classify(lineType)\n'),('type statsProcessor struct','func (l *statsLine) classify(t processor.LineType) {\n	switch t {\n	case processor.LINE_BLANK:\n		l.Blank = true\n	case processor.LINE_CODE:\n		l.Code = true\n	case processor.LINE_COMMENT:\n		l.Comment = true\n	}\n}\n\ntype statsProcessor struct'))
ok('c26-ok-meta-checked','C26',I,('		meta := s.commitMeta[line.Commit]\n','		meta, ok := s.commitMeta[line.Commit]\n		if !ok {\n			panic("no metadata")\n		}\n'))
ok('c22-ok-order','C22',F,('	if skip := s.checkFilePath(args.FilePath); skip != "" {\n		return res, skip\n	}\n\n	if len(args.Lines) > maxLinePerFile {\n		return res, fmt.Sprintf(skipMaxLinesExceeded, maxLinePerFile)\n	}\n','	if n := len(args.Lines); n > maxLinePerFile {\n		return res, fmt.Sprintf(skipMaxLinesExceeded, maxLinePerFile)\n	}\n\n	if skip := s.checkFilePath(args.FilePath); skip != "" {\n		return res, skip\n	}\n'))
ok('c22-ok-limits-fn','C22',F,('	for _, line := range args.Lines {\n		if len(line) > maxBytesPerLine {\n			return res, fmt.Sprintf(skipMaxLineBytesExceeded, len(line), maxBytesPerLine)\n		}\n	}\n','	if reason := checkWidth(args.Lines); reason != "" {\n		return res, reason\n	}\n'),('func (s *Process) checkFilePath(','func checkWidth(lines [][]byte) string {\n	for _, line := range lines {\n		if len(line) <= maxBytesPerLine {\n			continue\n		}\n		return fmt.Sprintf(skipMaxLineBytesExceeded, len(line), maxBytesPerLine)\n	}\n	return ""\n}\n\nfunc (s *Process) checkFilePath('))
ok('c22-ok-switch','C22',F,('	if enry.IsConfiguration(filePath) {\n		return skipConfigFile\n	}\n	if enry.IsDotFile(filePath) {\n		return skipDotFile\n	}\n	if ignorePatterns.MatchString(filePath) {\n		return skipBlacklisted\n	}\n	if s.isVendored(filePath) {\n		return skipVendoredFile\n	}\n	return ""','	switch {\n	case enry.IsConfiguration(filePath):\n		return skipConfigFile\n	case enry.IsDotFile(filePath):\n		return skipDotFile\n	case ignorePatterns.MatchString(filePath):\n		return skipBlacklisted\n	case s.isVendored(filePath):\n		return skipVendoredFile\n	default:\n		return ""\n	}'))
ok('c22-ok-nocache','C22',F,('	if res, ok := s.checkFilePathCache[filePath]; ok {\n		return res\n	}\n	res := s.checkFilePathUncached(filePath)\n	s.checkFilePathCache[filePath] = res\n	return res','	res, ok := s.checkFilePathCache[filePath]\n	if !ok {\n		res = s.checkFilePathUncached(filePath)\n		s.checkFilePathCache[filePath] = res\n	}\n	return res'))
ok('c22-ok-vendor','C22',F,('	if enry.IsVendor(filePath) {','	if !strings.HasPrefix(filePath, "src/") && enry.IsVendor(filePath) {'))
ok('c22-ok-skip-helper','C22',I,('		if r.Status == GitFileCommitStatusRemoved {\n			r.Skipped = removedFile\n			// no need to run code info\n			res = append(res, r)\n			continue\n		}\n','		removed := r.Status == GitFileCommitStatusRemoved\n		if removed {\n			r.Skipped = removedFile\n			res = append(res, r)\n			continue\n		}\n'))
ok('c22-ok-status','C22',I,('		if r.Status == GitFileCommitStatusRemoved {\n			r.Skipped = removedFile\n			// no need to run code info\n			res = append(res, r)\n			continue\n		}\n','		switch f.Status {\n		case GitFileCommitStatusRemoved:\n			r.Skipped = removedFile\n			res = append(res, r)\n			continue\n		}\n'))
ok('c22-ok-split','C22',I,('		fileBytes := blameToFileContent(blf)\n		fileLines := blameToByteLines(blf)\n		info, skipReason := s.fileInfo.GetInfo(fileinfo.InfoArgs{FilePath: filePath, Content: fileBytes, Lines: fileLines})\n		r.License = info.License\n		r.Language = info.Language\n\n		if skipReason != "" {\n			r.Skipped = skipReason\n			res = append(res, r)\n			continue\n		}\n\n		r, err := s.codeInfoFile(filePath, blf, fileBytes, r)\n		if err != nil {\n			return nil, err\n		}\n\n		res = append(res, r)\n','		r, err := s.analyse(filePath, blf, r)\n		if err != nil {\n			return nil, err\n		}\n		res = append(res, r)\n'),('const (\n	generatedFile','func (s *Ripsrc) analyse(filePath string, blf *incblame.Blame, r BlameResult) (BlameResult, error) {\n	args := fileinfo.InfoArgs{FilePath: filePath}\n	args.Content = blameToFileContent(blf)\n	args.Lines = blameToByteLines(blf)\n	info, reason := s.fileInfo.GetInfo(args)\n	r.License, r.Language, r.Skipped = info.License, info.Language, reason\n	if reason != "" {\n		return r, nil\n	}\n	return s.codeInfoFile(filePath, blf, args.Content, r)\n}\n\nconst (\n	generatedFile'))
bug('c22-generated-lost','C22',I,('	if statcallback.generated {','	if statcallback.generated && len(lines) < 10000 {'))
bug('c22-generated-kept','C22',I,('		res.Skipped = generatedFile\n','		if res.License == nil {\n			res.Skipped = generatedFile\n		}\n'))
bug('c25-status-previous','C25',I,('		r.Status = f.Status\n','		r.Status = f.Status\n		if f.RenamedFrom != "" {\n			r.Status = commit.Files[f.RenamedFrom].Status\n		}\n'))
bug('c25-status-default','C25',I,('		r.Status = f.Status\n','		r.Status = f.Status\n		if blf.IsBinary {\n			r.Status = GitFileCommitStatusModified\n		}\n'))
bug('c33-license-lost','C33',I,('			r.Skipped = skipReason\n','			r.Skipped = skipReason\n			r.License = nil\n'))
bug('c33-license-cond','C33',I,('		r.License = info.License\n','		if info.Language != "" {\n			r.License = info.License\n		}\n'))
