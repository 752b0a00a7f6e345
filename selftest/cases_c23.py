G = "ripsrc/fileinfo/gitignore.go"
I = "ripsrc/fileinfo/fileinfo.go"
bug("c23-lost", "C23", G, (r"|yarn\.lock$", ""))
bug("c23-lost-last", "C23", G, (r"|\.parquet$", ""))
bug("c23-lost-first", "C23", G, ("(Godeps|", "("))
bug("c23-added", "C23", G, (r"|yarn\.lock$", r"|yarn\.lock$|\.lock$"))
bug("c23-dot", "C23", G, (r"|yarn\.lock$", r"|yarn.lock$"))
bug("c23-anchor", "C23", G, (r"|yarn\.lock$", r"|yarn\.lock"))
bug("c23-anchor2", "C23", G, (r"|^build\.gradle$", r"|build\.gradle$"))
bug("c23-anchor-all", "C23", G, ("(`(Godeps", "(`^(Godeps"))
bug("c23-case", "C23", G, ("(`(Godeps", "(`(?i)(Godeps"))
bug("c23-class", "C23", G, (r"[-\.]min\.js$", r"[-\._]min\.js$"))
bug("c23-optional", "C23", G, (r"(\.md|\.txt|\.rst)?|AUTH", r"(\.md|\.txt|\.rst)|AUTH"))
bug("c23-empty-alt", "C23", G, (r"|\.parquet$)", r"|\.parquet$|)"))
bug("c23-list", "C23", "custom_patterns.txt", (".rst)?\n", ".rst)?\nFOO\n"))
bug("c23-list-removed", "C23", "custom_patterns.txt", ("yarn.lock$\n", ""))
bug("c23-base", "C23", I, ("MatchString(filePath)", "MatchString(filepath.Base(filePath))"), ('	"strings"\n', '	"path/filepath"\n	"strings"\n'))
bug("c23-lower", "C23", I, ("MatchString(filePath)", "MatchString(strings.ToLower(filePath))"))
bug("c23-order", "C23", I, ("	if ignorePatterns.MatchString(filePath) {\n		return skipBlacklisted\n	}\n	if s.isVendored(filePath) {\n		return skipVendoredFile\n	}\n", "	if s.isVendored(filePath) {\n		return skipVendoredFile\n	}\n	if !strings.HasPrefix(filePath, \"src/\") && ignorePatterns.MatchString(filePath) {\n		return skipBlacklisted\n	}\n"))
bug("c23-negated", "C23", I, ("if ignorePatterns.", "if !ignorePatterns."))
bug("c23-wrong-reason", "C23", I, ("		return skipBlacklisted\n", "		return skipConfigFile\n"))
bug("c23-no-effect", "C23", I, ("		return skipBlacklisted\n", "		return \"\"\n"))
bug("c23-cache", "C23", I, ("	s.checkFilePathCache[filePath] = res\n", "	s.checkFilePathCache[strings.ToLower(filePath)] = res\n"))

ok("c23-dedup", "C23", G, (r"|\.codecov\.yml$|app", "|app"))
ok("c23-subsumed", "C23", G, (r"|vendor/bundle|vendor/cache", ""))
ok("c23-noncapture", "C23", G, ("(`(Godeps", "(`(?:Godeps"))
ok("c23-moved", "C23", G, (r"|yarn\.lock$", ""), (r"|\.parquet$)", r"|\.parquet$|yarn\.lock$)"))
ok("c23-factored", "C23", G, (r"|\.babelrc$|\.babelrc\.js$", r"|\.babelrc(\.js)?$"))
ok("c23-nongroup", "C23", G, ("(`(Godeps", "(`Godeps"), (r"|\.parquet$)", r"|\.parquet$"))
ok("c23-reorder", "C23", I, ("	if ignorePatterns.MatchString(filePath) {\n		return skipBlacklisted\n	}\n	if s.isVendored(filePath) {\n		return skipVendoredFile\n	}\n", "	if s.isVendored(filePath) {\n		return skipVendoredFile\n	}\n	if ignorePatterns.MatchString(filePath) {\n		return skipBlacklisted\n	}\n"))
ok("c23-helper", "C23", I, ("	if ignorePatterns.MatchString(filePath) {\n", "	if excluded(filePath) {\n"), ("func (p *Process) isVendored", "func excluded(name string) bool {\n	return ignorePatterns.MatchString(name)\n}\n\nfunc (p *Process) isVendored"))
ok("c23-switch", "C23", I, ("	if ignorePatterns.MatchString(filePath) {\n		return skipBlacklisted\n	}\n	if s.isVendored(filePath) {\n		return skipVendoredFile\n	}\n	return \"\"\n", "	switch {\n	case ignorePatterns.MatchString(filePath):\n		return skipBlacklisted\n	case s.isVendored(filePath):\n		return skipVendoredFile\n	}\n	return \"\"\n"))
ok("c23-bytes", "C23", I, ("MatchString(filePath)", "Match([]byte(filePath))"))
ok("c23-find", "C23", I, ("ignorePatterns.MatchString(filePath)", "ignorePatterns.FindStringIndex(filePath) != nil"))
ok("c23-list-comment", "C23", "custom_patterns.txt", ("yarn.lock$\n", "\nyarn.lock$ # of yarn\n!foo\n"))
ok("c23-no-config", "C23", I, ("	if enry.IsConfiguration(filePath) {\n		return skipConfigFile\n	}\n", ""))
ok("c23-size", "C23", I, ("const maxFileSize = 1000000", "const maxFileSize = 2000000"))
