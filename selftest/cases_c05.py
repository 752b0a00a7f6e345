AM='ripsrc/history3/incblame/apply_merge2.go'
OLD='''	res := cand[0]
	for i := range res.Lines {
		for j := range parents {
			line := cand[j].Lines[i]
			// if commit is not the merge commit that means the line appeared from that parent use it in res, in case multiple sources, first will be used
			if line.Commit != commit {
				// create a copy to avoid mutating original, which leads to race in tests
				lc := *res.Lines[i]
				lc.Commit = line.Commit
				res.Lines[i] = &lc
				break
			}
		}
		// if the line originated from none of the parents it will be set to commit, because it was created here
	}
	return res
'''
APP='''	res := Blame{Commit: commit}
	for i := range cand[0].Lines {
		l := cand[0].Lines[i]
		for j := range parents {
			line := cand[j].Lines[i]
			if line.Commit != commit {
				lc := *l
				lc.Commit = line.Commit
				l = &lc
				break
			}
		}
		res.Lines = append(res.Lines, l)
	}
	return res
'''
IN='''	lines := make([]*Line, len(cand[0].Lines))
	for i := range lines {
		lines[i] = cand[0].Lines[i]
		for j := range parents {
			line := cand[j].Lines[i]
			if line.Commit != commit {
				lc := *lines[i]
				lc.Commit = line.Commit
				lines[i] = &lc
				break
			}
		}
	}
	return Blame{Commit: commit, Lines: lines}
'''
FN='''	lines := make([]*Line, 0, len(cand[0].Lines))
	for i, l := range cand[0].Lines {
		lines = append(lines, &Line{Line: l.Line, Commit: originOf(cand, i, commit)})
	}
	return Blame{Commit: commit, Lines: lines}
'''
FNB='''func originOf(cand []Blame, i int, commit string) string {
	for _, c := range cand {
		if o := c.Lines[i].Commit; o != commit {
			return o
		}
	}
	return commit
}

func ApplyMerge('''
ok('c05-ok-append','C05',AM,(OLD,APP))
ok('c05-ok-inplace','C05',AM,(OLD,IN))
ok('c05-ok-fn','C05',AM,(OLD,FN),('func ApplyMerge(',FNB))
ok('c05-ok-copyfn','C05',AM,('	res := cand[0]\n','	res := Blame{Commit: commit}\n	res.Lines = make([]*Line, len(cand[0].Lines))\n	copy(res.Lines, cand[0].Lines)\n'))
bug('c05-append-other','C05',AM,(OLD,APP.replace('lc := *l','lc := *cand[len(cand)-1].Lines[0]')))
bug('c05-append-lastparent','C05',AM,(OLD,APP.replace('				break\n','')))
bug('c05-append-skip','C05',AM,(OLD,APP.replace('		res.Lines = append','		if len(l.Line) == 0 && i+1 == len(cand[0].Lines) {\n			continue\n		}\n		res.Lines = append')))
bug('c05-append-orig','C05',AM,(OLD,APP.replace('append(res.Lines, l)','append(res.Lines, cand[0].Lines[i])')))
bug('c05-inplace-last','C05',AM,(OLD,IN.replace('for i := range lines','for i := range lines[:len(lines)-1]')))
bug('c05-fn-last','C05',AM,(OLD,FN),('func ApplyMerge(',FNB.replace('for _, c := range cand {','for k := range cand {\n		c := cand[len(cand)-1-k]')))
bug('c05-fn-first','C05',AM,(OLD,FN),('func ApplyMerge(',FNB.replace('		if o := c.Lines[i].Commit; o != commit {\n			return o\n		}\n	}\n	return commit','		if o := c.Lines[i].Commit; o != commit {\n			return o\n		}\n		break\n	}\n	return commit')))
CI='ripsrc/code_info.go'
LOOP='	for filePath, blf := range blame.Files {\n		if filePath == "" {'
SORTED='''	names := make([]string, 0, len(blame.Files))
	for p := range blame.Files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, filePath := range names {
		blf, ok := blame.Files[filePath]
		if !ok {
			continue
		}
		if filePath == "" {'''
IMP=('	"regexp"\n','	"regexp"\n	"sort"\n')
ok('c22-ok-sorted','C22',CI,(LOOP,SORTED),IMP)
ok('c22-ok-sorted-nonempty','C22',CI,(LOOP,SORTED.replace('		names = append(names, p)\n','		if p != "" {\n			names = append(names, p)\n		}\n')),IMP)
bug('c22-sorted-some','C22',CI,(LOOP,SORTED.replace('		names = append(names, p)\n','		if len(p) < 255 {\n			names = append(names, p)\n		}\n')),IMP)
bug('c22-sorted-tail','C22',CI,(LOOP,SORTED.replace('range names','range names[:len(names)-len(names)/100]')),IMP)
bug('c22-sorted-other','C22',CI,(LOOP,SORTED.replace('range blame.Files','range commit.Files')),IMP)
