B='ripsrc/branches2/behind_branch.go'; BC='ripsrc/branches2/branch_commits.go'; P='ripsrc/branches2/process.go'
RCH='''	res := map[string]bool{}
	done := map[string]bool{}
	var rec func(string)
	rec = func(hash string) {
		if done[hash] {
			return
		}
		done[hash] = true
		res[hash] = true
		for _, p := range gr.Parents[hash] {
			rec(p)
		}
	}
	rec(defaultHead)
	return res
'''
BH='''	done := map[string]bool{}
	var rec func(string)
	rec = func(hash string) {
		if done[hash] {
			return
		}
		done[hash] = true
		if rfb[hash] {
			return
		}
		res++
		for _, p := range gr.Parents[hash] {
			rec(p)
		}
	}
	rec(defaultHead)
	return res
'''
bug('c18-nomark','C18',BC,('		done[hash] = true\n		res[hash] = true\n','		res[hash] = true\n'))
bug('c18-firstparent','C18',BC,('		res[hash] = true\n		for _, p := range gr.Parents[hash] {\n			rec(p)\n		}','		res[hash] = true\n		for _, p := range gr.Parents[hash] {\n			rec(p)\n			if len(res) > 100000 {\n				break\n			}\n		}'))
bug('c18-firstonly','C18',BC,('		res[hash] = true\n		for _, p := range gr.Parents[hash] {','		res[hash] = true\n		for i, p := range gr.Parents[hash] {\n			if i > 1 {\n				continue\n			}'))
bug('c18-octopus','C18',BC,('		res[hash] = true\n		for _, p := range gr.Parents[hash] {\n			rec(p)\n		}','		res[hash] = true\n		par := gr.Parents[hash]\n		for i := 0; i < len(par) && i < 2; i++ {\n			rec(par[i])\n		}'))
bug('c18-limit','C18',BC,('		if done[hash] {\n			return\n		}\n		done[hash] = true\n		res[hash]','		if done[hash] || len(done) > 50000 {\n			return\n		}\n		done[hash] = true\n		res[hash]'))
bug('c18-behind-nodone','C18',B,('		done[hash] = true\n',''))
bug('c18-behind-def','C18',B,('rfb := newReachableFromHead(gr, branchHead)','rfb := reachableFromDefault'))
bug('c18-behind-marklate','C18',B,('		done[hash] = true\n		if rfb','		if rfb'),('			rec(p)\n		}\n	}\n','			rec(p)\n		}\n		done[hash] = true\n	}\n'))
bug('c18-bc-break','C18',BC,('				branchedFrom = append(branchedFrom, p)\n				continue','				branchedFrom = append(branchedFrom, p)\n				break'))
bug('c18-bc-nodone','C18',BC,('		if commitsDone[hash] {\n			return\n		}\n',''))
bug('c18-bc-innermark','C18',BC,('			done[hash] = true\n\n			reachable','			reachable'))
bug('c18-bc-innerparent','C18',BC,('			for _, p := range par {\n				rec(p)\n			}\n		}\n		rec(defaultHead)','			if len(par) > 0 {\n				rec(par[0])\n			}\n		}\n		rec(defaultHead)'))
bug('c18-bc-nostop','C18',BC,('if hash == branchHead {','if hash == branchHead && len(gr.Parents[hash]) > 1 {'))
bug('c18-dedup-nomemo','C18',BC,('			if done[hash] {\n				return hasDeep[hash]\n			}\n			done[hash] = true\n','			if done[hash] {\n				return hasDeep[hash]\n			}\n'))
bug('c18-dedup-shortcut','C18',BC,('				r := rec(p)\n				if r {\n					has = true\n				}\n','				r := rec(p)\n				if r {\n					has = true\n					break\n				}\n'))
bug('c18-all-nodone','C18',P,('		if done[h] {\n			return\n		}\n		done[h] = true\n		res','		if done[h] {\n			return\n		}\n		res'))
bug('c18-all-last','C18',P,('		for i := len(par) - 1; i >= 0; i-- {\n			rec(par[i])','		for i := len(par) - 1; i > 0; i-- {\n			rec(par[i])'))
bug('c18-all-mono','C18',P,('		done[h] = true\n		res = append(res, h)\n','		res = append(res, h)\n		if done[h] {\n			return\n		}\n		done[h] = true\n'),('		if done[h] {\n			return\n		}\n		res','		res'))
ok('c18-ok-oneset','C18',BC,(RCH,RCH.replace('	done := map[string]bool{}\n','').replace('done[hash]','res[hash]',1).replace('		done[hash] = true\n','')))
ok('c18-ok-loop','C18',BC,(RCH,'''	res := map[string]bool{}
	stack := []string{defaultHead}
	for len(stack) > 0 {
		hash := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if res[hash] {
			continue
		}
		res[hash] = true
		stack = append(stack, gr.Parents[hash]...)
	}
	return res
'''))
ok('c18-ok-loop2','C18',BC,(RCH,'''	res := map[string]bool{}
	queue := []string{defaultHead}
	for len(queue) > 0 {
		hash := queue[0]
		queue = queue[1:]
		if res[hash] {
			continue
		}
		res[hash] = true
		for _, p := range gr.Parents[hash] {
			if !res[p] {
				queue = append(queue, p)
			}
		}
	}
	return res
'''))
ok('c18-ok-loop3','C18',BC,(RCH,'''	res := map[string]bool{defaultHead: true}
	queue := []string{defaultHead}
	for i := 0; i < len(queue); i++ {
		for _, p := range gr.Parents[queue[i]] {
			if !res[p] {
				res[p] = true
				queue = append(queue, p)
			}
		}
	}
	return res
'''))
bug('c18-loop-nocheck','C18',BC,(RCH,'''	res := map[string]bool{}
	stack := []string{defaultHead}
	for len(stack) > 0 {
		hash := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		res[hash] = true
		stack = append(stack, gr.Parents[hash]...)
	}
	return res
'''))
bug('c18-loop-part','C18',BC,(RCH,'''	res := map[string]bool{}
	stack := []string{defaultHead}
	for len(stack) > 0 {
		hash := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if res[hash] {
			continue
		}
		res[hash] = true
		if par := gr.Parents[hash]; len(par) > 0 {
			stack = append(stack, par[0])
			if len(par) > 1 {
				stack = append(stack, par[1])
			}
		}
	}
	return res
'''))
ok('c18-ok-behind-loop','C18',B,(BH,'''	done := map[string]bool{}
	stack := []string{defaultHead}
	for len(stack) > 0 {
		hash := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if done[hash] || rfb[hash] {
			continue
		}
		done[hash] = true
		res++
		stack = append(stack, gr.Parents[hash]...)
	}
	return res
'''))
ok('c18-ok-behind-order','C18',B,('''		if done[hash] {
			return
		}
		done[hash] = true
		if rfb[hash] {
			return
		}
''','''		if rfb[hash] || done[hash] {
			return
		}
		done[hash] = true
'''))
ok('c18-ok-behind-cb','C18',B,(BH,'''	walk(gr, map[string]bool{}, defaultHead, func(hash string) bool {
		if rfb[hash] {
			return false
		}
		res++
		return true
	})
	return res
'''),('func behindBranch(','''func walk(gr *parentsgraph.Graph, done map[string]bool, hash string, visit func(string) bool) {
	if done[hash] {
		return
	}
	done[hash] = true
	if !visit(hash) {
		return
	}
	for _, p := range gr.Parents[hash] {
		walk(gr, done, p, visit)
	}
}

func behindBranch('''))
ok('c18-ok-struct','C18',BC,(RCH,'''	w := &reachWalk{gr: gr, res: map[string]bool{}}
	w.visit(defaultHead)
	return w.res
'''),('func branchCommits(','''type reachWalk struct {
	gr  *parentsgraph.Graph
	res map[string]bool
}

func (w *reachWalk) visit(hash string) {
	if w.res[hash] {
		return
	}
	w.res[hash] = true
	for _, p := range w.gr.Parents[hash] {
		w.visit(p)
	}
}

func branchCommits('''))
ok('c18-ok-two','C18',BC,(RCH,RCH.replace('''		for _, p := range gr.Parents[hash] {
			rec(p)
		}
''','''		parents(gr, hash, rec)
''')),('func branchCommits(','''func parents(gr *parentsgraph.Graph, hash string, f func(string)) {
	for _, p := range gr.Parents[hash] {
		f(p)
	}
}

func branchCommits('''))
ok('c18-ok-innerfn','C18',BC,('''		reachableFromHead = map[string]bool{}
		done := map[string]bool{}
		var rec func(string)
		rec = func(hash string) {
			if done[hash] {
				return
			}
			done[hash] = true

			reachableFromHead[hash] = true
			if hash == branchHead {
				// remove merge commit to branch head
				return
			}
			par, ok := gr.Parents[hash]
			if !ok {
				panic("commit not found in tree")
			}
			for _, p := range par {
				rec(p)
			}
		}
		rec(defaultHead)
''','''		reachableFromHead = reachableWithout(gr, defaultHead, branchHead)
'''),('func dedupLinear','''func reachableWithout(gr *parentsgraph.Graph, head, without string) map[string]bool {
	res := map[string]bool{}
	var rec func(string)
	rec = func(hash string) {
		if res[hash] {
			return
		}
		res[hash] = true
		if hash == without {
			return
		}
		par, ok := gr.Parents[hash]
		if !ok {
			panic("commit not found in tree")
		}
		for _, p := range par {
			rec(p)
		}
	}
	rec(head)
	return res
}

func dedupLinear'''))
ok('c18-ok-bc-else','C18',BC,('''			if reachableFromHead[p] {
				branchedFrom = append(branchedFrom, p)
				continue
			}
			rec(p)
''','''			if !reachableFromHead[p] {
				rec(p)
			} else {
				branchedFrom = append(branchedFrom, p)
			}
'''))
