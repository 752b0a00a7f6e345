// ripcheck decides semantic properties of pinpt/ripsrc by static analysis of its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	flag.Parse()
	start := time.Now()
	debug.SetGCPercent(400)
	if f := os.Getenv("RIPCHECK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	p, err := LoadProg(*repo, "")
	bad := false
	for _, id := range ids {
		ch := checks[id]
		if ch == nil {
			fmt.Println("no such check:", id)
			os.Exit(2)
		}
		t := time.Now()
		if len(ids) == 1 {
			t = start
		}
		if !runCheck(p, err, ch, *verif, tier, seed, t) {
			bad = true
		}
	}
	pprof.StopCPUProfile()
	if bad {
		os.Exit(1)
	}
}
