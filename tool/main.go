package main

import (
	"fmt"
	"os"
	"runtime/pprof"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: wwrstatic <property|all> [quick|thorough]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	repo := os.Getenv("WWR_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("WWR_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	p, err := load(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	prepassFailed := func() (r interface{}) {
		defer func() { r = recover() }()
		p.prepass()
		return nil
	}()
	ids := []string{id}
	if id == "all" {
		ids = sortedKeys(checks)
	}
	code := 0
	for _, id := range ids {
		ck := checks[id]
		if ck == nil {
			fmt.Println("no check for", id)
			os.Exit(2)
		}
		c := newCtx(p, id, tier)
		if prepassFailed != nil {
			c.failAt("undecided", "analyser", "analyser", "the analyser failed: %v", prepassFailed)
		} else {
			runCheck(c, ck)
		}
		if r := c.finish(verif, ck); r > code {
			code = r
		}
	}
	if code != 0 {
		pprof.StopCPUProfile()
		os.Exit(code)
	}
}

// runCheck turns an internal failure of the analyser into an undecided
// obligation.
func runCheck(c *Ctx, ck *Check) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("WWRPANIC") != "" {
				panic(r)
			}
			c.failAt("undecided", "analyser", "analyser", "the analyser failed: %v", r)
		}
	}()
	ck.Run(c)
}
