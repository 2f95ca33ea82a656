package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	id := flag.String("check", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.Bool("worker", false, "answer jobs of the exact interpretation")
	flag.Parse()
	if *worker {
		if err := exactWorker(*repo); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return
	}
	start := time.Now()
	kn, err := loadKnown(*verif + "/known-findings.txt")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	code := 0
	found := false
	for _, ck := range checks {
		if *id != "" && *id != "all" && ck.id != *id {
			continue
		}
		found = true
		start = time.Now()
		r := newReport(ck.id, ck.rule)
		runCheck(ck, r, *repo, *tier)
		if c := r.finish(*verif, *tier, start, kn); c != 0 {
			code = c
		}
	}
	if !found {
		fmt.Println("no such check:", *id)
		fmt.Printf("VIOLATION property=%s replay=none\n", *id)
		code = 1
	}
	os.Exit(code)
}

var shared *Context

func runCheck(ck checkDef, r *Report, repo, tier string) {
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(undecided); ok {
				r.undecided("%s", u.msg)
				return
			}
			r.undecided("the analysis failed: %v\n%s", p, debug.Stack())
		}
	}()
	if shared == nil {
		p, err := loadProgram(repo)
		if err != nil {
			r.undecided("%v", err)
			return
		}
		base := newEngine(p)
		if err := base.runInits(); err != nil {
			r.undecided("%v", err)
			return
		}
		shared = &Context{p: p, base: base, tier: tier}
	}
	ck.run(shared, r)
}
