package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "worker":
			workerMain(os.Args[2:])
			return
		case "check":
			os.Exit(checkMain(os.Args[2:]))
		}
	}
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	only := flag.String("only", "", "regexp of contracts/lemmas")
	verbose := flag.Bool("v", false, "list obligations")
	dump := flag.String("dump", "", "write failing scripts to this directory")
	long := flag.Duration("long", 10*time.Second, "solver limit")
	kind := flag.String("kind", "", "only the obligations whose kind: label matches")
	cases := flag.String("cases", "", "name@case;name@case: restrict contracts to these cases")
	ground := flag.String("ground", "/tmp/govc-ground.json", "cached ground values")
	smoke := flag.Bool("smoke", false, "look for contradictory assumptions at the exits")
	flag.Parse()
	keepExits = *smoke
	for _, c := range strings.Split(*cases, ";") {
		if n, k, ok := strings.Cut(c, "@"); ok {
			if caseFilter[n] == nil {
				caseFilter[n] = map[string]bool{}
			}
			caseFilter[n][k] = true
		}
	}
	if f := os.Getenv("GOVC_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	st := time.Now()
	db := loadSpecs(*specs)
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		os.Exit(1)
	}
	tmp, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(tmp)
	if *ground != "" {
		if loadGroundFile(*ground) != nil {
			if err := computeGround(p, *repo, tmp); err != nil {
				fmt.Println("GROUND ERROR:", err)
				os.Exit(1)
			}
			saveGround(*ground)
		}
	}
	fmt.Printf("loaded in %v\n", time.Since(st))
	re := regexp.MustCompile(*only)
	var rs []*FuncResult
	for _, n := range db.Order {
		if !re.MatchString(n) {
			continue
		}
		fn := p.fns[n]
		if fn == nil {
			fmt.Println("NO FUNCTION", n)
			continue
		}
		rs = append(rs, verifyFunc(p, db, db.Contracts[n], fn, 120*time.Second))
	}
	var ls []string
	for n := range db.Lemmas {
		ls = append(ls, n)
	}
	sort.Strings(ls)
	for _, n := range ls {
		if re.MatchString("lemma " + n) {
			rs = append(rs, verifyLemma(p, db, db.Lemmas[n]))
		}
	}
	if *smoke {
		smokeTest(rs, 8*time.Second, true)
		return
	}
	var all []*Obligation
	for _, r := range rs {
		if *kind != "" {
			kre := regexp.MustCompile(*kind)
			var l []*Obligation
			for _, o := range r.Obls {
				if kre.MatchString(o.Kind + ": " + o.Label) {
					l = append(l, o)
				}
			}
			r.Obls = l
		}
		all = append(all, r.Obls...)
	}
	fmt.Printf("executed in %v, %d obligations, %d feasibility queries %v\n", time.Since(st), len(all), feas.n, feas.dur)
	discharge(all, solveCfg{quick: 3 * time.Second, long: *long}, 8)
	bad := 0
	for _, r := range rs {
		ok, fail := 0, 0
		for _, o := range r.Obls {
			if o.Status == "unsat" {
				ok++
			} else {
				fail++
			}
		}
		s := "ok"
		if fail > 0 || r.Err != "" {
			s = "FAIL"
			bad++
		}
		fmt.Printf("%-4s %-45s %4d/%4d obligations, %d paths, %d exits %s %v\n", s, r.Name, ok, ok+fail, r.Paths, r.Exits, r.Err, r.Dur.Round(time.Millisecond))
		n := 0
		for _, o := range r.Obls {
			if o.Status != "unsat" || *verbose || *dump != "" {
				fmt.Printf("      [%s] %s %s: %s (%s) %s %v {%s}\n", o.Status, o.Pos, o.Kind, o.Label, o.Solver, "", o.Dur.Round(time.Millisecond), o.Path)
				if (o.Status != "unsat" || o.Dur > 2500*time.Millisecond) && *dump != "" && n < 60 {
					n++
					os.MkdirAll(*dump, 0755)
					o.Pc, o.Goal = simplifyUnder(o.Pc, o.Goal)
					scr, _ := script(o.Pc, o.Goal, false, false)
					os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", *dump, sanitize(r.Name), n), []byte(scr), 0644)
					scrl, _ := script(o.Pc, o.Goal, true, false)
					os.WriteFile(fmt.Sprintf("%s/%s-%d.lin.smt2", *dump, sanitize(r.Name), n), []byte(scrl), 0644)
					var txt string
					for _, t := range o.Pc {
						txt += t.String() + "\n"
					}
					txt += "GOAL " + o.Goal.String() + "\nSTATUS " + o.Status + " " + o.Path + "\n"
					for k, v := range o.Model {
						txt += fmt.Sprintf("  %s = %s\n", k, v)
					}
					os.WriteFile(fmt.Sprintf("%s/%s-%d.txt", *dump, sanitize(r.Name), n), []byte(txt), 0644)
				}
			}
		}
	}
	fmt.Printf("total %v, %d bad\n", time.Since(st), bad)
	if bad > 0 {
		os.Exit(1)
	}
}
