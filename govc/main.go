package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("prop", "", "property")
		tier := fs.String("tier", "quick", "quick or thorough")
		repo := fs.String("repo", "/repo", "repository")
		verif := fs.String("verif", "/verif", "this framework")
		fs.Parse(os.Args[2:])
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		os.Exit(check(*prop, *tier, *repo, *verif, seed))
	}
	repo := flag.String("repo", "/repo", "repository")
	spec := flag.String("spec", "/verif/spec", "specification directory")
	fnF := flag.String("fn", "", "verify only these functions (comma separated)")
	prop := flag.String("prop", "", "only obligations of this property")
	grepF := flag.String("grep", "", "only obligations whose name contains this")
	verbose := flag.Bool("v", false, "show solver output of failed obligations")
	dump := flag.String("dump", "", "dump queries of failed obligations into this directory")
	quick := flag.Bool("quick", false, "short timeouts")
	hist := flag.Bool("hist", false, "solver time per kind of obligation")
	fps := flag.String("fingerprints", "", "write the fingerprints of the functions to this file")
	houdini := flag.Bool("houdini", false, "drop failing invariants")
	flag.Parse()
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	sp := loadSpec(*spec)
	v := newVerifier(p, sp)
	addImplementers(v)
	if *fps != "" {
		d, _ := json.MarshalIndent(v.fingerprints(), "", " ")
		os.WriteFile(*fps, append(d, '\n'), 0o644)
		return
	}
	names := v.underContract()
	if *fnF != "" {
		names = strings.Split(*fnF, ",")
	}
	own := map[string]bool{}
	var ns []string
	lem := *fnF == ""
	for _, n := range names {
		if n == "lemmas" {
			lem = true
			continue
		}
		if p.byName[n] == nil {
			fmt.Println("no function", n)
			continue
		}
		if strings.HasSuffix(n, "*") {
			continue
		}
		own[n] = true
		ns = append(ns, n)
	}
	st := quickStages
	if *quick {
		st = []stage{{"z3", 1, 0}, {"z3new", 2, 0}}
	}
	r := &runner{p: p, sp: sp, drop: map[string]bool{}, prop: *prop, stages: st, dl: time.Now().Add(20 * time.Minute), secs: map[string]float64{}, keepQ: *dump != ""}
	t0 := time.Now()
	var res []*fnRun
	filter := func(o *Oblig) bool { return *grepF == "" || strings.Contains(o.Name, *grepF) }
	if *houdini {
		res = r.verifyAll(ns, own, lem, true)
	} else {
		res = r.run(ns, own, lem, *grepF == "", filter)
		if !*quick {
			r.retry(res)
		}
	}
	tot, bad, k := 0, 0, 0
	for _, f := range res {
		slow := 0.0
		fb := 0
		for _, o := range f.obls {
			tot++
			k++
			slow += o.Secs
			if *dump != "" && (o.Status != "proved" || o.Secs > 4) {
				os.MkdirAll(*dump, 0o755)
				for suf, q := range map[string]string{"": o.query, ".light": o.light, ".focus": o.focus, ".bare": o.bare} {
					if q != "" {
						os.WriteFile(fmt.Sprintf("%s/%d%s.smt2", *dump, k, suf), []byte(backends["z3"].pre+"; "+o.Name+"\n"+q), 0o644)
					}
				}
				fmt.Printf("    -> %d.smt2\n", k)
			}
			if o.Status != "proved" {
				bad++
				fb++
				fmt.Printf("FAILED %s %v %s\n    %s\n", o.Kind, o.Tags, o.Name, o.Pos)
				if *verbose {
					fmt.Printf("    %s\n", o.Output)
				}
			} else if o.Secs > 4 {
				fmt.Printf("SLOW %.1fs by %s %s\n", o.Secs, o.By, o.Name)
			}
		}
		fmt.Printf("%-40s %5d obligations %3d failed %5d paths %7.1f solver-s  %s %s\n", f.name, len(f.obls), fb, f.res.Paths, slow, f.vac, f.res.Err)
	}
	if *hist {
		fmt.Println("wins:", r.wins)
		m, cnt := map[string]float64{}, map[string]int{}
		for _, f := range res {
			for _, o := range f.obls {
				d := regexp.MustCompile(`\[\d+\]$`).ReplaceAllString(o.Name, "")
				m[d] += o.Secs
				cnt[d]++
			}
		}
		var ks []string
		for d := range m {
			ks = append(ks, d)
		}
		sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
		for i, d := range ks {
			if i < 45 {
				fmt.Printf("%7.1fs %5d %s\n", m[d], cnt[d], d)
			}
		}
	}
	for _, e := range r.notes {
		fmt.Println("note:", e)
	}
	fmt.Printf("%d obligations, %d failed, total %.1fs\n", tot, bad, time.Since(t0).Seconds())
}
