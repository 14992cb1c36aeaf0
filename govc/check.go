package main

import (
	"context"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- which obligations belong to a property

var propRe = regexp.MustCompile(`^C\d\d$`)

func propTags(tags []string) []string {
	var out []string
	for _, t := range tags {
		if propRe.MatchString(t) {
			out = append(out, t)
		}
	}
	return out
}

// propsOf: the properties a function's contract has a clause for.
func (v *Verifier) propsOf(name string) map[string]bool {
	out := map[string]bool{}
	c := v.contractFor(name)
	if c == nil {
		return out
	}
	for _, cc := range []*Contract{c.iface, c.own} {
		if cc == nil {
			continue
		}
		for _, l := range [][]Clause{cc.Ensures, cc.Requires, cc.Hints} {
			for _, cl := range l {
				for _, t := range propTags(cl.Tags) {
					out[t] = true
				}
			}
		}
		for _, t := range append(append([]string(nil), cc.Covers...), cc.Sem...) {
			out[t] = true
		}
	}
	return out
}

// relevant: does the obligation belong to the property? Clauses say so by their
// tags; everything else a function needs belongs to all properties of the function.
func (v *Verifier) relevant(o *Oblig, prop string, fprops map[string]bool) bool {
	if prop == "" {
		return true
	}
	if ts := propTags(o.Tags); len(ts) > 0 {
		return contains(ts, prop)
	}
	if prop == "C21" { // what evaluation does not write, and nothing else
		return fprops["C21"] && o.Kind == "frame"
	}
	for tag, of := range map[string]string{"lock": "C05", "term": "C14", "panic": "C15"} {
		if contains(o.Tags, tag) && fprops[of] {
			return prop == of
		}
		if tag != "lock" && contains(o.Tags, tag) && fprops["C27"] { // the loader is total
			return prop == "C27"
		}
	}
	if c := v.contractFor(o.Fn); c != nil && c.own != nil && len(c.own.Sem) > 0 { // it has an owner
		return contains(c.own.Sem, prop)
	}
	return fprops[prop]
}

// fingerprints gives a hash of what the verification of each function reads of the source: the function itself,
// the functions without contract it reaches, and the declarations of the package.
func (v *Verifier) fingerprints() map[string]string {
	text := func(n interface{}) string {
		var b bytes.Buffer
		(&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), n)
		return b.String()
	}
	h := sha256.New()
	var common []string
	for _, f := range v.p.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok != token.IMPORT {
				common = append(common, text(g))
			}
		}
	}
	sort.Strings(common)
	fmt.Fprint(h, common)
	base := h.Sum(nil)
	bodies := map[string]string{}
	for fn, d := range v.p.decls {
		c := *d
		c.Doc = nil
		bodies[funcName(fn)] = text(&c)
	}
	out := map[string]string{}
	for n := range bodies {
		seen := map[string]bool{n: true}
		parts := []string{n + bodies[n]}
		var visit func(m string)
		visit = func(m string) {
			for c := range v.calls[m] {
				if seen[c] || v.contractFor(c) != nil {
					continue
				}
				seen[c] = true
				parts = append(parts, c+bodies[c])
				visit(c)
			}
		}
		visit(n)
		sort.Strings(parts)
		h := sha256.New()
		h.Write(base)
		fmt.Fprint(h, parts)
		out[n] = fmt.Sprintf("%x", h.Sum(nil)[:12])
	}
	return out
}

// changedSince tells which functions differ from those the committed fingerprints were taken of.
func (v *Verifier) changedSince(file string) map[string]bool {
	var old map[string]string
	if d, err := os.ReadFile(file); err == nil {
		json.Unmarshal(d, &old)
	}
	out := map[string]bool{}
	for n, f := range v.fingerprints() {
		if old[n] != f {
			out[n] = true
		}
	}
	return out
}

// ---------------------------------------------------------------- running

type runner struct {
	p      *Program
	sp     *Spec
	drop   map[string]bool
	notes  []string
	prop   string
	full   map[string]bool // functions all obligations of which are wanted
	stages []stage
	dl     time.Time
	secs   map[string]float64
	keepQ  bool
	won    map[string]int // the stage that proved the last obligation of a kind
	wins   map[string]int
}

type fnRun struct {
	name   string
	res    *FnResult
	obls   []*Oblig // relevant ones
	own    bool
	vac    string
	round  int
}

type job struct {
	o   *Oblig
	q   string
	vac []string // vacuity queries
	fr  *fnRun
}

// run generates and discharges the obligations of the named functions.
func (r *runner) run(names []string, own map[string]bool, lemmas bool, vac bool, filter func(o *Oblig) bool) []*fnRun {
	jobs := make(chan job, 128)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if j.vac != nil {
					all := true
					for _, q := range j.vac {
						ans, _, _ := runSolver(backends["z3q"], q, 0.5)
						if ans != "unsat" {
							all = false
							break
						}
					}
					if all {
						j.fr.vac = "vacuous"
					} else {
						j.fr.vac = "ok"
					}
					continue
				}
				r.solve(j.o, j.q, r.stages, &mu)
			}
		}()
	}
	var out []*fnRun
	for _, n := range names {
		resetTerms()
		v := newVerifier(r.p, r.sp)
		v.drop = r.drop
		g := newSMT(v)
		f := &fnRun{name: n, own: own[n]}
		f.res = v.verifyFunc(n)
		r.notes = append(r.notes, v.spErrs...)
		fp := v.propsOf(n)
		f.res.Obls = append(f.res.Obls, v.owned(n, fp["C21"])...)
		for _, o := range f.res.Obls {
			prop := r.prop
			if !f.own {
				prop = ""
			}
			if filter != nil && !filter(o) {
				continue
			}
			if !v.relevant(o, prop, fp) {
				if !r.full[n] {
					continue
				}
				o.dep = true
			}
			f.obls = append(f.obls, o)
			if o.Status == "" {
				q := g.query(o)
				if r.keepQ {
					o.query = q
				}
				o.light, o.focus, o.bare = g.light(o), g.focus(o, false), g.focus(o, true)
				jobs <- job{o: o, q: q}
			}
			o.facts, o.goal = nil, nil
		}
		if vac && f.own {
			var qs []string
			for i := len(f.res.Exits) - 1; i >= 0 && len(qs) < 6; i-- {
				qs = append(qs, g.text(f.res.Exits[i], nil, 0))
			}
			if len(qs) > 0 {
				jobs <- job{vac: qs, fr: f}
			} else if f.res.Err == "" {
				f.vac = "no exit"
			}
		}
		f.res.Exits = nil
		out = append(out, f)
	}
	if lemmas {
		resetTerms()
		v := newVerifier(r.p, r.sp)
		g := newSMT(v)
		f := &fnRun{name: "lemmas", own: true, res: &FnResult{Name: "lemmas"}}
		for _, o := range g.lemmas() {
			f.obls = append(f.obls, o)
			q := g.query(o)
			if r.keepQ {
				o.query = q
			}
			jobs <- job{o: o, q: q}
			o.facts, o.goal = nil, nil
		}
		out = append(out, f)
	}
	close(jobs)
	wg.Wait()
	return out
}

func (r *runner) solve(o *Oblig, q string, stages []stage, mu *sync.Mutex) {
	last := ""
	key := o.Fn + "/" + o.Kind + "/" + o.Desc
	order := make([]int, 0, len(stages)+1)
	mu.Lock()
	if i, ok := r.won[key]; ok && i < len(stages) { // what worked for the like of it comes first
		order = append(order, i)
	}
	mu.Unlock()
	for i := range stages {
		if len(order) == 0 || i != order[0] {
			order = append(order, i)
		}
	}
	for _, si := range order {
		s := stages[si]
		left := time.Until(r.dl).Seconds()
		if left < 0.5 {
			last += "deadline reached\n"
			break
		}
		t := s.secs
		if t > left {
			t = left
		}
		qq := []string{q, o.light, o.focus, o.bare}[s.light]
		if qq == "" {
			continue
		}
		ans, out, secs := runSolver(backends[s.be], qq, t)
		o.Secs += secs
		mu.Lock()
		r.secs[backends[s.be].name] += secs
		mu.Unlock()
		if ans == "unsat" {
			o.Status, o.By = "proved", backends[s.be].name
			o.light, o.focus, o.bare = "", "", ""
			mu.Lock()
			if r.won == nil {
				r.won, r.wins = map[string]int{}, map[string]int{}
			}
			r.won[key] = si
			r.wins[fmt.Sprintf("%s/%g/%d", s.be, s.secs, s.light)]++
			mu.Unlock()
			return
		}
		last += fmt.Sprintf("%s after %.1fs: %s\n", backends[s.be].name, secs, trunc(out, 200))
	}
	o.Status = "failed"
	o.Output = last
	o.query = q
}

// retry is a second, longer attempt at a handful of obligations.
func (r *runner) retry(res []*fnRun) {
	var left []*Oblig
	for _, f := range res {
		for _, o := range f.obls {
			if o.Status == "failed" && o.query != "" && !o.retried {
				left = append(left, o)
			}
		}
	}
	if r.prop != "" && len(left) <= 3 {
		return // left to lastResort
	}
	if len(left) > 0 && len(left) <= 24 {
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, runtime.NumCPU())
		for _, o := range left {
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				o.retried = true
				out := o.Output
				r.solve(o, o.query, []stage{{"z3new", 15, 2}, {"z3cn", 15, 1}, {"z3c", 15, 1}, {"z3new", 15, 0}, {"z3", 15, 1}, {"z3b", 15, 0}, {"cvc5", 45, 0}}, &mu)
				o.Output = out + o.Output
			}()
		}
		wg.Wait()
	}
}

// lastResort gives the last few failures all back ends at once, with a long limit,
// one obligation after the other, so that a loaded machine doesn't decide.
func (r *runner) lastResort(res []*fnRun, secs float64) {
	if r.prop == "" {
		return
	}
	dl := r.dl.Add(120 * time.Second)
	var left []*Oblig
	for _, f := range res {
		lim := 6
		if r.full[f.name] { // its text differs from the verified one
			lim = 3
		}
		n := len(left)
		for _, o := range f.obls {
			if o.Status == "failed" && !o.dep && !o.tried {
				if o.query == "" {
					return
				}
				left = append(left, o)
			}
		}
		if len(left)-n > lim {
			return
		}
	}
	if len(left) > 6 {
		return
	}
	for _, o := range left {
		o.tried = true
		t := secs
		if r.full[o.Fn] {
			t = secs * 2 / 3
		}
		if l := time.Until(dl).Seconds(); l < t {
			t = l
		}
		if t < 5 {
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		type ans struct{ a, by string }
		ch := make(chan ans)
		n := 0
		for _, s := range []stage{{"z3", 0, 0}, {"z3", 0, 1}, {"z3c", 0, 1}, {"z3cn", 0, 1}, {"z3new", 0, 2}, {"z3new", 0, 0}, {"z3b", 0, 0}, {"cvc5", 0, 1}, {"cvc5", 0, 0}} {
			q := []string{o.query, o.light, o.focus, o.bare}[s.light]
			if q == "" {
				continue
			}
			n++
			go func(s stage) {
				a, _, sec := runSolverCtx(ctx, backends[s.be], q, t)
				_ = sec
				ch <- ans{a, backends[s.be].name}
			}(s)
		}
		ok := false
		for ; n > 0; n-- {
			if a := <-ch; a.a == "unsat" && !ok {
				ok = true
				o.Status, o.By = "proved", a.by
				cancel()
			}
		}
		cancel()
		if !ok {
			return
		}
	}
}

// verifyAll is run with the Houdini loop: a loop invariant that does not hold is
// dropped, and what depends on it is checked again without it.
func (r *runner) verifyAll(names []string, own map[string]bool, lemmas, vac bool) []*fnRun {
	res := r.run(names, own, lemmas, vac, nil)
	r.retry(res)
	r.lastResort(res, 60)
	for round := 1; round <= 5; round++ {
		var again []string
		for _, f := range res {
			bad := false
			for _, o := range f.obls {
				if o.Status == "failed" && o.invKey != "" {
					if !r.drop[o.invKey] {
						r.drop[o.invKey] = true
						r.notes = append(r.notes, "invariant dropped, not inductive here: "+o.Name)
					}
					bad = true
				}
			}
			if bad {
				again = append(again, f.name)
			}
		}
		if len(again) == 0 || time.Until(r.dl) < 5*time.Second {
			break
		}
		n2 := r.run(again, own, false, false, nil)
		for i, f := range res {
			for _, g := range n2 {
				if g.name == f.name {
					g.vac = f.vac
					res[i] = g
				}
			}
		}
	}
	r.retry(res)
	r.lastResort(res, 60)
	return res
}

// closure: functions under contract that the named ones may call.
func (v *Verifier) closure(names []string) []string {
	seen := map[string]bool{}
	var out []string
	var visit func(n string)
	visit = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		if c := v.contractFor(n); c != nil && v.p.byName[n] != nil {
			out = append(out, n)
		}
		for m := range v.calls[n] {
			visit(m)
		}
	}
	for _, n := range names {
		visit(n)
	}
	sort.Strings(out)
	return out
}

// addImplementers gives every implementation of an interface method under
// contract that contract, whether or not it is listed.
func addImplementers(v *Verifier) {
	for _, n := range append([]string{}, v.sp.Order...) {
		if !v.isIfaceMethodContract(n) {
			continue
		}
		i := strings.Index(n, ".")
		nm, ok := namedIn(v.p, n[:i])
		if !ok {
			continue
		}
		for _, m := range v.dispatch(nm, n[i+1:]) {
			if v.sp.Contracts[m] == nil {
				c := v.sp.Contracts[n]
				v.sp.Contracts[m] = &Contract{Name: m, Params: c.Params, Results: c.Results, Implements: n, Pos: c.Pos}
				v.sp.Order = append(v.sp.Order, m)
			}
		}
	}
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	Wall        float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func check(prop, tier, repo, verif string, seed int) int {
	t0 := time.Now()
	fail := func(code int, f string, a ...interface{}) int {
		fmt.Printf(f+"\n", a...)
		return code
	}
	p, err := loadProgram(repo)
	if err != nil {
		return fail(2, "cannot load %s: %v", repo, err)
	}
	sp := loadSpec(filepath.Join(verif, "spec"))
	v := newVerifier(p, sp)
	addImplementers(v)
	v.eff = map[string]*effContract{}
	var ownNames []string
	own := map[string]bool{}
	var missing []string
	for _, n := range v.underContract() {
		if p.byName[n] == nil {
			if v.propsOf(n)[prop] {
				missing = append(missing, n)
			}
			continue
		}
		if v.propsOf(n)[prop] {
			ownNames = append(ownNames, n)
			own[n] = true
		}
	}
	if len(ownNames) == 0 {
		return fail(2, "no function is under contract for %s", prop)
	}
	budget := 600 * time.Second
	stages := quickStages
	if tier == "thorough" {
		stages = []stage{{"z3", 3, 0}, {"z3", 3, 1}, {"z3new", 10, 0}, {"z3new", 10, 1}, {"cvc5", 10, 1}, {"cvc5", 10, 0}, {"z3", 30, 0}, {"z3b", 30, 0}}
		budget = 600 * time.Second
	}
	changed := v.changedSince(filepath.Join(verif, "spec", "fingerprints.json"))
	if tier == "thorough" {
		for n := range p.byName {
			changed[n] = true
		}
	}
	r := &runner{p: p, sp: sp, drop: map[string]bool{}, prop: prop, full: changed, stages: stages, dl: t0.Add(budget), secs: map[string]float64{}}
	res := r.verifyAll(ownNames, own, true, true)
	var failed, depFailed []*Oblig
	depN := 0
	var oblN, disN, syn int
	byBE := map[string]int{}
	perFn := map[string]interface{}{}
	for _, f := range res {
		d, n := 0, 0
		for _, o := range f.obls {
			if o.dep {
				depN++
				if o.Status != "proved" {
					depFailed = append(depFailed, o)
				}
				continue
			}
			n++
			oblN++
			if o.Status == "proved" {
				disN++
				d++
				byBE[o.By]++
				if o.By == "syntactic" {
					syn++
				}
			} else {
				failed = append(failed, o)
			}
		}
		perFn[f.name] = map[string]interface{}{"obligations": n, "discharged": d, "paths": f.res.Paths, "reachable_exit": f.vac}
		if f.vac == "vacuous" || f.vac == "no exit" {
			failed = append(failed, &Oblig{Fn: f.name, Kind: "vacuity", Desc: "some return is reachable under the contract", Name: f.name + "/vacuity/" + f.vac, Status: "failed", By: "vacuity check"})
		}
	}
	// functions the property relies on through their contracts: they belong to the
	// checks of other properties, but when one of their obligations fails a failing
	// input for this property is looked for as well
	var deps, asIs []string
	for _, n := range v.closure(ownNames) {
		if own[n] {
			continue
		}
		if changed[n] {
			deps = append(deps, n)
		} else {
			asIs = append(asIs, n)
		}
	}
	if len(failed) == 0 && len(deps) > 0 {
		r2 := &runner{p: p, sp: sp, drop: map[string]bool{}, prop: "", stages: quickStages, dl: time.Now().Add(60 * time.Second), secs: r.secs}
		for _, f := range r2.verifyAll(deps, map[string]bool{}, false, false) {
			for _, o := range f.obls {
				depN++
				if o.Status != "proved" {
					depFailed = append(depFailed, o)
				}
			}
		}
	}
	// failing input
	found, replayText, searched := false, "", 0
	var bounded map[string]interface{}
	search := len(failed) > 0 || len(depFailed) > 0 || tier == "thorough" || sp.Bounded[prop] != ""
	if search {
		secs := 45.0
		if tier == "thorough" {
			secs = 120
		} else if len(failed) == 0 && len(depFailed) == 0 {
			secs = 10 // bounded stand-in for the functions outside the verifier's reach
		}
		found, replayText, searched, bounded = runSearch(prop, repo, verif, secs, seed)
	}
	viol := 0
	replayDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	replay := filepath.Join(replayDir, prop+".txt")
	os.Remove(replay)
	if len(failed) > 0 || found {
		viol = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		if found {
			fmt.Fprintf(&b, "failing input, replayed on the real code:\n%s\n\n", replayText)
		}
		if len(failed) > 0 {
			fmt.Fprintf(&b, "failed obligations (%d):\n", len(failed))
		}
		for i, o := range failed {
			if i == 40 {
				fmt.Fprintf(&b, "... and %d more\n", len(failed)-40)
				break
			}
			fmt.Fprintf(&b, "\n%s\n  kind %s, at %s\n  %s\n", o.Name, o.Kind, o.Pos, strings.ReplaceAll(strings.TrimSpace(o.Output), "\n", "\n  "))
		}
		for i, o := range depFailed {
			if i == 0 {
				fmt.Fprintf(&b, "\nfailed obligations of functions this property relies on (%d):\n", len(depFailed))
			}
			if i < 40 {
				fmt.Fprintf(&b, "%s at %s\n", o.Name, o.Pos)
			}
		}
		for _, n := range r.notes {
			fmt.Fprintf(&b, "note: %s\n", n)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	samples := []string{}
	for _, f := range res {
		for _, o := range f.obls {
			if o.Kind == "post" && contains(o.Tags, prop) && o.By != "syntactic" && len(samples) < 8 {
				samples = append(samples, o.Name)
				break
			}
		}
	}
	cov := map[string]interface{}{
		"obligations": oblN, "discharged": disN, "discharged_by": byBE, "discharged_syntactically": syn,
		"functions": perFn, "functions_under_contract": len(ownNames), "solver_seconds": round(r.secs),
		"checker_cmd":  fmt.Sprintf("/verif/bin/govc check -prop %s -tier %s", prop, tier),
		"trusted_base": trustedBase(sp), "samples": samples,
		"relied_on_through_contracts": asIs, "relied_on_verified_here": deps, "relied_on_obligations": depN, "relied_on_failed": len(depFailed),
	}
	if len(missing) > 0 {
		cov["contracts_without_function"] = missing
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	if search {
		cov["search_cases"] = searched
	}
	if bounded != nil && sp.Bounded[prop] != "" {
		cov["bounded_standin"] = map[string]interface{}{"for": sp.Bounded[prop], "result": bounded, "counted_as_proved": false}
	}
	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: cov, Assumptions: assumptions(sp), Wall: float64(int(time.Since(t0).Seconds()*100)) / 100, Violations: viol}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(data, '\n'), 0o644)
	fmt.Printf("%s: %d functions, %d obligations, %d discharged, %d failed; %d relied on, %d of them failed; %.1fs\n", prop, len(ownNames), oblN, disN, len(failed), depN, len(depFailed), time.Since(t0).Seconds())
	for i, o := range failed {
		if i < 10 {
			fmt.Printf("  failed: %s (%s)\n", o.Name, o.Pos)
		}
	}
	for i, o := range depFailed {
		if i < 10 {
			fmt.Printf("  relied on, failed: %s (%s)\n", o.Name, o.Pos)
		}
	}
	if viol == 1 {
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
		return 1
	}
	return 0
}

func round(m map[string]float64) map[string]float64 {
	o := map[string]float64{}
	for k, x := range m {
		o[k] = float64(int(x*10)) / 10
	}
	return o
}

func trustedBase(sp *Spec) []string {
	out := []string{"govc (this verifier: typed-AST symbolic execution and SMT encoding, /verif/govc)", "go/types of the installed Go toolchain", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2"}
	for _, a := range sp.Axioms {
		if !a.Lemma {
			out = append(out, "axiom "+a.Name)
		}
	}
	for n, c := range sp.Contracts {
		if c.Trusted {
			out = append(out, "trusted contract "+n)
		}
		if strings.HasPrefix(n, "extern:") {
			out = append(out, "assumed contract of "+n[7:])
		}
		if len(c.Defines) > 0 {
			out = append(out, "definition of specification functions at the entry of "+n)
		}
	}
	sort.Strings(out[3:])
	return out
}

func assumptions(sp *Spec) []string {
	return []string{
		"integers are mathematical: no overflow of int is modelled (conversions to unsigned and byte are checked)",
		"slices are values for the prover; an analysis of the syntax tree (own.go) shows on every run that elements are only written of slices nobody else has and nothing is appended to a slice cut off from a longer one; that two copies of one slice are not both appended to is assumed",
		"runes of a text are code points, none of them the end-of-file value -1",
		"memory is sufficient; the stack is deep enough for the recursion, whose measure is proved to decrease",
		"methods are called on the declared concrete types; the interfaces have no implementation outside the package",
	}
}

// runSearch looks for an input on which the real code breaks the property.
func runSearch(prop, repo, verif string, secs float64, seed int) (bool, string, int, map[string]interface{}) {
	h := filepath.Join(verif, "harness")
	files, _ := filepath.Glob(filepath.Join(h, "*_verif_test.go"))
	if len(files) == 0 {
		return false, "", 0, nil
	}
	tmp, err := os.MkdirTemp("", "govc-search")
	if err != nil {
		return false, "", 0, nil
	}
	defer os.RemoveAll(tmp)
	ov := map[string]map[string]string{"Replace": {}}
	for _, f := range files {
		ov["Replace"][filepath.Join(repo, filepath.Base(f))] = f
	}
	data, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, data, 0o644)
	outF := filepath.Join(tmp, "out.json")
	bin := filepath.Join(tmp, "search.test")
	args := []string{"test", "-overlay", of, "-c", "-o", bin, "."}
	if prop == "C05" || prop == "C21" {
		args = []string{"test", "-race", "-overlay", of, "-c", "-o", bin, "."}
	}
	build := osexec.Command("go", args...)
	build.Dir = repo
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Printf("search: cannot build: %s\n", trunc(string(out), 600))
		return false, "", 0, nil
	}
	cmd := osexec.Command("timeout", "-k", "5", fmt.Sprint(int(secs+60)), bin, "-test.run", "^TestVerifSearch$", "-test.timeout", fmt.Sprintf("%ds", int(secs+50)))
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_PROP="+prop, fmt.Sprintf("VERIF_SECS=%g", secs), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_OUT="+outF, "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB")
	out, err := cmd.CombinedOutput()
	var res struct {
		Found  bool                   `json:"found"`
		Text   string                 `json:"text"`
		Cases  int                    `json:"cases"`
		Detail map[string]interface{} `json:"detail"`
	}
	if d, e := os.ReadFile(outF); e == nil {
		json.Unmarshal(d, &res)
	}
	if !res.Found && err != nil {
		// the process died: the cases its workers were on are in the journals
		js, _ := filepath.Glob(outF + ".case*")
		sort.Strings(js)
		for _, f := range js {
			if j, e := os.ReadFile(f); e == nil && len(j) > 0 {
				res.Found = true
				res.Text += "the run died while a worker was on: " + string(j) + "\n"
			}
		}
		if res.Found {
			res.Text += trunc(string(out), 4000)
		}
	}
	return res.Found, res.Text, res.Cases, res.Detail
}
