package main

import (
	"bytes"
	"context"
	"fmt"
	osexec "os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

const seqTmpl = `
(declare-fun len_$S ($S) Int)
(declare-fun idx_$S ($S Int) $E)
(declare-const empty_$S $S)
(declare-fun build_$S ($S $E) $S)
(declare-fun app_$S ($S $S) $S)
(declare-fun sl_$S ($S Int Int) $S)
(declare-fun upd_$S ($S Int $E) $S)
(declare-fun eq_$S ($S $S) Bool)
(declare-fun dif_$S ($S $S) Int)
(assert (forall ((s $S)) (! (<= 0 (len_$S s)) :pattern ((len_$S s)))))
(assert (= (len_$S empty_$S) 0))
(assert (forall ((s $S)) (! (=> (= (len_$S s) 0) (= s empty_$S)) :pattern ((len_$S s)))))
(assert (forall ((s $S) (x $E)) (! (and (= (len_$S (build_$S s x)) (+ (len_$S s) 1)) (= (idx_$S (build_$S s x) (len_$S s)) x)) :pattern ((build_$S s x)))))
(assert (forall ((s $S) (x $E) (i Int)) (! (and (=> (= i (len_$S s)) (= (idx_$S (build_$S s x) i) x)) (=> (and (<= 0 i) (< i (len_$S s))) (= (idx_$S (build_$S s x) i) (idx_$S s i)))) :pattern ((idx_$S (build_$S s x) i)))))
(assert (forall ((s $S) (x $E) (i Int)) (! (=> (and (<= 0 i) (< i (len_$S s))) (= (idx_$S (build_$S s x) i) (idx_$S s i))) :pattern ((build_$S s x) (idx_$S s i)))))
(assert (forall ((a $S) (b $S)) (! (= (len_$S (app_$S a b)) (+ (len_$S a) (len_$S b))) :pattern ((app_$S a b)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (and (=> (and (<= 0 i) (< i (len_$S a))) (= (idx_$S (app_$S a b) i) (idx_$S a i))) (=> (and (<= (len_$S a) i) (< i (+ (len_$S a) (len_$S b)))) (= (idx_$S (app_$S a b) i) (idx_$S b (- i (len_$S a)))))) :pattern ((idx_$S (app_$S a b) i)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (=> (and (<= 0 i) (< i (len_$S a))) (= (idx_$S (app_$S a b) i) (idx_$S a i))) :pattern ((app_$S a b) (idx_$S a i)))))
(assert (forall ((a $S)) (! (= (app_$S a empty_$S) a) :pattern ((app_$S a empty_$S)))))
(assert (forall ((a $S)) (! (= (app_$S empty_$S a) a) :pattern ((app_$S empty_$S a)))))
(assert (forall ((a $S) (b $S)) (! (=> (= (len_$S b) 0) (= (app_$S a b) a)) :pattern ((app_$S a b)))))
(assert (forall ((a $S) (b $S)) (! (=> (= (len_$S a) 0) (= (app_$S a b) b)) :pattern ((app_$S a b)))))
(assert (forall ((a $S) (b $S) (c $S)) (! (= (app_$S (app_$S a b) c) (app_$S a (app_$S b c))) :pattern ((app_$S (app_$S a b) c)))))
(assert (forall ((a $S) (b $S) (x $E)) (! (= (app_$S a (build_$S b x)) (build_$S (app_$S a b) x)) :pattern ((app_$S a (build_$S b x))))))
(assert (forall ((s $S) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len_$S s))) (= (len_$S (sl_$S s a b)) (- b a))) :pattern ((sl_$S s a b)))))
(assert (forall ((s $S) (a Int) (b Int)) (! (=> (and (= a 0) (= b (len_$S s))) (= (sl_$S s a b) s)) :pattern ((sl_$S s a b)))))
(assert (forall ((s $S) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len_$S s)) (<= 0 i) (< i (- b a))) (= (idx_$S (sl_$S s a b) i) (idx_$S s (+ a i)))) :pattern ((idx_$S (sl_$S s a b) i)))))
(assert (forall ((s $S) (a Int) (b Int) (j Int)) (! (=> (and (<= 0 a) (<= a j) (< j b) (<= b (len_$S s))) (= (idx_$S (sl_$S s a b) (- j a)) (idx_$S s j))) :pattern ((sl_$S s a b) (idx_$S s j)))))
(assert (forall ((s $S) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (len_$S s)) (<= 0 c) (<= c d) (<= d (- b a))) (= (sl_$S (sl_$S s a b) c d) (sl_$S s (+ a c) (+ a d)))) :pattern ((sl_$S (sl_$S s a b) c d)))))
(assert (forall ((s $S) (a Int) (b Int) (b2 Int) (c Int)) (! (=> (and (= b b2) (<= 0 a) (<= a b) (<= b c) (<= c (len_$S s))) (= (app_$S (sl_$S s a b) (sl_$S s b2 c)) (sl_$S s a c))) :pattern ((app_$S (sl_$S s a b) (sl_$S s b2 c))))))
(assert (forall ((s $S) (a Int) (b Int) (x $E)) (! (=> (and (<= 0 a) (<= a b) (< b (len_$S s)) (= x (idx_$S s b))) (= (build_$S (sl_$S s a b) x) (sl_$S s a (+ b 1)))) :pattern ((build_$S (sl_$S s a b) x)))))
(assert (forall ((a $S) (b $S) (i Int) (j Int)) (! (and (=> (and (<= 0 i) (<= i j) (<= j (len_$S a))) (= (sl_$S (app_$S a b) i j) (sl_$S a i j))) (=> (and (<= (len_$S a) i) (<= i j) (<= j (+ (len_$S a) (len_$S b)))) (= (sl_$S (app_$S a b) i j) (sl_$S b (- i (len_$S a)) (- j (len_$S a)))))) :pattern ((sl_$S (app_$S a b) i j)))))
(assert (forall ((a $S) (x $E) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S a))) (= (sl_$S (build_$S a x) i j) (sl_$S a i j))) :pattern ((sl_$S (build_$S a x) i j)))))
(assert (forall ((s $S) (i Int) (x $E)) (! (=> (and (<= 0 i) (< i (len_$S s))) (and (= (len_$S (upd_$S s i x)) (len_$S s)) (= (idx_$S (upd_$S s i x) i) x))) :pattern ((upd_$S s i x)))))
(assert (forall ((s $S) (i Int) (x $E) (j Int)) (! (=> (and (<= 0 i) (< i (len_$S s)) (<= 0 j) (< j (len_$S s)) (not (= i j))) (= (idx_$S (upd_$S s i x) j) (idx_$S s j))) :pattern ((idx_$S (upd_$S s i x) j)))))
(assert (forall ((a $S) (b $S)) (! (=> (eq_$S a b) (= a b)) :pattern ((eq_$S a b)))))
(assert (forall ((a $S) (b $S)) (! (or (eq_$S a b) (not (= (len_$S a) (len_$S b))) (and (<= 0 (dif_$S a b)) (< (dif_$S a b) (len_$S a)) (not (= (idx_$S a (dif_$S a b)) (idx_$S b (dif_$S a b)))))) :pattern ((eq_$S a b)))))
`

const strAxioms = `
(declare-fun slen (Str) Int)
(declare-fun sbyte (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun runesOf (Str) SI)
(declare-fun strOf (SI) Str)
(declare-fun dtype (Int) Int)
(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))
`

const cardAxioms = `
(declare-fun card ((Array Str Bool)) Int)
(assert (forall ((d (Array Str Bool))) (! (<= 0 (card d)) :pattern ((card d)))))
(assert (= (card ((as const (Array Str Bool)) false)) 0))
(assert (forall ((d (Array Str Bool)) (k Str)) (! (= (card (store d k true)) (ite (select d k) (card d) (+ (card d) 1))) :pattern ((card (store d k true))))))
(assert (forall ((d (Array Str Bool)) (k Str)) (! (= (card (store d k true)) (ite (select d k) (card d) (+ (card d) 1))) :pattern ((card d) (store d k true)))))
(assert (forall ((d (Array Str Bool)) (k Str)) (! (= (card (store d k false)) (ite (select d k) (- (card d) 1) (card d))) :pattern ((card (store d k false))))))
(declare-fun cardwit ((Array Str Bool)) Str)
(assert (forall ((d (Array Str Bool))) (! (=> (<= 1 (card d)) (select d (cardwit d))) :pattern ((card d)))))
(assert (forall ((d (Array Str Bool)) (k Str)) (! (=> (select d k) (<= 1 (card d))) :pattern ((card d) (select d k)))))
(assert (forall ((d (Array Str Bool)) (k Str) (k2 Str)) (! (=> (and (select d k) (select d k2) (= (card d) 1)) (= k k2)) :pattern ((card d) (select d k) (select d k2)))))
`

var builtinFn = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "<": true, "<=": true, "+": true, "-": true, "*": true, "select": true, "store": true, "forall": true, "exists": true, "true": true, "false": true,
	"slen": true, "sbyte": true, "ssub": true, "scat": true, "runesOf": true, "strOf": true, "dtype": true, "card": true}

var connective = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "<": true, "<=": true, "forall": true, "exists": true}

type smtAxiom struct {
	name string
	t    *Term
	syms map[string]bool // spec functions in it
	trig [][]string      // spec functions per pattern; nil if ground
}

type smtGen struct {
	masks   map[int]uint32
	sliceOf map[string]uint32
	v      *Verifier
	axioms []smtAxiom
}

func symsOf(t *Term, out map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	out[t.Op] = true
	for _, a := range t.Args {
		symsOf(a, out, seen)
	}
	for _, p := range t.Pats {
		for _, q := range p {
			symsOf(q, out, seen)
		}
	}
}

func newSMT(v *Verifier) *smtGen {
	quantMemo = map[int]bool{}
	g := &smtGen{v: v}
	for _, a := range v.sp.Axioms {
		c := &SpecCtx{v: v, env: map[string]SV{}, heap: func(c string) *Term {
			panic(specError{a.Pos + ": axiom mentions the heap"})
		}, alloc: mkConst("alloc0", SInt)}
		t := c.Bool(a.E)
		sx := smtAxiom{name: a.Name, t: t, syms: map[string]bool{}}
		symsOf(t, sx.syms, map[int]bool{})
		if t.Op == "forall" {
			for _, p := range t.Pats {
				ps := map[string]bool{}
				for _, q := range p {
					symsOf(q, ps, map[int]bool{})
				}
				var l []string
				for s := range ps {
					if _, ok := v.sp.Funcs[s]; ok {
						l = append(l, s)
					}
				}
				sx.trig = append(sx.trig, l)
			}
		}
		g.axioms = append(g.axioms, sx)
	}
	return g
}

// seqGoal replaces sequence equalities in positive positions by the extensional form.
func seqGoal(t *Term, pos bool) *Term {
	switch t.Op {
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = seqGoal(a, pos)
		}
		return rebuild(t, as)
	case "not":
		return mkNot(seqGoal(t.Args[0], !pos))
	case "=>":
		return mkImp(seqGoal(t.Args[0], !pos), seqGoal(t.Args[1], pos))
	case "=":
		if pos && isSeq(t.Args[0].Sort) {
			return seqEq(t.Args[0], t.Args[1])
		}
		if t.Args[0].Sort == SBool {
			return t
		}
	case "forall":
		return mkQuant("forall", t.Vars, t.Pats, seqGoal(t.Args[0], pos))
	}
	return t
}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t.id]; ok {
		return r
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if !r && hasQuant(a) {
			r = true
		}
	}
	quantMemo[t.id] = r
	return r
}

var quantMemo = map[int]bool{}

// goalMask: the groups of a goal, those of values stored in it aside.
func (g *smtGen) goalMask(t *Term) uint32 {
	if t.Op == "store" {
		return g.goalMask(t.Args[0])
	}
	if len(t.Args) == 0 {
		return g.sliceMask(t)
	}
	m := g.sliceMask(tTrue) | g.sliceOf[t.Op]
	for _, a := range t.Args {
		m |= g.goalMask(a)
	}
	return m
}

// focus is the query with only those facts that share a group (slice or focus) with the goal, or belong to none.
func (g *smtGen) focus(o *Oblig, bare bool) string {
	gm := g.goalMask(o.goal)
	if gm == 0 {
		return ""
	}
	changed := false
	var slim func(t *Term) *Term
	slim = func(t *Term) *Term {
		m := g.sliceMask(t)
		if m == 0 || m&^gm == 0 {
			return t
		}
		switch t.Op {
		case "and":
			var as []*Term
			for _, a := range t.Args {
				as = append(as, slim(a))
			}
			return mkAnd(as...)
		case "=>":
			return mkImp(t.Args[0], slim(t.Args[1]))
		}
		if m&gm != 0 {
			return t
		}
		changed = true
		return tTrue
	}
	var fs []*Term
	for f := o.facts; f != nil; f = f.prev {
		fs = append(fs, slim(f.t))
	}
	if !changed && !bare {
		return ""
	}
	var fl *factList
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i] != tTrue {
			fl = fl.add(fs[i])
		}
	}
	return g.textOf(fl, seqGoal(o.goal, true), o.axLimit, bare)
}

// light is the query with what holds of all streams of a chain replaced by its instances at the streams the
// obligation names: a weaker set of facts, and often a much easier one. Empty if it makes no difference.
func (g *smtGen) light(o *Oblig) string {
	var ss []*Term
	seen := map[int]bool{}
	hasV := map[int]bool{}
	add := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if strings.HasPrefix(t.Op, "?") {
			hasV[t.id] = true
		}
		for _, a := range t.Args {
			walk(a)
			if hasV[a.id] {
				hasV[t.id] = true
			}
		}
		if t.Op == "chain" && !hasV[t.Args[0].id] && !add[t.Args[0].id] {
			add[t.Args[0].id] = true
			ss = append(ss, t.Args[0])
		}
	}
	for f := o.facts; f != nil; f = f.prev {
		walk(f.t)
	}
	walk(o.goal)
	if len(ss) > 8 {
		return ""
	}
	// terms that quantify over the second argument of chain
	memo := map[int]bool{}
	var chained func(t *Term) bool
	chained = func(t *Term) bool {
		if r, ok := memo[t.id]; ok {
			return r
		}
		memo[t.id] = false
		r := t.Op == "chain" && strings.HasPrefix(t.Args[1].Op, "?")
		for _, a := range t.Args {
			r = chained(a) || r
		}
		memo[t.id] = r
		return r
	}
	changed := false
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !chained(t) {
			return t
		}
		changed = true
		switch t.Op {
		case "and":
			var as []*Term
			for _, a := range t.Args {
				as = append(as, rec(a))
			}
			return mkAnd(as...)
		case "=>":
			if chained(t.Args[0]) {
				return tTrue
			}
			return mkImp(t.Args[0], rec(t.Args[1]))
		case "forall":
			for _, v := range t.Vars {
				if v.Sort != SInt {
					return tTrue
				}
			}
			if len(t.Vars) > 2 {
				return tTrue
			}
			var as []*Term
			for _, s := range ss {
				m := map[int]*Term{t.Vars[0].id: s}
				if len(t.Vars) == 1 {
					as = append(as, rec(subst(t.Args[0], m)))
					continue
				}
				for _, u := range ss {
					as = append(as, rec(subst(t.Args[0], map[int]*Term{t.Vars[0].id: s, t.Vars[1].id: u})))
				}
			}
			return mkAnd(as...)
		}
		return tTrue
	}
	const lightBits = 1<<16 - 1
	mask := func(t *Term) uint32 { return g.sliceMask(t) & lightBits }
	gm := mask(o.goal)
	var slim func(t *Term) *Term
	slim = func(t *Term) *Term {
		if mask(t)&^gm == 0 {
			return t
		}
		changed = true
		switch t.Op {
		case "and":
			var as []*Term
			for _, a := range t.Args {
				as = append(as, slim(a))
			}
			return mkAnd(as...)
		case "=>":
			if mask(t.Args[0])&^gm != 0 {
				return tTrue
			}
			return mkImp(t.Args[0], slim(t.Args[1]))
		case "forall":
			for _, p := range t.Pats {
				for _, q := range p {
					if mask(q)&^gm != 0 {
						return tTrue
					}
				}
			}
			return mkQuant("forall", t.Vars, t.Pats, slim(t.Args[0]))
		}
		return tTrue
	}
	var fs []*Term
	for f := o.facts; f != nil; f = f.prev {
		fs = append(fs, slim(rec(f.t)))
	}
	if !changed {
		return ""
	}
	var fl *factList
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i] != tTrue {
			fl = fl.add(fs[i])
		}
	}
	return g.text(fl, seqGoal(o.goal, true), o.axLimit)
}

// sliceMask tells which slices a term speaks about.
func (g *smtGen) sliceMask(t *Term) uint32 {
	if g.masks == nil {
		g.masks = map[int]uint32{}
		g.sliceOf = map[string]uint32{}
		for i, s := range g.v.sp.Slices {
			for _, n := range s {
				g.sliceOf[n] |= 1 << uint(i)
			}
		}
		for i, s := range g.v.sp.Focus {
			for _, n := range s {
				g.sliceOf[n] |= 1 << uint(16+i)
			}
		}
	}
	if m, ok := g.masks[t.id]; ok {
		return m
	}
	n := t.Op
	if len(n) > 2 && n[1] == '_' && (n[0] == 'H' || n[0] == 'L' || n[0] == 'G') {
		n = strings.TrimPrefix(n[2:], "ghost.")
		if i := strings.IndexByte(n, '!'); i >= 0 {
			n = n[:i]
		}
	}
	m := g.sliceOf[n]
	for _, a := range t.Args {
		m |= g.sliceMask(a)
	}
	g.masks[t.id] = m
	return m
}

func (g *smtGen) query(o *Oblig) string { return g.text(o.facts, seqGoal(o.goal, true), o.axLimit) }

// lemmas gives an obligation for each lemma of the specification: it follows from
// the axioms and lemmas before it, by induction on a natural number if it says so.
func (g *smtGen) lemmas() []*Oblig {
	var out []*Oblig
	for i, a := range g.v.sp.Axioms {
		if !a.Lemma {
			continue
		}
		t := g.axioms[i].t
		var facts *factList
		goal := t
		if t.Op == "forall" {
			m := map[int]*Term{}
			var ind *Term
			for j, q := range t.Vars {
				c := fresh("lem_"+a.E.Vars[j].Name, q.Sort)
				m[q.id] = c
				if a.E.Vars[j].Name == a.Induct {
					ind = q
				}
			}
			goal = subst(t.Args[0], m)
			uc := &SpecCtx{v: g.v, env: map[string]SV{}, alloc: mkConst("alloc0", SInt)}
			for j, q := range t.Vars {
				_, gt := g.v.specSort(a.E.Vars[j].Type)
				uc.env[a.E.Vars[j].Name] = SV{m[q.id], gt}
			}
			for _, u := range a.Using {
				ut := uc.Eval(u).t
				facts = facts.add(mk("mark_"+ut.Sort, SBool, ut))
			}
			if ind != nil {
				k := m[ind.id]
				ih := mkForall(t.Vars, t.Pats, mkImp(mkAnd(mkLe(tZero, ind), mkLt(ind, k)), t.Args[0]))
				facts = facts.add(ih)
				facts = facts.add(mkLe(tZero, k))
			}
		}
		for _, gl := range splitGoal(goal) {
			f, gg := facts, gl
			for gg.Op == "=>" {
				f = f.add(gg.Args[0])
				gg = gg.Args[1]
			}
			out = append(out, &Oblig{Fn: "lemma", Kind: "lemma", Desc: "lemma " + a.Name, Name: "lemma/" + a.Name, Pos: a.Pos, facts: f, goal: gg, axLimit: i + 1})
		}
	}
	return out
}

// bareTheory: of the background theory only what the lengths and the equality of sequences need.
func bareTheory(s string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.HasPrefix(l, "(assert (forall") {
			drop := false
			for _, n := range []string{"(sl_", "(app_", "(build_", "(upd_"} {
				drop = drop || strings.Contains(l, n)
			}
			if drop {
				continue
			}
		}
		b.WriteString(l)
	}
	return b.String()
}

func (g *smtGen) text(fl *factList, goal *Term, limit int) string { return g.textOf(fl, goal, limit, false) }

// textOf gives the query; a bare one has the facts, but no axioms and lemmas.
func (g *smtGen) textOf(fl *factList, goal *Term, limit int, bare bool) string {
	var facts []*Term
	seenF := map[int]bool{}
	for f := fl; f != nil; f = f.prev {
		if !seenF[f.t.id] {
			seenF[f.t.id] = true
			facts = append(facts, f.t)
		}
	}
	for i, j := 0, len(facts)-1; i < j; i, j = i+1, j-1 {
		facts[i], facts[j] = facts[j], facts[i]
	}
	all := facts
	if goal != nil {
		all = append(all, mkNot(goal))
	}
	// axioms whose trigger symbols occur
	used := map[string]bool{}
	seen := map[int]bool{}
	for _, t := range all {
		symsOf(t, used, seen)
	}
	inc := make([]bool, len(g.axioms))
	var ax []*Term
	for ch := !bare; ch; {
		ch = false
		for i, a := range g.axioms {
			if inc[i] || limit > 0 && i >= limit-1 {
				continue
			}
			ok := len(a.trig) == 0
			if ok { // ground or untriggered: include when any of its functions occurs
				any, has := false, false
				for s := range a.syms {
					if _, isF := g.v.sp.Funcs[s]; isF {
						has = true
						if used[s] {
							any = true
						}
					}
				}
				ok = any || !has
			}
			for _, p := range a.trig {
				all := true
				for _, s := range p {
					if !used[s] {
						all = false
					}
				}
				if all {
					ok = true
				}
			}
			if ok {
				inc[i] = true
				ch = true
				for s := range a.syms {
					used[s] = true
				}
			}
		}
	}
	for i, a := range g.axioms {
		if inc[i] {
			ax = append(ax, a.t)
		}
	}
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n(declare-sort SI 0)\n(declare-sort SQ 0)\n(declare-sort SS 0)\n")
	for _, s := range [][2]string{{"SI", "Int"}, {"SQ", "SI"}, {"SS", "Str"}} {
		u := false
		for k := range used {
			if strings.HasSuffix(k, "_"+s[0]) {
				u = true
			}
		}
		if u || s[0] == "SI" {
			tmpl := seqTmpl
			if bare {
				tmpl = bareTheory(tmpl)
			}
			b.WriteString(strings.ReplaceAll(strings.ReplaceAll(tmpl, "$S", s[0]), "$E", s[1]))
		}
	}
	b.WriteString(strAxioms)
	if used["card"] {
		b.WriteString(cardAxioms)
	}
	// declarations
	decl := map[string]bool{}
	var lits []*Term
	var walk func(t *Term)
	ref := map[int]int{}
	hasVar := map[int]bool{}
	var order []*Term
	atom := map[int]bool{} // formulas that are arguments of functions
	var name func(t *Term)
	walk = func(t *Term) {
		ref[t.id]++
		if ref[t.id] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
			if hasVar[a.id] {
				hasVar[t.id] = true
			}
			if a.Sort == SBool && connective[a.Op] && !connective[t.Op] {
				atom[a.id] = true
			}
		}
		for _, p := range t.Pats {
			for _, q := range p {
				walk(q)
			}
		}
		if t.Op == "forall" || t.Op == "exists" {
			hasVar[t.id] = true // conservatively never named
		}
		if strings.HasPrefix(t.Op, "?") {
			hasVar[t.id] = true
		}
		order = append(order, t)
		name(t)
	}
	name = func(t *Term) {
		op := t.Op
		if builtinFn[op] || decl[op] || strings.HasPrefix(op, "?") || strings.HasPrefix(op, "constarr:") {
			return
		}
		if _, ok := t.intVal(); ok && t.Sort == SInt && len(t.Args) == 0 {
			return
		}
		for _, s := range []string{"_SI", "_SQ", "_SS"} {
			if strings.HasSuffix(op, s) {
				switch op[:len(op)-3] {
				case "len", "idx", "empty", "build", "app", "sl", "upd", "eq", "dif":
					return
				}
			}
		}
		decl[op] = true
		if len(t.Args) == 0 {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", op, t.Sort)
			if isStrLit(t) {
				lits = append(lits, t)
			}
			return
		}
		fmt.Fprintf(&b, "(declare-fun %s (", op)
		for i, a := range t.Args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.Sort)
		}
		fmt.Fprintf(&b, ") %s)\n", t.Sort)
	}
	for _, t := range ax {
		walk(t)
	}
	for _, t := range all {
		walk(t)
	}
	empty := mkStr("")
	if !decl[empty.Op] {
		walk(empty)
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range lits {
			b.WriteString(" " + l.Op)
		}
		b.WriteString("))\n")
	}
	for _, l := range lits {
		fmt.Fprintf(&b, "(assert (= (slen %s) %d))\n", l.Op, len(strLitOf[l.id]))
		if used["runesOf"] && len([]rune(strLitOf[l.id])) <= 8 {
			r := seqEmpty(SSI)
			for _, c := range strLitOf[l.id] {
				r = seqBuild(r, mkInt(int64(c)))
			}
			fmt.Fprintf(&b, "(assert (= (runesOf %s) %s))\n", l.Op, r)
		}
	}
	fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", empty.Op)
	// shared subterms get names
	abbr := map[int]string{}
	var w func(t *Term, top bool)
	w = func(t *Term, top bool) {
		if n, ok := abbr[t.id]; ok && !top {
			b.WriteString(n)
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			b.WriteString("(" + t.Op + " (")
			for _, v := range t.Vars {
				b.WriteString("(" + v.Op + " " + v.Sort + ")")
			}
			b.WriteString(") ")
			if len(t.Pats) > 0 {
				b.WriteString("(! ")
			}
			w(t.Args[0], false)
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, q := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					w(q, false)
				}
				b.WriteString(")")
			}
			if len(t.Pats) > 0 {
				b.WriteString(")")
			}
			b.WriteString(")")
			return
		}
		if len(t.Args) == 0 {
			t.write(&b)
			return
		}
		b.WriteString("(" + t.Op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			w(a, false)
		}
		b.WriteByte(')')
	}
	for _, t := range order {
		if (t.Op == "ite" || atom[t.id]) && !hasVar[t.id] { // not allowed in patterns, so it gets a constant
			n := "$" + strconv.Itoa(t.id)
			fmt.Fprintf(&b, "(declare-const %s %s)\n(assert (= %s ", n, t.Sort, n)
			w(t, true)
			b.WriteString("))\n")
			abbr[t.id] = n
			continue
		}
		if ref[t.id] > 1 && len(t.Args) > 0 && !hasVar[t.id] && t.size > 6 {
			n := "$" + strconv.Itoa(t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.Sort)
			w(t, true)
			b.WriteString(")\n")
			abbr[t.id] = n
		}
	}
	for _, t := range ax {
		b.WriteString("(assert ")
		w(t, false)
		b.WriteString(")\n")
	}
	for _, t := range all {
		b.WriteString("(assert ")
		w(t, false)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type backend struct {
	name string
	args func(timeout float64) []string
	pre  string
}

var backends = map[string]backend{
	"z3": {"z3", func(t float64) []string {
		return []string{"z3", "-in", "-T:" + strconv.Itoa(int(t+0.99))}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	"z3q": {"z3", func(t float64) []string {
		return []string{"z3", "-in", "-t:" + strconv.Itoa(int(t*1000))}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	"z3b": {"z3 (seed 7)", func(t float64) []string {
		return []string{"z3", "-in", "-T:" + strconv.Itoa(int(t+0.99)), "smt.random_seed=7", "smt.qi.eager_threshold=20"}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	"z3c": {"z3 (case split 3)", func(t float64) []string {
		return []string{"z3", "-in", "-T:" + strconv.Itoa(int(t+0.99)), "smt.case_split=3"}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	"z3cn": {"z3-new (case split 3)", func(t float64) []string {
		return []string{"z3-new", "-in", "-T:" + strconv.Itoa(int(t+0.99)), "smt.case_split=3"}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	"z3new": {"z3-new", func(t float64) []string {
		return []string{"z3-new", "-in", "-T:" + strconv.Itoa(int(t+0.99))}
	}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	"cvc5": {"cvc5", func(t float64) []string {
		return []string{"cvc5", "--lang=smt2", "--tlimit=" + strconv.Itoa(int(t*1000)), "-"}
	}, "(set-logic ALL)\n"},
}

func runSolver(be backend, q string, timeout float64) (ans, out string, secs float64) {
	return runSolverCtx(context.Background(), be, q, timeout)
}

func runSolverCtx(parent context.Context, be backend, q string, timeout float64) (ans, out string, secs float64) {
	ctx, cancel := context.WithTimeout(parent, time.Duration((timeout+3)*float64(time.Second)))
	defer cancel()
	a := be.args(timeout)
	cmd := osexec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(be.pre + q)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	t0 := time.Now()
	_ = cmd.Run()
	secs = time.Since(t0).Seconds()
	out = strings.TrimSpace(o.String())
	first := ""
	for _, l := range strings.Split(out, "\n") {
		if l == "sat" || l == "unsat" || l == "unknown" || strings.HasPrefix(l, "(error") {
			first = l
			break
		}
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, out, secs
	}
	if strings.Contains(out, "(error") {
		return "error", out, secs
	}
	return "timeout", out, secs
}

type stage struct {
	be    string
	secs  float64
	light int // 0 the full query, 1 light, 2 focus, 3 bare
}

var quickStages = []stage{{"z3", 0.7, 0}, {"z3c", 0.9, 0}, {"z3", 0.5, 3}, {"z3", 0.7, 1}, {"z3c", 0.9, 1}, {"z3cn", 1.5, 1}, {"z3", 0.7, 2}, {"z3c", 0.9, 2}, {"z3new", 2, 1}, {"z3c", 2, 1}, {"z3new", 2, 2}, {"z3new", 3, 0}, {"cvc5", 4, 1}, {"cvc5", 5, 0}, {"z3", 8, 0}}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
