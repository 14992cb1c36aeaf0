package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Verifier holds the program, its specification, and what has been learnt
// about heap components.
type Verifier struct {
	p      *Program
	sp     *Spec
	comps  map[string]string // component -> sort of its values
	compGT map[string]types.Type
	loopNo map[ast.Node]int // loop -> ordinal in its function
	loopFn map[ast.Node]string
	scc    map[string]int
	calls  map[string]map[string]bool
	strFx  map[string]bool
	eff    map[string]*effContract
	drop   map[string]bool // invariants dropped by the Houdini loop: "Func#n/idx"
	spErrs []string
	recursive map[string]bool
}

// effContract is a contract with the clauses of the interface method it implements.
type effContract struct {
	name   string
	fn     *types.Func
	own    *Contract
	iface  *Contract
}

type Oblig struct {
	Fn    string
	Kind  string // pre post inv dec frame safety lock term hint
	Tags  []string
	Desc  string
	Pos   string
	facts *factList
	goal  *Term
	// identity for reporting, stable under line moves
	Name string
	invKey string
	query string
	tried bool // given all back ends at once
	light string // the lighter query
	retried bool
	dep bool // it belongs to other properties than the one checked
	bare string // the same without axioms and lemmas
	focus string // the query about the groups of the goal only
	axLimit int // use only the first axLimit-1 axioms (lemmas)
	// result
	Status string // proved, failed, timeout
	By     string
	Secs   float64
	Output string
}

type factList struct {
	t    *Term
	prev *factList
	n    int
}

func (f *factList) add(t *Term) *factList {
	if t == tTrue {
		return f
	}
	n := 1
	if f != nil {
		n = f.n + 1
	}
	return &factList{t, f, n}
}

func newVerifier(p *Program, sp *Spec) *Verifier {
	v := &Verifier{p: p, sp: sp, comps: map[string]string{}, compGT: map[string]types.Type{}, loopNo: map[ast.Node]int{}, loopFn: map[ast.Node]string{}, eff: map[string]*effContract{}, drop: map[string]bool{}}
	for g, ty := range sp.Ghosts {
		s, _ := v.specSort(ty)
		v.comps["ghost."+g] = s
	}
	// register the components of every struct type
	for _, n := range p.pkg.Scope().Names() {
		tn, ok := p.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nm, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nm.Underlying().(*types.Struct); !ok {
			continue
		}
		for _, f := range p.flatFields(nm) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				v.compSort(f.comp, f.typ)
			}()
		}
	}
	for fn, d := range p.decls {
		if d.Body == nil {
			continue
		}
		i := 0
		name := funcName(fn)
		ast.Inspect(d.Body, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				i++
				v.loopNo[n] = i
				v.loopFn[n] = name
			}
			return true
		})
	}
	v.callGraph()
	return v
}

func (v *Verifier) compSort(comp string, gt types.Type) string {
	if s, ok := v.comps[comp]; ok {
		return s
	}
	s := v.p.sortOf(gt)
	v.comps[comp] = s
	v.compGT[comp] = gt
	return s
}

func (v *Verifier) mapComps(mt *types.Map) (dom, val string) {
	ks, vs := v.p.sortOf(mt.Key()), v.p.sortOf(mt.Elem())
	id := sanitize(types.TypeString(mt, func(*types.Package) string { return "" }))
	dom, val = "map."+id+".dom", "map."+id+".val"
	v.comps[dom] = arrOf(ks, SBool)
	v.comps[val] = arrOf(ks, vs)
	return
}

func (v *Verifier) entryHeap(comp string) *Term {
	s, ok := v.comps[comp]
	if !ok {
		panic(specError{"unknown component " + comp})
	}
	return mkConst("H_"+sanitize(comp), arr(s))
}

func (v *Verifier) strLit(s string) *Term { return mkStr(s) }

// contractFor gives the effective contract of a Go function, nil if none.
func (v *Verifier) contractFor(name string) *effContract {
	if e, ok := v.eff[name]; ok {
		return e
	}
	c := v.sp.Contracts[name]
	var e *effContract
	if c != nil && !c.Inline {
		e = &effContract{name: name, own: c}
		if c.Implements != "" {
			e.iface = v.sp.Contracts[c.Implements]
			if e.iface == nil {
				panic(specError{c.Pos + ": no contract " + c.Implements})
			}
			e.iface = e.iface.withSem(c.Sem)
		}
	}
	v.eff[name] = e
	return e
}

// withSem: the contract with the tag "sem" of its postconditions replaced.
func (c *Contract) withSem(tags []string) *Contract {
	n := *c
	n.Ensures = nil
	for _, e := range c.Ensures {
		var ts []string
		for _, t := range e.Tags {
			if t == "sem" {
				ts = append(ts, tags...)
			} else {
				ts = append(ts, t)
			}
		}
		e.Tags = ts
		n.Ensures = append(n.Ensures, e)
	}
	return &n
}

// callees of a function, by static name, interface methods expanded to implementers
func (v *Verifier) callGraph() {
	v.calls = map[string]map[string]bool{}
	for fn, d := range v.p.decls {
		if d.Body == nil {
			continue
		}
		name := funcName(fn)
		set := map[string]bool{}
		ast.Inspect(d.Body, func(n ast.Node) bool {
			ce, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			for _, c := range v.staticCallees(ce) {
				set[c] = true
			}
			return true
		})
		v.calls[name] = set
	}
	// Tarjan
	v.scc = map[string]int{}
	v.recursive = map[string]bool{}
	idx := map[string]int{}
	low := map[string]int{}
	on := map[string]bool{}
	var stack []string
	n, sccN := 0, 0
	var names []string
	for k := range v.calls {
		names = append(names, k)
	}
	sort.Strings(names)
	var visit func(f string)
	visit = func(f string) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		var cs []string
		for c := range v.calls[f] {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			if _, ok := v.calls[c]; !ok {
				continue
			}
			if idx[c] == 0 {
				visit(c)
				if low[c] < low[f] {
					low[f] = low[c]
				}
			} else if on[c] && idx[c] < low[f] {
				low[f] = idx[c]
			}
		}
		if low[f] == idx[f] {
			sccN++
			cnt := 0
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				v.scc[w] = sccN
				cnt++
				if w == f {
					break
				}
			}
			_ = cnt
		}
	}
	for _, f := range names {
		if idx[f] == 0 {
			visit(f)
		}
	}
	size := map[int]int{}
	for _, s := range v.scc {
		size[s]++
	}
	for f, s := range v.scc {
		if size[s] > 1 || v.calls[f][f] {
			v.recursive[f] = true
		}
	}
}

// staticCallees lists in-package functions a call may invoke.
func (v *Verifier) staticCallees(ce *ast.CallExpr) []string {
	fn, iface := v.calleeOf(ce)
	if fn == nil {
		return nil
	}
	if iface != nil {
		return v.dispatch(iface, fn.Name())
	}
	if fn.Pkg() == v.p.pkg {
		return []string{funcName(fn)}
	}
	return nil
}

// dispatch lists the methods an interface call may reach.
func (v *Verifier) dispatch(iface *types.Named, m string) []string {
	it := iface.Underlying().(*types.Interface)
	var out []string
	seen := map[string]bool{}
	for _, n := range v.p.implementers(it) {
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, v.p.pkg, m)
		if f, ok := obj.(*types.Func); ok {
			fn := funcName(f)
			if !seen[fn] {
				seen[fn] = true
				out = append(out, fn)
			}
		}
	}
	return out
}

func (v *Verifier) calleeOf(ce *ast.CallExpr) (fn *types.Func, iface *types.Named) {
	fun := ast.Unparen(ce.Fun)
	switch f := fun.(type) {
	case *ast.Ident:
		fn, _ = v.p.info.Uses[f].(*types.Func)
		return fn, nil
	case *ast.SelectorExpr:
		if sel, ok := v.p.info.Selections[f]; ok {
			fn, _ = sel.Obj().(*types.Func)
			if fn == nil {
				return nil, nil
			}
			if n, ok := sel.Recv().(*types.Named); ok {
				if _, ok := n.Underlying().(*types.Interface); ok && n.Obj().Pkg() == v.p.pkg {
					return fn, n
				}
			}
			return fn, nil
		}
		fn, _ = v.p.info.Uses[f.Sel].(*types.Func)
		return fn, nil
	}
	return nil, nil
}

func (v *Verifier) isIfaceMethodContract(name string) bool {
	i := strings.Index(name, ".")
	if i < 0 {
		return false
	}
	o := v.p.pkg.Scope().Lookup(name[:i])
	if o == nil {
		return false
	}
	_, ok := o.Type().Underlying().(*types.Interface)
	return ok
}

// ---------------------------------------------------------------- state

type State struct {
	vars    map[types.Object]*Term
	heap    map[string]*Term
	alloc   *Term
	facts   *factList
	defers  []deferred
	locals  map[int]bool // refs allocated here
	nilB    map[int]*Term
	extra   map[string]*Term // _i, _vis and friends
	closures map[types.Object]*ast.FuncLit
	keeps   []keepAt
}

// keepAt is a keep clause of a loop, read with the variables as they were at its head.
type keepAt struct {
	vars map[types.Object]*Term
	eval func(st *State) *Term
	src, pos string
	tags []string
}

type deferred struct {
	fr   *frame
	call *ast.CallExpr
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]*Term, len(s.vars)+2), heap: make(map[string]*Term, len(s.heap)+2), alloc: s.alloc, facts: s.facts, defers: s.defers, locals: s.locals, extra: s.extra, closures: s.closures, keeps: s.keeps}
	for k, x := range s.vars {
		n.vars[k] = x
	}
	for k, x := range s.heap {
		n.heap[k] = x
	}
	return n
}

func (s *State) assume(t *Term) { s.facts = s.facts.add(t) }

func (s *State) setExtra(k string, t *Term) {
	n := map[string]*Term{}
	for a, b := range s.extra {
		n[a] = b
	}
	n[k] = t
	s.extra = n
}

type frame struct {
	fn      *types.Func
	name    string
	sig     *types.Signature
	ret     func(*State, []*Term)
	results []types.Object
	brk     map[string]func(*State)
	cont    map[string]func(*State)
	curBrk  func(*State)
	curCont func(*State)
	depth   int
}

func (f *frame) sub() *frame {
	n := *f
	return &n
}

type exec struct {
	v      *Verifier
	name   string
	fn     *types.Func
	decl   *ast.FuncDecl
	c      *effContract
	entry  *State
	env    map[string]SV // parameter names (entry values)
	obls   []*Oblig
	paths  int
	steps  int
	inl    []string
	names  map[string]int
	lockAcq bool
	loopDepth int
	inits  map[string]bool
	measure []*Term
	group   string
}

const maxPaths = 6000

func (x *exec) heapOf(st *State, comp string) *Term {
	if h, ok := st.heap[comp]; ok {
		return h
	}
	return x.v.entryHeap(comp)
}

func (x *exec) specCtx(st *State) *SpecCtx {
	c := &SpecCtx{v: x.v, heap: func(c string) *Term { return x.heapOf(st, c) }, alloc: st.alloc, env: map[string]SV{}}
	for k, s := range x.env {
		c.env[k] = s
	}
	o := &SpecCtx{v: x.v, heap: func(c string) *Term { return x.heapOf(x.entry, c) }, alloc: x.entry.alloc, env: c.env}
	o.old = o
	c.old = o
	for k, t := range st.extra {
		c.env[k] = SV{t, nil}
	}
	return c
}

func (x *exec) oblige(st *State, kind string, tags []string, desc, pos string, goal *Term) *Oblig {
	x.steps++
	o := x.oblige1(st.facts, kind, tags, desc, pos, goal)
	st.assume(goal)
	return o
}

// oblige1 splits a goal: conjunctions, implications and universal quantifiers are
// taken apart, each part is an obligation of its own.
func (x *exec) oblige1(f *factList, kind string, tags []string, desc, pos string, goal *Term) *Oblig {
	if goal != tTrue && hasFact(f, goal) {
		o := &Oblig{Fn: x.name, Kind: kind, Tags: tags, Desc: desc, Pos: pos, facts: f, goal: goal, Status: "proved", By: "syntactic"}
		x.obls = append(x.obls, o)
		return o
	}
	switch goal.Op {
	case "and":
		var last *Oblig
		for _, h := range goal.Args {
			last = x.oblige1(f, kind, tags, desc, pos, h)
			f = f.add(h)
		}
		return last
	case "=>":
		return x.oblige1(f.add(goal.Args[0]), kind, tags, desc, pos, goal.Args[1])
	case "forall":
		m := map[int]*Term{}
		for _, q := range goal.Vars {
			m[q.id] = fresh("sk", q.Sort)
		}
		for _, p := range goal.Pats {
			for _, q := range p {
				if t := subst(q, m); !isArr(t.Sort) && t.Op != "and" && len(t.Args) > 0 {
					f = f.add(mk("mark_"+t.Sort, SBool, t))
				}
			}
		}
		return x.oblige1(f, kind, tags, desc, pos, subst(goal.Args[0], m))
	}
	o := &Oblig{Fn: x.name, Kind: kind, Tags: tags, Desc: desc, Pos: pos, facts: f, goal: goal}
	if goal == tTrue {
		o.Status, o.By = "proved", "syntactic"
	}
	x.obls = append(x.obls, o)
	return o
}

func hasFact(f *factList, g *Term) bool {
	for ; f != nil; f = f.prev {
		if f.t == g || f.t == tFalse {
			return true
		}
		if f.t.Op == "and" {
			for _, a := range f.t.Args {
				if a == g {
					return true
				}
			}
		}
	}
	return false
}

func splitGoal(g *Term) []*Term {
	if g.Op == "and" {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.Op == "=>" && g.Args[1].Op == "and" {
		var out []*Term
		for _, a := range g.Args[1].Args {
			out = append(out, splitGoal(mkImp(g.Args[0], a))...)
		}
		return out
	}
	return []*Term{g}
}

// typed gives the facts every value of a Go type satisfies.
func (x *exec) typed(st *State, t *Term, gt types.Type) { st.assume(x.v.typeFact(t, gt, st.alloc)) }

func (v *Verifier) typeFact(t *Term, gt types.Type, alloc *Term) *Term {
	if gt == nil {
		return tTrue
	}
	if isRef(gt) {
		fs := []*Term{mkLe(tZero, t), mkLt(t, alloc)}
		if n, s := structOf(gt); n != nil && s != nil && isPtr(gt) && n.Obj().Pkg() == v.p.pkg {
			if !v.p.embeds[n] {
				fs = append(fs, mkOr(mkEq(t, tZero), mkEq(mk("dtype", SInt, t), mkInt(v.p.tags[n.Obj().Name()]))))
			}
		} else if it, closed := closedInterface(gt, v.p.pkg); closed {
			var alts []*Term
			alts = append(alts, mkEq(t, tZero))
			for _, n := range v.p.implementers(it) {
				if v.p.embeds[n] {
					continue
				}
				alts = append(alts, mkEq(mk("dtype", SInt, t), mkInt(v.p.tags[n.Obj().Name()])))
			}
			fs = append(fs, mkOr(alts...))
		}
		return mkAnd(fs...)
	}
	if b, ok := gt.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
			return mkLe(tZero, t)
		}
	}
	return tTrue
}

// seqFacts: elements of a slice of references are allocated
func (x *exec) elemFact(st *State, t *Term, gt types.Type) {
	if gt != nil {
		x.typed(st, t, gt)
	}
}

func (x *exec) allocRef(st *State, tag int64) *Term {
	r := st.alloc
	if len(r.Args) > 0 {
		n := fresh("alloc", SInt)
		st.assume(mkEq(n, r))
		st.alloc = n
		r = n
	}
	st.assume(mkLt(tZero, r))
	if tag != 0 {
		st.assume(mkEq(mk("dtype", SInt, r), mkInt(tag)))
	}
	n := fresh("alloc", SInt)
	st.assume(mkEq(n, mkAdd(r, tOne)))
	st.alloc = n
	nl := map[int]bool{r.id: true}
	for k := range st.locals {
		nl[k] = true
	}
	st.locals = nl
	return r
}

func (v *Verifier) zero(gt types.Type) *Term {
	s := v.p.sortOf(gt)
	switch {
	case s == SInt:
		return tZero
	case s == SBool:
		return tFalse
	case s == SStr:
		return mkStr("")
	case isSeq(s):
		return seqEmpty(s)
	}
	panic(unsupported{"no zero value for " + gt.String()})
}

func (x *exec) write(st *State, comp string, ref, val *Term, pos string) {
	h := x.heapOf(st, comp)
	x.frameCheck(st, comp, ref, pos)
	st.heap[comp] = mkStore(h, ref, val)
}

// frameCheck: a write must go to something allocated here or listed in modifies.
func (x *exec) frameCheck(st *State, comp string, ref *Term, pos string) {
	if st.locals[ref.id] {
		return
	}
	g := mkOr(mkLe(x.entry.alloc, ref), x.mayModify(comp, ref))
	x.oblige(st, "frame", []string{"frame"}, "write to "+comp+" is permitted by modifies", pos, g)
}

// mayModify is the entry-state condition under which comp at ref may be changed.
func (x *exec) mayModify(comp string, ref *Term) *Term {
	var out []*Term
	add := func(c *Contract) {
		if c == nil {
			return
		}
		for _, m := range c.Modifies {
			for _, mc := range m.Comps {
				if mc == "*" || contains(x.v.expandComp(mc), comp) {
					if m.Where == nil {
						out = append(out, tTrue)
					} else {
						ctx := x.specCtx(x.entry)
						out = append(out, ctx.old.with(m.Var, SV{ref, x.ownerType(mc)}).Bool(m.Where))
					}
				}
			}
		}
	}
	add(x.c.own)
	add(x.c.iface)
	return mkOr(out...)
}

func (x *exec) compName(c string) string { return x.v.compName(c) }

func (v *Verifier) compName(c string) string {
	if _, ok := v.sp.Ghosts[c]; ok {
		return "ghost." + c
	}
	if i := strings.Index(c, "."); i > 0 && !strings.HasPrefix(c, "map.") {
		o, ok := v.p.pkg.Scope().Lookup(c[:i]).(*types.TypeName)
		if !ok {
			panic(specError{"modifies: unknown component " + c})
		}
		comp, ft, ok := v.p.resolveField(types.NewPointer(o.Type()), c[i+1:])
		if !ok {
			panic(specError{"modifies: unknown component " + c})
		}
		if mt, ok := ft.Underlying().(*types.Map); ok && false {
			_ = mt
		}
		return comp
	}
	if strings.HasPrefix(c, "mapof(") || strings.HasPrefix(c, "map.") {
		return c
	}
	panic(specError{"unknown component " + c})
}

func (x *exec) ownerType(c string) types.Type {
	if i := strings.Index(c, "."); i > 0 && !strings.HasPrefix(c, "map.") {
		if o, ok := x.v.p.pkg.Scope().Lookup(c[:i]).(*types.TypeName); ok {
			return types.NewPointer(o.Type())
		}
	}
	return nil
}

func (x *exec) read(st *State, comp string, ref *Term, gt types.Type) *Term {
	t := mkSelect(x.heapOf(st, comp), ref)
	if t.Op == "select" {
		x.typed(st, t, gt)
	}
	return t
}

func pstr(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

var _ = token.ADD

func contains(l []string, s string) bool {
	for _, a := range l {
		if a == s {
			return true
		}
	}
	return false
}
