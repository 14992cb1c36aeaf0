package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// FnResult is everything learnt from one function.
type FnResult struct {
	Name   string
	Obls   []*Oblig
	Exits  []*factList // facts at each return, for the vacuity check
	Paths  int
	Err    string // outside the subset, or a specification that no longer fits
	HasAll bool
}

func (v *Verifier) verifyFunc(name string) (res *FnResult) {
	res = &FnResult{Name: name}
	fn := v.p.byName[name]
	c := v.contractFor(name)
	x := &exec{v: v, name: name, fn: fn, c: c, names: map[string]int{}, inits: map[string]bool{}}
	defer func() {
		res.Obls = x.obls
		res.Paths = x.paths
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Err = "outside the verified subset: " + r.msg
			case specError:
				res.Err = "specification does not fit the code: " + r.msg
			default:
				panic(r)
			}
			x.obls = append(x.obls, &Oblig{Fn: name, Kind: "subset", Desc: res.Err, goal: tFalse, Status: "failed", By: "frontend", Output: res.Err})
			res.Obls = x.obls
		}
		for _, o := range res.Obls {
			k := o.Fn + "/" + o.Kind + "/" + o.Desc
			x.names[k]++
			o.Name = fmt.Sprintf("%s[%d]", k, x.names[k])
		}
	}()
	if fn == nil {
		panic(unsupported{"no function " + name})
	}
	x.decl = v.p.decls[fn]
	if len(c.own.Params) != x.arity(fn) {
		panic(specError{fmt.Sprintf("%s: contract names %d parameters, the function has %d", c.own.Pos, len(c.own.Params), x.arity(fn))})
	}
	sig := fn.Type().(*types.Signature)
	st := &State{vars: map[types.Object]*Term{}, heap: map[string]*Term{}, alloc: mkConst("alloc0", SInt), locals: map[int]bool{}, extra: map[string]*Term{}}
	st.assume(mkLt(tZero, st.alloc))
	x.env = map[string]SV{}
	var recv *Term
	var args []*Term
	if sig.Recv() != nil {
		rt := sig.Recv().Type()
		recv = mkConst("p_recv_"+sanitize(v.p.sortOf2(rt)), v.p.sortOf2(rt))
		if recv.Sort == SInt && isStructRef(rt) {
			st.assume(mkAnd(mkLe(tZero, recv), mkLt(recv, st.alloc)))
			n := namedOf(rt)
			if !v.p.embeds[n] {
				st.assume(mkOr(mkEq(recv, tZero), mkEq(mk("dtype", SInt, recv), mkInt(v.p.tags[n.Obj().Name()]))))
			}
			if c.iface != nil {
				st.assume(mkNot(mkEq(recv, tZero)))
			}
		} else {
			x.typed(st, recv, rt)
		}
		if d := x.decl.Recv; len(d.List[0].Names) > 0 {
			st.vars[v.p.info.Defs[d.List[0].Names[0]]] = recv
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		t := mkConst(fmt.Sprintf("p_%d_%s_%s", i, sanitize(p.Name()), sanitize(v.p.sortOf(p.Type()))), v.p.sortOf(p.Type()))
		x.typed(st, t, p.Type())
		st.vars[p] = t
		args = append(args, t)
	}
	if c.iface != nil {
		x.bindParams(x.env, c.iface, fn, recv, args, recvTypeFor(v, c.own.Implements, fn))
	}
	x.bindParams(x.env, c.own, fn, recv, args, recvTypeFor(v, name, fn))
	x.entry = &State{vars: st.vars, heap: map[string]*Term{}, alloc: st.alloc}
	cs := []*Contract{c.iface, c.own}
	for _, cc := range cs {
		if cc == nil {
			continue
		}
		for _, l := range cc.Lets {
			x.env[l.Var] = x.specCtx(st).Eval(l.Val)
		}
	}
	for _, cc := range cs {
		if cc == nil {
			continue
		}
		for _, r := range cc.Requires {
			st.assume(x.specCtx(st).Bool(r.E))
		}
		for _, u := range cc.Using {
			t := x.specCtx(st).Eval(u).t
			if !isArr(t.Sort) {
				st.assume(mk("mark_"+t.Sort, SBool, t))
			}
		}
		for _, r := range cc.Defines {
			st.assume(x.specCtx(st).Bool(r.E))
		}
	}
	if c.own.Trusted {
		panic(unsupported{"trusted"})
	}
	d := c.own.Decreases
	if d == nil && c.iface != nil {
		d = c.iface.Decreases
	}
	if d != nil {
		for _, e := range d.Es {
			x.measure = append(x.measure, x.specCtx(st).Eval(e).t)
		}
	}
	for _, cc := range cs {
		if cc == nil {
			continue
		}
		for _, g := range cc.Ghosts {
			if g.Kind == "entry" || g.Kind == "entryall" {
				x.ghostUpdate(st, g, x.specCtx(st), x.v.p.pos(x.decl.Pos()))
			}
		}
	}
	f := &frame{fn: fn, name: name, sig: sig}
	for i := 0; i < sig.Results().Len(); i++ {
		if o := sig.Results().At(i); o.Name() != "" {
			st.vars[o] = x.zeroVar(st, o.Type())
			f.results = append(f.results, o)
		}
	}
	x.entry.vars = map[types.Object]*Term{}
	for o, t := range st.vars {
		x.entry.vars[o] = t
	}
	f.ret = func(st *State, vals []*Term) {
		x.runDefers(f, st, func(st *State) {
			if len(f.results) > 0 {
				vals = nil
				for _, o := range f.results {
					vals = append(vals, st.vars[o])
				}
			}
			for i := range vals { // nil returned for a slice
				if s := x.nilSort(sig.Results().At(i).Type()); s != "" && vals[i] == tZero {
					vals[i] = seqEmpty(s)
				}
			}
			x.exit(st, vals, res)
		})
	}
	x.block(x.decl.Body.List, st, f, func(st *State) {
		if sig.Results().Len() > 0 && len(f.results) == 0 {
			return
		}
		f.ret(st, nil)
	})
	return res
}

func (p *Program) sortOf2(t types.Type) string {
	if _, s := structOf(t); s != nil {
		return SInt
	}
	return p.sortOf(t)
}

func isStructRef(t types.Type) bool { _, s := structOf(t); return s != nil }

// ghostUpdate assigns to ghost state, which the frame must permit.
func (x *exec) ghostUpdate(st *State, g GhostAssign, c *SpecCtx, pos string) {
	cond := tTrue
	if g.When != nil {
		cond = c.Bool(g.When)
	}
	if cond == tFalse {
		return
	}
	comp := "ghost." + g.Ghost
	h := x.heapOf(st, comp)
	if g.Kind == "exitall" || g.Kind == "entryall" {
		nh := fresh("G_"+g.Ghost, h.Sort)
		r := freshVar(SInt)
		val := c.with(g.Var, SV{r, nil}).Eval(g.Val).t
		// a ghost update may only change what modifies permits
		ch := mkForall([]*Term{r}, nil, mkImp(mkAnd(mkLt(tZero, r), mkLt(r, x.entry.alloc), mkNot(mkEq(val, mkSelect(h, r)))), x.mayModify(comp, r)))
		x.oblige(st, "frame", []string{"frame"}, "ghost update of "+g.Ghost+" is permitted by modifies", pos, ch)
		st.assume(mkForall([]*Term{r}, [][]*Term{{mkSelect(nh, r)}}, mkEq(mkSelect(nh, r), val)))
		st.heap[comp] = nh
		return
	}
	i := c.Eval(g.Idx).t
	val := c.Eval(g.Val).t
	if !st.locals[i.id] {
		x.oblige(st, "frame", []string{"frame"}, "ghost update of "+g.Ghost+" is permitted by modifies", pos, mkImp(cond, mkOr(mkLe(x.entry.alloc, i), x.mayModify(comp, i))))
	}
	st.heap[comp] = mkStore(h, i, mkIte(cond, val, mkSelect(h, i)))
}

func (x *exec) exit(st *State, vals []*Term, res *FnResult) {
	cs := []*Contract{x.c.iface, x.c.own}
	st.extra = map[string]*Term{}
	ctx := func() *SpecCtx {
		c := x.specCtx(st)
		for _, cc := range cs {
			bindResults(c.env, cc, x.fn, vals)
		}
		return c
	}
	pos := x.v.p.pos(x.decl.Pos())
	for _, cc := range cs {
		if cc == nil {
			continue
		}
		for _, g := range cc.Ghosts {
			if g.Kind == "entry" || g.Kind == "entryall" {
				continue
			}
			if g.Kind != "init" {
				x.ghostUpdate(st, g, ctx(), pos)
				continue
			}
			c := ctx()
			cond := tTrue
			if g.When != nil {
				cond = c.Bool(g.When)
			}
			if cond == tFalse {
				continue
			}
			switch g.Kind {
			case "init":
				i := c.Eval(g.Idx).t
				val := c.Eval(g.Val).t
				if !st.locals[i.id] {
					x.oblige(st, "frame", []string{"frame"}, "init of "+g.Ghost+" at an object allocated here", pos, mkImp(cond, tFalse))
					continue
				}
				fd := x.v.sp.Funcs[g.Ghost]
				if fd == nil {
					panic(specError{g.Pos + ": init of unknown function " + g.Ghost})
				}
				s, _ := x.v.specSort(fd.Ret)
				st.assume(mkImp(cond, mkEq(mk(g.Ghost, s, i), val)))
			}
		}
	}
	// every lock is back in the mode it had on entry
	var hc []string
	for c := range st.heap {
		hc = append(hc, c)
	}
	sort.Strings(hc)
	for _, c := range hc {
		if gt := x.v.compGT[c]; gt != nil && isMutex(gt) && st.heap[c] != x.v.entryHeap(c) {
			r := freshVar(SInt)
			x.oblige(st, "lock", []string{"lock"}, "locks are released on return: "+c, pos, mkForall([]*Term{r}, nil, mkImp(mkLt(r, x.entry.alloc), mkEq(mkSelect(st.heap[c], r), mkSelect(x.v.entryHeap(c), r)))))
		}
	}
	res.Exits = append(res.Exits, st.facts)
	for _, cc := range cs {
		if cc == nil {
			continue
		}
		for _, h := range cc.Hints {
			x.oblige(st, "hint", h.Tags, "lemma: "+h.Src, pos, ctx().Bool(h.E))
		}
	}
	base := st.facts
	_ = base
	for _, cc := range cs {
		if cc == nil {
			continue
		}
		for _, e := range cc.Ensures {
			x.oblige(st, "post", e.Tags, "postcondition: "+e.Src, pos, ctx().Bool(e.E))
		}
	}
}

// allContracts lists functions of the program under contract, interfaces excluded.
func (v *Verifier) underContract() []string {
	var out []string
	for _, n := range v.sp.Order {
		if v.sp.Contracts[n].Inline || v.isIfaceMethodContract(n) || strings.HasPrefix(n, "extern:") {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func isMutex(t types.Type) bool {
	return isExternStruct(t, "sync.RWMutex") || isExternStruct(t, "sync.Mutex")
}
