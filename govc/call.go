package main

import (
	"go/ast"
	"go/types"
	"strings"
)

// call evaluates a call expression.
func (x *exec) call(ce *ast.CallExpr, st *State, fr *frame, k vskont) {
	fun := ast.Unparen(ce.Fun)
	if tv, ok := x.info().Types[fun]; ok && tv.IsType() {
		x.convert(ce, tv.Type, st, fr, func(st *State, v *Term) { k(st, []*Term{v}) })
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		o := x.info().Uses[id]
		if b, ok := o.(*types.Builtin); ok {
			x.builtin(b.Name(), ce, st, fr, k)
			return
		}
		if fl, ok := st.closures[o]; ok {
			x.evs(ce.Args, st, fr, func(st *State, args []*Term) {
				x.inlineLit(fl, args, st, fr, k)
			})
			return
		}
	}
	if fl, ok := fun.(*ast.FuncLit); ok {
		x.evs(ce.Args, st, fr, func(st *State, args []*Term) { x.inlineLit(fl, args, st, fr, k) })
		return
	}
	fn, iface := x.v.calleeOf(ce)
	if fn == nil {
		x.unsup(ce, "call of a function value")
	}
	sig := fn.Type().(*types.Signature)
	withRecv := func(st *State, k2 func(*State, *Term)) {
		if sig.Recv() == nil {
			k2(st, nil)
			return
		}
		se := fun.(*ast.SelectorExpr)
		rt := x.typeOf(se.X)
		if fn.Pkg() != nil && fn.Pkg() != x.v.p.pkg && fn.Pkg().Path() != "sync" {
			if isExternStruct(deref(rt), "strings.Builder") {
				k2(st, nil)
				return
			}
			x.ev(se.X, st, fr, k2)
			return
		}
		if fn.Pkg() != nil && fn.Pkg().Path() == "sync" {
			k2(st, nil)
			return
		}
		if _, s := structOf(rt); s != nil {
			if _, isP := rt.Underlying().(*types.Pointer); isP {
				x.ev(se.X, st, fr, func(st *State, r *Term) {
					// promoted method or value receiver: the pointer is dereferenced
					sel := x.info().Selections[se]
					if len(sel.Index()) > 1 || !isPtr(sig.Recv().Type()) {
						x.nonNil(st, r, x.pos(ce))
					}
					k2(st, r)
				})
				return
			}
			x.refOf(se.X, st, fr, k2)
			return
		}
		x.ev(se.X, st, fr, k2)
	}
	// lock operations
	if fn.Pkg() != nil && fn.Pkg().Path() == "sync" {
		x.lockOp(ce, fun.(*ast.SelectorExpr), fn.Name(), st, fr, k)
		return
	}
	if sig.Recv() != nil && fn.Pkg() != nil && fn.Pkg().Path() == "strings" {
		x.builderOp(ce, fun.(*ast.SelectorExpr), fn.Name(), st, fr, k)
		return
	}
	withRecv(st, func(st *State, recv *Term) {
		if recv != nil && iface != nil {
			x.oblige(st, "safety", []string{"panic"}, "method called on a non-nil interface value", x.pos(ce), mkNot(mkEq(recv, tZero)))
		}
		args := ce.Args
		cont := func(st *State, vals []*Term) {
			if sig.Variadic() && !ce.Ellipsis.IsValid() && fn.Pkg() == x.v.p.pkg {
				np := sig.Params().Len()
				s := seqEmpty(x.v.p.sortOf(sig.Params().At(np - 1).Type()))
				for _, v := range vals[np-1:] {
					s = seqBuild(s, v)
				}
				vals = append(append([]*Term{}, vals[:np-1]...), s)
			}
			x.invoke(ce, fn, iface, recv, vals, st, fr, k)
		}
		if len(args) == 1 && sig.Params().Len() > 1 && !sig.Variadic() {
			x.evMulti(args, sig.Params().Len(), st, fr, cont)
			return
		}
		x.evArgs(args, sig, st, fr, cont)
	})
}

// evArgs evaluates arguments; nil for a slice parameter becomes an empty sequence.
func (x *exec) evArgs(args []ast.Expr, sig *types.Signature, st *State, fr *frame, k vskont) {
	x.evs(args, st, fr, func(st *State, vs []*Term) {
		for i := range vs {
			if i < sig.Params().Len() && !(sig.Variadic() && i >= sig.Params().Len()-1) {
				pt := sig.Params().At(i).Type()
				if vs[i] == tZero {
					if s := x.nilSort(pt); s != "" {
						vs[i] = seqEmpty(s)
					}
				}
			}
		}
		k(st, vs)
	})
}

func (x *exec) inlineLit(fl *ast.FuncLit, args []*Term, st *State, fr *frame, k vskont) {
	if len(x.inl) > 20 {
		x.unsup(fl, "inlining too deep")
	}
	sig := x.info().Types[fl].Type.(*types.Signature)
	x.inl = append(x.inl, "func literal")
	f := &frame{fn: fr.fn, name: fr.name, sig: sig, depth: fr.depth + 1}
	i := 0
	for _, p := range fl.Type.Params.List {
		for _, id := range p.Names {
			st.vars[x.info().Defs[id]] = args[i]
			i++
		}
	}
	if fl.Type.Results != nil {
		for _, p := range fl.Type.Results.List {
			for _, id := range p.Names {
				o := x.info().Defs[id]
				st.vars[o] = x.zeroVar(st, o.Type())
				f.results = append(f.results, o)
			}
		}
	}
	f.ret = func(st *State, vals []*Term) { x.runDefers(f, st, func(st *State) { k(st, vals) }) }
	x.block(fl.Body.List, st, f, func(st *State) {
		f.ret(st, nil)
	})
	x.inl = x.inl[:len(x.inl)-1]
}

func (x *exec) runDefers(fr *frame, st *State, k kont) {
	n := len(st.defers)
	if n == 0 || st.defers[n-1].fr != fr {
		k(st)
		return
	}
	d := st.defers[n-1]
	st.defers = st.defers[:n-1 : n-1]
	x.call(d.call, st, fr, func(st *State, _ []*Term) { x.runDefers(fr, st, k) })
}

func (x *exec) inline(ce ast.Node, fn *types.Func, recv *Term, args []*Term, st *State, fr *frame, k vskont) {
	name := funcName(fn)
	d := x.v.p.decls[fn]
	if d == nil || d.Body == nil {
		x.unsup(ce, "no body for %s", name)
	}
	for _, n := range x.inl {
		if n == name {
			x.unsup(ce, "recursive function %s has no contract", name)
		}
	}
	sig := fn.Type().(*types.Signature)
	x.inl = append(x.inl, name)
	f := &frame{fn: fn, name: name, sig: sig, depth: fr.depth + 1}
	if d.Recv != nil && len(d.Recv.List[0].Names) > 0 {
		st.vars[x.info().Defs[d.Recv.List[0].Names[0]]] = recv
	}
	for i := 0; i < sig.Params().Len(); i++ {
		st.vars[sig.Params().At(i)] = args[i]
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if o := sig.Results().At(i); o.Name() != "" {
			st.vars[o] = x.zeroVar(st, o.Type())
			f.results = append(f.results, o)
		}
	}
	f.ret = func(st *State, vals []*Term) {
		x.runDefers(f, st, func(st *State) {
			if len(f.results) > 0 {
				vals = nil
				for _, o := range f.results {
					vals = append(vals, st.vars[o])
				}
			}
			saved := x.inl
			x.inl = x.inl[:len(x.inl)-1]
			k(st, vals)
			x.inl = saved
		})
	}
	x.block(d.Body.List, st, f, func(st *State) {
		if sig.Results().Len() > 0 && len(f.results) == 0 {
			return // unreachable end of a function with results
		}
		f.ret(st, nil)
	})
	x.inl = x.inl[:len(x.inl)-1]
}

func (x *exec) builtin(name string, ce *ast.CallExpr, st *State, fr *frame, k vskont) {
	one := func(st *State, t *Term) { k(st, []*Term{t}) }
	switch name {
	case "len":
		t := x.typeOf(ce.Args[0])
		x.ev(ce.Args[0], st, fr, func(st *State, v *Term) {
			switch {
			case isSeq(v.Sort):
				one(st, seqLen(v))
			case v.Sort == SStr:
				l := mk("slen", SInt, v)
				st.assume(mkLe(tZero, l))
				one(st, l)
			default:
				if mt, ok := t.Underlying().(*types.Map); ok {
					dom, _ := x.v.mapComps(mt)
					c := cardOf(mkSelect(x.heapOf(st, dom), v))
					st.assume(mkLe(tZero, c))
					one(st, c)
					return
				}
				x.unsup(ce, "len of %s", t)
			}
		})
	case "append":
		srt := x.v.p.sortOf(x.typeOf(ce))
		x.ev(ce.Args[0], st, fr, func(st *State, s *Term) {
			if s == tZero {
				s = seqEmpty(srt)
			}
			x.evs(ce.Args[1:], st, fr, func(st *State, vs []*Term) {
				if ce.Ellipsis.IsValid() {
					b := vs[0]
					if b.Sort == SStr {
						x.unsup(ce, "append of string bytes")
					}
					if b == tZero {
						b = seqEmpty(srt)
					}
					one(st, seqApp(s, b))
					return
				}
				r := s
				for _, v := range vs {
					r = seqBuild(r, v)
				}
				one(st, r)
			})
		})
	case "make":
		t := x.typeOf(ce)
		switch u := t.Underlying().(type) {
		case *types.Map:
			x.evs(ce.Args[1:], st, fr, func(st *State, _ []*Term) { one(st, x.newMap(st, u)) })
		case *types.Slice:
			x.evs(ce.Args[1:], st, fr, func(st *State, vs []*Term) {
				if vs[0] == tZero {
					one(st, seqEmpty(x.v.p.sortOf(t)))
					return
				}
				n := fresh("made", x.v.p.sortOf(t))
				x.oblige(st, "safety", []string{"panic"}, "make with a non-negative length", x.pos(ce), mkLe(tZero, vs[0]))
				st.assume(mkEq(seqLen(n), vs[0]))
				i := freshVar(SInt)
				st.assume(mkForall([]*Term{i}, [][]*Term{{seqIdx(n, i)}}, mkImp(mkAnd(mkLe(tZero, i), mkLt(i, vs[0])), mkEq(seqIdx(n, i), x.v.zero(u.Elem())))))
				one(st, n)
			})
		default:
			x.unsup(ce, "make of %s", t)
		}
	case "new":
		t := x.typeOf(ce.Args[0])
		n, s := structOf(t)
		if s == nil {
			x.unsup(ce, "new of %s", t)
		}
		_ = n
		one(st, x.zeroVar(st, t))
	case "delete":
		mt := x.typeOf(ce.Args[0]).Underlying().(*types.Map)
		x.evs(ce.Args, st, fr, func(st *State, vs []*Term) {
			dom, vc := x.v.mapComps(mt)
			x.frameCheck(st, dom, vs[0], x.pos(ce))
			h := x.heapOf(st, dom)
			st.heap[dom] = mkStore(h, vs[0], mkStore(mkSelect(h, vs[0]), vs[1], tFalse))
			h = x.heapOf(st, vc)
			st.heap[vc] = mkStore(h, vs[0], mkStore(mkSelect(h, vs[0]), vs[1], x.v.zero(mt.Elem())))
			k(st, nil)
		})
	case "copy":
		// only the form copy(local, src)
		id, ok := ast.Unparen(ce.Args[0]).(*ast.Ident)
		if !ok {
			x.unsup(ce, "copy into a sub-slice")
		}
		x.evs(ce.Args, st, fr, func(st *State, vs []*Term) {
			d, s := vs[0], vs[1]
			n := fresh("copied", SInt)
			st.assume(mkAnd(mkImp(mkLe(seqLen(d), seqLen(s)), mkEq(n, seqLen(d))), mkImp(mkLt(seqLen(s), seqLen(d)), mkEq(n, seqLen(s)))))
			st.vars[x.objOf(id)] = seqApp(seqSlice(s, tZero, n), seqSlice(d, n, seqLen(d)))
			k(st, []*Term{n})
		})
	case "min", "max":
		x.evs(ce.Args, st, fr, func(st *State, vs []*Term) {
			r := vs[0]
			for _, v := range vs[1:] {
				if name == "min" {
					r = mkIte(mkLt(v, r), v, r)
				} else {
					r = mkIte(mkLt(r, v), v, r)
				}
			}
			one(st, r)
		})
	case "panic":
		x.evs(ce.Args, st, fr, func(st *State, _ []*Term) {
			x.oblige(st, "safety", []string{"panic"}, "panic is not reached", x.pos(ce), tFalse)
		})
	default:
		x.unsup(ce, "builtin %s", name)
	}
}

func (x *exec) lockOp(ce *ast.CallExpr, se *ast.SelectorExpr, op string, st *State, fr *frame, k vskont) {
	inner, ok := ast.Unparen(se.X).(*ast.SelectorExpr)
	if !ok {
		x.unsup(ce, "lock expression")
	}
	x.lvalSel(inner, st, fr, func(st *State, comp string, ref *Term, gt types.Type) {
		x.v.compSort(comp, gt)
		h := x.heapOf(st, comp)
		m := mkSelect(h, ref)
		set := func(n int64) { st.heap[comp] = mkStore(h, ref, mkInt(n)) }
		ob := func(desc string, g *Term) { x.oblige(st, "lock", []string{"lock"}, desc, x.pos(ce), g) }
		acq := func() {
			if _, ok := x.v.sp.Ghosts["ACQ"]; ok {
				a := x.heapOf(st, "ghost.ACQ")
				st.heap["ghost.ACQ"] = mkStore(a, ref, mkAdd(mkSelect(a, ref), tOne))
			}
		}
		switch op {
		case "Lock":
			ob("Lock is called with the lock not held by this call", mkEq(m, tZero))
			set(2)
			acq()
		case "RLock":
			ob("RLock is called with the lock not held by this call", mkEq(m, tZero))
			set(1)
			acq()
		case "Unlock":
			ob("Unlock releases a held write lock", mkEq(m, mkInt(2)))
			set(0)
		case "RUnlock":
			ob("RUnlock releases a held read lock", mkEq(m, tOne))
			set(0)
		default:
			x.unsup(ce, "lock operation %s", op)
		}
		k(st, nil)
	})
}

func (x *exec) builderOp(ce *ast.CallExpr, se *ast.SelectorExpr, op string, st *State, fr *frame, k vskont) {
	id, ok := ast.Unparen(se.X).(*ast.Ident)
	if !ok {
		x.unsup(ce, "strings.Builder that is not a local variable")
	}
	o := x.objOf(id)
	if isPtr(o.Type()) {
		x.unsup(ce, "strings.Builder passed by pointer")
	}
	x.evs(ce.Args, st, fr, func(st *State, vs []*Term) {
		c := st.vars[o]
		errT := func() []*Term { return []*Term{fresh("n", SInt), tZero} }
		switch op {
		case "WriteString":
			var r *Term
			if vs[0].Op == "strOf" {
				r = vs[0].Args[0]
			} else if isStrLit(vs[0]) && len(strLitOf[vs[0].id]) <= 4 {
				r = runesOf(vs[0])
			} else {
				r = mk("runesOf", SSI, vs[0])
			}
			st.vars[o] = seqApp(c, r)
			k(st, errT())
		case "WriteRune", "WriteByte":
			st.vars[o] = seqBuild(c, vs[0])
			k(st, errT())
		case "String":
			k(st, []*Term{strOf(c)})
		case "Len":
			l := fresh("n", SInt)
			st.assume(mkLe(tZero, l))
			k(st, []*Term{l})
		case "Reset":
			st.vars[o] = seqEmpty(SSI)
			k(st, nil)
		case "Grow":
			k(st, nil)
		default:
			x.unsup(ce, "strings.Builder.%s", op)
		}
	})
}

// invoke calls fn (through iface if not nil) by contract or by inlining.
func (x *exec) invoke(ce *ast.CallExpr, fn *types.Func, iface *types.Named, recv *Term, args []*Term, st *State, fr *frame, k vskont) {
	name := funcName(fn)
	if fn.Pkg() != x.v.p.pkg {
		x.extern(ce, fn, recv, args, st, k)
		return
	}
	if iface != nil {
		in := iface.Obj().Name() + "." + fn.Name()
		if c := x.v.contractFor(in); c != nil {
			x.byContract(ce, in, c, fn, recv, args, st, fr, k)
			return
		}
		ds := x.v.dispatch(iface, fn.Name())
		if len(ds) == 1 {
			fn = x.v.p.byName[ds[0]]
			name = ds[0]
		} else {
			x.unsup(ce, "interface method %s has no contract", in)
		}
	}
	if c := x.v.contractFor(name); c != nil && len(c.own.Params) == x.arity(fn) {
		x.byContract(ce, name, c, fn, recv, args, st, fr, k)
		return
	}
	x.inline(ce, fn, recv, args, st, fr, k)
}

func (x *exec) arity(fn *types.Func) int {
	sig := fn.Type().(*types.Signature)
	n := sig.Params().Len()
	if sig.Recv() != nil {
		n++
	}
	return n
}

// bindParams names the receiver, parameters and results of a call for one contract.
func (x *exec) bindParams(env map[string]SV, c *Contract, fn *types.Func, recv *Term, args []*Term, recvType types.Type) {
	if c == nil {
		return
	}
	sig := fn.Type().(*types.Signature)
	i := 0
	if sig.Recv() != nil {
		if i < len(c.Params) {
			env[c.Params[i]] = SV{recv, recvType}
		}
		i++
	}
	for j := 0; j < sig.Params().Len() && i < len(c.Params); j++ {
		env[c.Params[i]] = SV{args[j], sig.Params().At(j).Type()}
		i++
	}
}

func bindResults(env map[string]SV, c *Contract, fn *types.Func, res []*Term) {
	if c == nil {
		return
	}
	sig := fn.Type().(*types.Signature)
	for i, n := range c.Results {
		if i < len(res) {
			env[n] = SV{res[i], sig.Results().At(i).Type()}
		}
	}
}

func recvTypeFor(v *Verifier, name string, fn *types.Func) types.Type {
	if i := strings.Index(name, "."); i > 0 {
		if o := v.p.pkg.Scope().Lookup(name[:i]); o != nil {
			if _, ok := o.Type().Underlying().(*types.Interface); ok {
				return o.Type()
			}
			if _, ok := o.Type().Underlying().(*types.Struct); ok {
				return types.NewPointer(o.Type())
			}
			return o.Type()
		}
	}
	if r := fn.Type().(*types.Signature).Recv(); r != nil {
		return r.Type()
	}
	return nil
}

func (x *exec) byContract(ce *ast.CallExpr, name string, c *effContract, fn *types.Func, recv *Term, args []*Term, st *State, fr *frame, k vskont) {
	sig := fn.Type().(*types.Signature)
	pos := x.pos(ce)
	env := map[string]SV{}
	if c.iface != nil {
		x.bindParams(env, c.iface, fn, recv, args, recvTypeFor(x.v, c.own.Implements, fn))
	}
	x.bindParams(env, c.own, fn, recv, args, recvTypeFor(x.v, name, fn))
	pre := x.callCtx(st, nil, env)
	// let bindings
	lets := func(cc *Contract) {
		if cc == nil {
			return
		}
		for _, l := range cc.Lets {
			pre = pre.with(l.Var, pre.Eval(l.Val))
			env[l.Var] = pre.env[l.Var]
		}
	}
	lets(c.iface)
	lets(c.own)
	for _, cc := range []*Contract{c.iface, c.own} {
		if cc == nil {
			continue
		}
		for _, r := range cc.Requires {
			x.oblige(st, "pre", r.Tags, pstr("precondition of %s: %s", name, r.Src), pos, pre.Bool(r.E))
		}
	}
	x.termCheck(ce, name, c, pre, st)
	// effects
	preHeap := map[string]*Term{}
	for a, b := range st.heap {
		preHeap[a] = b
	}
	preSt := &State{heap: preHeap, alloc: st.alloc}
	type mod struct {
		comp  string
		m     Modify
		wctx  *SpecCtx
		owner types.Type
	}
	mods := map[string][]mod{}
	var order []string
	for _, cc := range []*Contract{c.iface, c.own} {
		if cc == nil {
			continue
		}
		for _, m := range cc.Modifies {
			for _, mc := range m.Comps {
				for _, comp := range x.v.expandComp(mc) {
					if mods[comp] == nil {
						order = append(order, comp)
					}
					mods[comp] = append(mods[comp], mod{comp, m, pre, x.ownerType(mc)})
				}
			}
		}
	}
	for _, comp := range order {
		old := x.heapOf(st, comp)
		r := freshVar(SInt)
		var where []*Term
		for _, m := range mods[comp] {
			if m.m.Where == nil {
				where = append(where, tTrue)
			} else {
				where = append(where, pre.with(m.m.Var, SV{r, m.owner}).Bool(m.m.Where))
			}
		}
		w := mkOr(where...)
		// our own frame must permit it
		x.frameCall(st, comp, r, w, pos, name)
		nh := fresh("H_"+comp, old.Sort)
		if w != tTrue {
			st.assume(mkForall([]*Term{r}, [][]*Term{{mkSelect(nh, r)}}, mkImp(mkAnd(mkLt(r, st.alloc), mkNot(w)), mkEq(mkSelect(nh, r), mkSelect(old, r)))))
		}
		st.heap[comp] = nh
	}
	// the callee may allocate
	if !c.own.Pure {
		na := fresh("alloc", SInt)
		st.assume(mkLe(st.alloc, na))
		st.alloc = na
	}
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := fresh("r_"+strings.ReplaceAll(name, ".", "_"), x.v.p.sortOf(rt))
		x.typed(st, r, rt)
		res = append(res, r)
	}
	bindResults(env, c.iface, fn, res)
	bindResults(env, c.own, fn, res)
	post := x.callCtx(st, preSt, env)
	for _, cc := range []*Contract{c.iface, c.own} {
		if cc == nil {
			continue
		}
		for _, e := range cc.Ensures {
			st.assume(post.Bool(e.E))
		}
	}
	if x.v.sp.KeepAt[name] {
		for _, kp := range st.keeps {
			if t := kp.eval(st); t != nil {
				x.oblige(st, "keep", kp.tags, "kept: "+kp.src, kp.pos, t)
			}
		}
	}
	k(st, res)
}

func (v *Verifier) expandComp(mc string) []string {
	if strings.HasPrefix(mc, "map(") {
		in := mc[4 : len(mc)-1]
		i := strings.Index(in, ".")
		o := v.p.pkg.Scope().Lookup(in[:i])
		if o == nil {
			panic(specError{"modifies: " + mc})
		}
		_, ft, ok := v.p.resolveField(types.NewPointer(o.Type()), in[i+1:])
		if !ok {
			panic(specError{"modifies: " + mc})
		}
		mt := ft.Underlying().(*types.Map)
		d, vl := v.mapComps(mt)
		return []string{d, vl}
	}
	return []string{v.compName(mc)}
}

func (x *exec) frameCall(st *State, comp string, r, w *Term, pos, name string) {
	mine := x.mayModify(comp, r)
	if mine == tTrue || w == tFalse || mine == w {
		return
	}
	// locals are never below the entry allocation
	g := mkForall([]*Term{r}, nil, mkImp(mkAnd(w, mkLt(tZero, r), mkLt(r, x.entry.alloc)), mine))
	x.oblige(st, "frame", []string{"frame"}, pstr("effects of %s on %s are permitted by modifies", name, comp), pos, g)
}

func (x *exec) callCtx(st, old *State, env map[string]SV) *SpecCtx {
	hs := map[string]*Term{}
	for a, b := range st.heap {
		hs[a] = b
	}
	cur := &State{heap: hs, alloc: st.alloc}
	c := &SpecCtx{v: x.v, heap: func(c string) *Term { return x.heapOf(cur, c) }, alloc: st.alloc, env: env}
	if old == nil {
		c.old = c
	} else {
		o := &SpecCtx{v: x.v, heap: func(c string) *Term { return x.heapOf(old, c) }, alloc: old.alloc, env: env}
		o.old = o
		c.old = o
	}
	return c
}

// termCheck: a call inside a call-graph cycle decreases the measure.
func (x *exec) termCheck(ce *ast.CallExpr, name string, c *effContract, pre *SpecCtx, st *State) {
	var targets []string
	if x.v.isIfaceMethodContract(name) {
		i := strings.Index(name, ".")
		nm := x.v.p.pkg.Scope().Lookup(name[:i]).Type().(*types.Named)
		targets = x.v.dispatch(nm, name[i+1:])
	} else {
		targets = []string{name}
	}
	same := false
	for _, t := range targets {
		if s, ok := x.v.scc[t]; ok && s == x.v.scc[x.name] && (t != x.name || x.v.recursive[x.name]) {
			same = true
		}
	}
	if !same {
		return
	}
	d := c.own.Decreases
	if d == nil && c.iface != nil {
		d = c.iface.Decreases
	}
	if d == nil || x.measure == nil {
		x.oblige(st, "term", []string{"term"}, pstr("recursive call of %s has a measure", name), x.pos(ce), tFalse)
		return
	}
	var callee []*Term
	for _, e := range d.Es {
		callee = append(callee, pre.Eval(e).t)
	}
	x.oblige(st, "term", []string{"term"}, pstr("measure decreases at call of %s", name), x.pos(ce), lexLess(callee, x.measure))
}

func lexLess(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := tFalse
	for i := n - 1; i >= 0; i-- {
		lt := mkAnd(mkLt(a[i], b[i]), mkLe(tZero, b[i]))
		if r == tFalse {
			r = lt
		} else {
			r = mkOr(lt, mkAnd(mkEq(a[i], b[i]), r))
		}
	}
	return r
}

var externPkgs = map[string]bool{"fmt": true, "errors": true, "strings": true, "strconv": true, "io/ioutil": true, "os": true, "unicode": true, "unicode/utf8": true}

func (x *exec) extern(ce *ast.CallExpr, fn *types.Func, recv *Term, args []*Term, st *State, k vskont) {
	path := ""
	if fn.Pkg() != nil {
		path = fn.Pkg().Path()
	}
	sig := fn.Type().(*types.Signature)
	if path == "" { // error.Error
		k(st, []*Term{fresh("errstr", SStr)})
		return
	}
	if !externPkgs[path] {
		x.unsup(ce, "call into package %s", path)
	}
	full := path + "." + fn.Name()
	if c := x.v.sp.Contracts["extern:"+full]; c != nil {
		var res []*Term
		env := map[string]SV{}
		for i, p := range c.Params {
			if i < len(args) {
				env[p] = SV{args[i], nil}
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			r := fresh("x_"+fn.Name(), x.v.p.sortOf(rt))
			x.typedExtern(st, r, rt)
			res = append(res, r)
			if i < len(c.Results) {
				env[c.Results[i]] = SV{r, rt}
			}
		}
		ctx := x.callCtx(st, nil, env)
		for _, r := range c.Requires {
			x.oblige(st, "pre", r.Tags, pstr("precondition of %s: %s", full, r.Src), x.pos(ce), ctx.Bool(r.E))
		}
		for _, e := range c.Ensures {
			st.assume(ctx.Bool(e.E))
		}
		k(st, res)
		return
	}
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if isRef(rt) && (fn.Name() == "Errorf" || fn.Name() == "New") && (path == "fmt" || path == "errors") {
			res = append(res, x.allocRef(st, 0))
			continue
		}
		r := fresh("x_"+fn.Name(), x.v.p.sortOf(rt))
		x.typedExtern(st, r, rt)
		res = append(res, r)
	}
	k(st, res)
}

func (x *exec) typedExtern(st *State, r *Term, rt types.Type) {
	if isRef(rt) {
		na := fresh("alloc", SInt)
		st.assume(mkLe(st.alloc, na))
		st.alloc = na
	}
	x.typed(st, r, rt)
	if r.Sort == SStr {
		st.assume(mkLe(tZero, mk("slen", SInt, r)))
	}
}
