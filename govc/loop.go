package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// loopEffects: what a loop body may change.
type loopEffects struct {
	vars  map[types.Object]bool
	comps map[string]*compEff
	alloc bool
	skip  map[ast.Node]bool // blocks from which the loop is left for good
}
type compEff struct {
	targets []ast.Expr // base expressions of direct writes; nil entries mean unknown
	unknown bool
	fresh   bool // changed at objects that the iteration allocates
}

func (x *exec) effects(n ast.Node, seen map[string]bool, le *loopEffects, top bool) {
	info := x.info()
	addComp := func(c string, base ast.Expr) {
		e := le.comps[c]
		if e == nil {
			e = &compEff{}
			le.comps[c] = e
		}
		if base == nil || !top {
			e.unknown = true
		} else {
			e.targets = append(e.targets, base)
		}
	}
	var lhs func(l ast.Expr)
	lhs = func(l ast.Expr) {
		switch l := ast.Unparen(l).(type) {
		case *ast.Ident:
			if o := x.objOf(l); o != nil {
				le.vars[o] = true
			}
		case *ast.SelectorExpr:
			if sel, ok := info.Selections[l]; ok && sel.Kind() == types.FieldVal {
				comp, ft, ok := x.v.p.resolveField(sel.Recv(), l.Sel.Name)
				if ok {
					x.v.compSort(comp, ft)
					base := l.X
					for { // nested struct: the owner's reference
						se, isS := ast.Unparen(base).(*ast.SelectorExpr)
						if isS && !isPtr(x.typeOf(se)) {
							base = se.X
							continue
						}
						break
					}
					addComp(comp, base)
				}
			}
		case *ast.IndexExpr:
			if mt, ok := x.typeOf(l.X).Underlying().(*types.Map); ok {
				d, v := x.v.mapComps(mt)
				addComp(d, l.X)
				addComp(v, l.X)
			} else {
				lhs(l.X)
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if n != nil && le.skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				lhs(l)
			}
		case *ast.IncDecStmt:
			lhs(n.X)
		case *ast.DeclStmt:
			if gd, ok := n.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if o := info.Defs[id]; o != nil {
							le.vars[o] = true
						}
					}
				}
			}
		case *ast.ForStmt, *ast.RangeStmt:
			x.endEffects(&loopHead{spec: x.v.sp.Loops[fmt.Sprintf("%s#%d", x.v.loopFn[n], x.v.loopNo[n])]}, le)
			if r, ok := n.(*ast.RangeStmt); ok {
				if r.Key != nil {
					lhs(r.Key)
				}
				if r.Value != nil {
					lhs(r.Value)
				}
			}
		case *ast.CompositeLit:
			le.alloc = true
			// initialising stores go to fresh references
		case *ast.CallExpr:
			le.alloc = true
			if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := info.Uses[id].(*types.Builtin); ok {
					if b.Name() == "delete" {
						mt := x.typeOf(n.Args[0]).Underlying().(*types.Map)
						d, vl := x.v.mapComps(mt)
						addComp(d, n.Args[0])
						addComp(vl, n.Args[0])
					}
					if b.Name() == "copy" {
						lhs(n.Args[0])
					}
					return true
				}
				// a local closure: its body is in the enclosing function; look it up conservatively
				if o := info.Uses[id]; o != nil {
					if _, isVar := o.(*types.Var); isVar {
						key := fmt.Sprintf("closure@%d", o.Pos())
						if !seen[key] {
							seen[key] = true
							x.closureEffects(o, seen, le)
						}
						return true
					}
				}
			}
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				if id, ok := ast.Unparen(se.X).(*ast.Ident); ok {
					if o := x.objOf(id); o != nil {
						if v, isV := o.(*types.Var); isV && isExternStruct(deref(v.Type()), "strings.Builder") {
							le.vars[o] = true
						}
					}
				}
			}
			fn, iface := x.v.calleeOf(n)
			if fn == nil {
				return true
			}
			if fn.Pkg() != nil && fn.Pkg().Path() == "sync" {
				if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
					if in, ok := ast.Unparen(se.X).(*ast.SelectorExpr); ok {
						if sel, ok := info.Selections[in]; ok {
							if comp, ft, ok := x.v.p.resolveField(sel.Recv(), in.Sel.Name); ok {
								x.v.compSort(comp, ft)
								addComp(comp, in.X)
								if _, ok := x.v.sp.Ghosts["ACQ"]; ok {
									addComp("ghost.ACQ", nil)
								}
							}
						}
					}
				}
				return true
			}
			if fn.Pkg() != x.v.p.pkg {
				return true
			}
			name := funcName(fn)
			if iface != nil {
				in := iface.Obj().Name() + "." + fn.Name()
				if c := x.v.contractFor(in); c != nil {
					x.contractEffects(c, addComp, le)
					return true
				}
				ds := x.v.dispatch(iface, fn.Name())
				if len(ds) == 1 {
					name = ds[0]
					fn = x.v.p.byName[name]
				}
			}
			if c := x.v.contractFor(name); c != nil && len(c.own.Params) == x.arity(fn) {
				x.contractEffects(c, addComp, le)
				return true
			}
			if d := x.v.p.decls[fn]; d != nil && d.Body != nil && !seen[name] {
				seen[name] = true
				sub := &loopEffects{vars: map[types.Object]bool{}, comps: le.comps}
				x.effects(d.Body, seen, sub, false)
			}
		}
		return true
	})
}

// leaving: the blocks (statement lists) within a loop body that always leave the loop,
// so that what they change is not seen by a later iteration.
func leaving(body *ast.BlockStmt, label string) map[ast.Node]bool {
	out := map[ast.Node]bool{}
	leaves := func(ss []ast.Stmt, depth int) bool {
		if len(ss) == 0 {
			return false
		}
		switch s := ss[len(ss)-1].(type) {
		case *ast.ReturnStmt:
		case *ast.BranchStmt:
			if s.Tok != token.BREAK || s.Label == nil && depth > 0 || s.Label != nil && s.Label.Name != label {
				return false
			}
		default:
			return false
		}
		ok := true
		for _, s := range ss[:len(ss)-1] {
			ast.Inspect(s, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.BranchStmt, *ast.LabeledStmt:
					ok = false
				case *ast.FuncLit:
					return false
				}
				return true
			})
		}
		return ok
	}
	// the statements at the end of a block from which the loop is always left
	tail := func(ss []ast.Stmt, depth int) {
		for i := len(ss) - 1; i >= 0 && leaves(ss[i:], depth); i-- {
			out[ss[i]] = true
		}
	}
	var walk func(n ast.Node, depth int)
	walk = func(n ast.Node, depth int) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return m != nil
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				if leaves(m.List, depth) {
					out[m] = true
					return false
				}
				tail(m.List, depth)
			case *ast.CaseClause:
				if leaves(m.Body, depth) {
					out[m] = true
					return false
				}
				tail(m.Body, depth)
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(m, depth+1)
				return false
			}
			return true
		})
	}
	walk(body, 0)
	return out
}

func (x *exec) closureEffects(o types.Object, seen map[string]bool, le *loopEffects) {
	ast.Inspect(x.decl, func(n ast.Node) bool {
		if as, ok := n.(*ast.AssignStmt); ok && len(as.Lhs) == len(as.Rhs) {
			for i, l := range as.Lhs {
				if id, ok := l.(*ast.Ident); ok && x.objOf(id) == o {
					if fl, ok := as.Rhs[i].(*ast.FuncLit); ok {
						x.effects(fl.Body, seen, le, true)
					}
				}
			}
		}
		return true
	})
}

func (x *exec) contractEffects(c *effContract, add func(string, ast.Expr), le *loopEffects) {
	for _, cc := range []*Contract{c.iface, c.own} {
		if cc == nil {
			continue
		}
		for _, m := range cc.Modifies {
			for _, mc := range m.Comps {
				for _, comp := range x.v.expandComp(mc) {
					if m.Where != nil && m.Where.K == "id" && m.Where.S == "false" {
						e := le.comps[comp]
						if e == nil {
							e = &compEff{}
							le.comps[comp] = e
						}
						e.fresh = true
						continue
					}
					add(comp, nil)
				}
			}
		}
	}
}

// havocLoop moves a state to an arbitrary iteration.
func (x *exec) havocLoop(st *State, le *loopEffects) *State {
	h := st.clone()
	if le.alloc {
		na := fresh("alloc", SInt)
		h.assume(mkLe(st.alloc, na))
		h.alloc = na
	}
	var objs []types.Object
	for o := range le.vars {
		if _, ok := st.vars[o]; ok {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		n := fresh(o.Name(), st.vars[o].Sort)
		h.vars[o] = n
		if n.Sort == SInt {
			h.assume(x.v.typeFact(n, o.Type(), h.alloc))
		}
	}
	var comps []string
	for c := range le.comps {
		comps = append(comps, c)
	}
	sort.Strings(comps)
	for _, c := range comps {
		e := le.comps[c]
		old := x.heapOf(st, c)
		precise := !e.unknown
		var refs []*Term
		if precise {
			for _, b := range e.targets {
				r, ok := x.invariantRef(b, st, le)
				if !ok {
					precise = false
					break
				}
				refs = append(refs, r)
			}
		}
		if precise && e.fresh {
			nh := fresh("H_"+c, old.Sort)
			h.heap[c] = nh
			r := freshVar(SInt)
			same := []*Term{mkLt(r, st.alloc)}
			for _, q := range refs {
				same = append(same, mkNot(mkEq(r, q)))
			}
			h.assume(mkForall([]*Term{r}, [][]*Term{{mkSelect(nh, r)}}, mkImp(mkAnd(same...), mkEq(mkSelect(nh, r), mkSelect(old, r)))))
			continue
		}
		if precise {
			nh := old
			done := map[int]bool{}
			for _, r := range refs {
				if done[r.id] {
					continue
				}
				done[r.id] = true
				v := fresh("L_"+c, x.v.comps[c])
				nh = mkStore(nh, r, v)
				if gt := x.v.compGT[c]; gt != nil && v.Sort == SInt {
					h.assume(x.v.typeFact(v, gt, h.alloc))
				}
			}
			h.heap[c] = nh
			continue
		}
		nh := fresh("H_"+c, old.Sort)
		h.heap[c] = nh
		r := freshVar(SInt)
		mine := x.mayModify(c, r)
		if mine != tTrue {
			h.assume(mkForall([]*Term{r}, [][]*Term{{mkSelect(nh, r)}}, mkImp(mkAnd(mkLt(r, x.entry.alloc), mkNot(mine)), mkEq(mkSelect(nh, r), mkSelect(x.heapOf(x.entry, c), r)))))
		}
	}
	return h
}

// invariantRef: the base of a write that is the same object in every iteration.
func (x *exec) invariantRef(b ast.Expr, st *State, le *loopEffects) (*Term, bool) {
	switch b := ast.Unparen(b).(type) {
	case *ast.Ident:
		o := x.objOf(b)
		if le.vars[o] {
			return nil, false
		}
		t, ok := st.vars[o]
		return t, ok
	case *ast.SelectorExpr:
		sel, ok := x.info().Selections[b]
		if !ok || sel.Kind() != types.FieldVal {
			return nil, false
		}
		r, ok := x.invariantRef(b.X, st, le)
		if !ok {
			return nil, false
		}
		comp, _, ok := x.v.p.resolveField(sel.Recv(), b.Sel.Name)
		if !ok || le.comps[comp] != nil {
			return nil, false
		}
		return mkSelect(x.heapOf(st, comp), r), true
	}
	return nil, false
}

type loopHead struct {
	key   string
	spec  *LoopSpec
	invs  []Clause
	names func(st *State) func(string) (SV, bool)
}

func (x *exec) loopSpec(n ast.Node, body *ast.BlockStmt, fr *frame, entrySt *State) *loopHead {
	key := fmt.Sprintf("%s#%d", x.v.loopFn[n], x.v.loopNo[n])
	lh := &loopHead{key: key, spec: x.v.sp.Loops[key]}
	if lh.spec != nil {
		lh.invs = lh.spec.Inv
	}
	scope := x.v.p.pkg.Scope().Innermost(body.Pos())
	lh.names = func(st *State) func(string) (SV, bool) {
		return func(name string) (SV, bool) {
			if scope == nil {
				return SV{}, false
			}
			_, o := scope.LookupParent(name, body.Pos()+1)
			if o == nil {
				return SV{}, false
			}
			t, ok := st.vars[o]
			if !ok {
				return SV{}, false
			}
			return SV{t, o.Type()}, true
		}
	}
	return lh
}

// invCtx evaluates invariants: current values of locals, old(...) for the entry state.
func (x *exec) invCtx(st *State, lh *loopHead, fr *frame, atEntry *State) *SpecCtx {
	c := x.specCtx(st)
	// inside a function the parameters are ordinary variables
	loc := lh.names(st)
	env := c.env
	c.env = map[string]SV{}
	for k, t := range st.extra {
		c.env[k] = SV{t, nil}
		_ = t
	}
	c.local = func(n string) (SV, bool) {
		if v, ok := loc(n); ok {
			return v, true
		}
		// contract names of parameters
		if v, ok := env[n]; ok {
			return v, true
		}
		return SV{}, false
	}
	c.old.env = env
	c.old.local = nil
	// params by contract name resolve to their current value
	if fr.depth == 0 {
		for n, o := range x.paramObjs() {
			if t, ok := st.vars[o]; ok {
				if _, shadow := loc(n); !shadow {
					c.env[n] = SV{t, env[n].gt}
				}
			}
		}
	}
	return c
}

func (x *exec) paramObjs() map[string]types.Object {
	out := map[string]types.Object{}
	sig := x.fn.Type().(*types.Signature)
	for _, c := range []*Contract{x.c.iface, x.c.own} {
		if c == nil {
			continue
		}
		i := 0
		if sig.Recv() != nil {
			if d := x.decl.Recv; d != nil && len(d.List[0].Names) > 0 && i < len(c.Params) {
				out[c.Params[i]] = x.info().Defs[d.List[0].Names[0]]
			}
			i++
		}
		for j := 0; j < sig.Params().Len() && i < len(c.Params); j++ {
			out[c.Params[i]] = sig.Params().At(j)
			i++
		}
	}
	return out
}

func (x *exec) checkInvs(st *State, lh *loopHead, fr *frame, when, pos string) {
	for i, c := range lh.invs {
		ik := fmt.Sprintf("%s/%d", lh.key, i)
		if x.v.drop[ik] {
			continue
		}
		t := x.evalInv(st, lh, fr, c, ik)
		if t == nil {
			continue
		}
		n := len(x.obls)
		x.oblige(st, "inv", c.Tags, pstr("loop invariant of %s %s: %s", lh.key, when, c.Src), pos, t)
		for _, o := range x.obls[n:] {
			o.invKey = ik
		}
	}
}

// evalInv evaluates an invariant; one that no longer makes sense at this loop is dropped.
func (x *exec) evalInv(st *State, lh *loopHead, fr *frame, c Clause, ik string) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specError); ok {
				x.v.drop[ik] = true
				x.v.spErrs = append(x.v.spErrs, "invariant dropped: "+se.msg)
				t = nil
				return
			}
			panic(r)
		}
	}()
	return x.invCtx(st, lh, fr, nil).Bool(c.E)
}

func (x *exec) assumeInvs(st *State, lh *loopHead, fr *frame) {
	for i, c := range lh.invs {
		ik := fmt.Sprintf("%s/%d", lh.key, i)
		if x.v.drop[ik] {
			continue
		}
		if t := x.evalInv(st, lh, fr, c, ik); t != nil {
			st.assume(t)
		}
	}
	if lh.spec != nil {
		for _, u := range lh.spec.Using {
			u := u
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specError); !is {
							panic(r)
						}
					}
				}()
				if t := x.invCtx(st, lh, fr, nil).Eval(u).t; !isArr(t.Sort) {
					st.assume(mk("mark_"+t.Sort, SBool, t))
				}
			}()
		}
	}
}

// endEffects: the ghost state the ends of iterations update.
func (x *exec) endEffects(lh *loopHead, le *loopEffects) {
	if lh.spec == nil {
		return
	}
	for _, g := range lh.spec.Ends {
		e := le.comps["ghost."+g.Ghost]
		if e == nil {
			e = &compEff{}
			le.comps["ghost."+g.Ghost] = e
		}
		e.unknown = true
	}
}

// ends: the ghost updates at the end of an iteration.
func (x *exec) ends(st *State, lh *loopHead, fr *frame, pos string) {
	if lh.spec == nil {
		return
	}
	for _, g := range lh.spec.Ends {
		g := g
		func() {
			defer func() { // one that no longer makes sense at this loop is dropped
				if r := recover(); r != nil {
					se, ok := r.(specError)
					if !ok {
						panic(r)
					}
					x.v.spErrs = append(x.v.spErrs, "ghost update dropped: "+se.msg)
				}
			}()
			x.ghostUpdate(st, g, x.invCtx(st, lh, fr, nil), pos)
		}()
	}
}

// keepsAt: the loop's keep clauses, with the variables as they are at its head now.
func (x *exec) keepsAt(h *State, lh *loopHead, fr *frame) []keepAt {
	var out []keepAt
	vars, extra := h.clone().vars, h.extra
	for _, c := range lh.spec.Keep {
		c := c
		out = append(out, keepAt{src: c.Src, pos: c.Pos, tags: c.Tags, eval: func(st *State) (t *Term) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specError); !ok {
						panic(r)
					}
					t = nil
				}
			}()
			q := st.clone()
			q.vars, q.extra = vars, extra
			return x.invCtx(q, lh, fr, nil).Bool(c.E)
		}})
	}
	return out
}

// loop executes a for statement.
func (x *exec) loop(n ast.Node, cond ast.Expr, post ast.Stmt, body *ast.BlockStmt, _ interface{}, st *State, fr *frame, label string, k kont) {
	pos := x.pos(n)
	lh := x.loopSpec(n, body, fr, st)
	le := &loopEffects{vars: map[types.Object]bool{}, comps: map[string]*compEff{}, skip: leaving(body, label)}
	x.effects(body, map[string]bool{}, le, true)
	if post != nil {
		x.effects(post, map[string]bool{}, le, true)
	}
	if cond != nil {
		x.effects(cond, map[string]bool{}, le, true)
	}
	outer := st.extra["_i"]
	outerO := st.extra["_o"]
	if outer != nil {
		st.setExtra("_j", outer)
	}
	// counters: variables that go up by one in the post statement or start at a known value
	cnt, cntStart := x.counter(post, st)
	st.setExtra("_o", outer)
	st.setExtra("_i", tZero)
	x.checkInvs(st, lh, fr, "holds on entry", pos)
	x.endEffects(lh, le)
	h := x.havocLoop(st, le)
	it := fresh("_i", SInt)
	h.setExtra("_i", it)
	h.assume(mkLe(tZero, it))
	if cnt != nil && le.onlyPost(x, cnt, body) {
		h.assume(mkEq(h.vars[cnt], mkAdd(cntStart, it)))
	}
	x.assumeInvs(h, lh, fr)
	if lh.spec != nil {
		h.keeps = append(h.keeps[:len(h.keeps):len(h.keeps)], x.keepsAt(h, lh, fr)...)
	}
	if h.facts == nil {
		h.facts = st.facts
	}
	meas := func(s *State) []*Term {
		var d *Decreases
		if lh.spec != nil {
			d = lh.spec.Dec
		}
		if d != nil {
			var out []*Term
			ok := true
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(specError); is {
							ok = false
							return
						}
						panic(r)
					}
				}()
				c := x.invCtx(s, lh, fr, nil)
				for _, e := range d.Es {
					out = append(out, c.Eval(e).t)
				}
			}()
			if ok {
				return out
			}
		}
		// derive a measure from the condition
		if b, ok := cond.(*ast.BinaryExpr); ok && x.pureExpr(cond) {
			var m *Term
			q := s.clone()
			get := func(e ast.Expr) *Term {
				var r *Term
				nob := len(x.obls)
				x.ev(e, q, fr, func(_ *State, t *Term) { r = t })
				x.obls = x.obls[:nob]
				return r
			}
			switch b.Op {
			case token.LSS, token.LEQ, token.NEQ:
				m = mkSub(get(b.Y), get(b.X))
				if b.Op == token.LEQ {
					m = mkAdd(m, tOne)
				}
			case token.GTR, token.GEQ:
				m = mkSub(get(b.X), get(b.Y))
				if b.Op == token.GEQ {
					m = mkAdd(m, tOne)
				}
			}
			if m != nil && m.Sort == SInt {
				return []*Term{m}
			}
		}
		return nil
	}
	headMeas := meas(h)
	f := fr.sub()
	exit := func(s *State) {
		s.setExtra("_i", outer)
		s.setExtra("_o", outerO)
		if outer == nil {
			ne := map[string]*Term{}
			for a, b := range s.extra {
				if a != "_i" && a != "_o" && a != "_j" {
					ne[a] = b
				}
			}
			s.extra = ne
		}
		k(s)
	}
	f.curBrk = exit
	f.brk = addLabel(fr.brk, label, exit)
	closeIter := func(s *State) {
		x.ends(s, lh, fr, pos)
		s.setExtra("_i", mkAdd(it, tOne))
		x.checkInvs(s, lh, fr, "is preserved", pos)
		m2 := meas(s)
		if headMeas == nil || m2 == nil {
			x.oblige(s, "term", []string{"term"}, pstr("loop %s has a measure", lh.key), pos, tFalse)
			return
		}
		x.oblige(s, "term", []string{"term"}, pstr("measure of loop %s decreases", lh.key), pos, lexLess(m2, headMeas))
	}
	next := func(s *State) {
		if post != nil {
			x.stmt(post, s, f, "", closeIter)
		} else {
			closeIter(s)
		}
	}
	f.curCont = next
	f.cont = addLabel(fr.cont, label, next)
	if cond == nil {
		x.block(body.List, h, f, next)
		return
	}
	x.evCond(cond, h, fr, func(s *State, c *Term) {
		if c == tFalse {
			exit(s)
			return
		}
		if c != tTrue {
			x.countPath(n)
			e := s.clone()
			e.assume(mkNot(c))
			exit(e)
			s.assume(c)
		}
		x.block(body.List, s, f, next)
	})
}

// counter finds i in a post statement i++ and its initial value.
func (x *exec) counter(post ast.Stmt, st *State) (types.Object, *Term) {
	id, ok := post.(*ast.IncDecStmt)
	if !ok || id.Tok != token.INC {
		return nil, nil
	}
	v, ok := id.X.(*ast.Ident)
	if !ok {
		return nil, nil
	}
	o := x.objOf(v)
	t, ok := st.vars[o]
	if !ok {
		return nil, nil
	}
	return o, t
}

func (le *loopEffects) onlyPost(x *exec, o types.Object, body *ast.BlockStmt) bool {
	b := &loopEffects{vars: map[types.Object]bool{}, comps: map[string]*compEff{}}
	x.effects(body, map[string]bool{}, b, true)
	return !b.vars[o]
}

func (x *exec) rangeStmt(s *ast.RangeStmt, st *State, fr *frame, label string, k kont) {
	t := x.typeOf(s.X)
	if cl, ok := x.constMap(s.X); ok {
		_ = cl
		x.unsup(s, "range over a package table")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x.ev(s.X, st, fr, func(st *State, seq *Term) { x.rangeSeq(s, seq, u.Elem(), true, st, fr, label, k) })
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			x.ev(s.X, st, fr, func(st *State, str *Term) { x.rangeSeq(s, runesOf(str), nil, false, st, fr, label, k) })
			return
		}
		if u.Info()&types.IsInteger != 0 {
			x.ev(s.X, st, fr, func(st *State, n *Term) { x.rangeSeq(s, n, nil, true, st, fr, label, k) })
			return
		}
		x.unsup(s, "range over %s", t)
	case *types.Map:
		x.ev(s.X, st, fr, func(st *State, m *Term) { x.rangeMap(s, m, u, st, fr, label, k) })
	default:
		x.unsup(s, "range over %s", t)
	}
}

func (x *exec) bindRange(s *ast.RangeStmt, e ast.Expr, v *Term, st *State, fr *frame, k kont) {
	if e == nil {
		k(st)
		return
	}
	x.assignTo(e, v, st, fr, k)
}

func (x *exec) rangeSeq(s *ast.RangeStmt, seq *Term, elem types.Type, idxOK bool, st *State, fr *frame, label string, k kont) {
	pos := x.pos(s)
	lh := x.loopSpec(s, s.Body, fr, st)
	le := &loopEffects{vars: map[types.Object]bool{}, comps: map[string]*compEff{}, skip: leaving(s.Body, label)}
	x.effects(s.Body, map[string]bool{}, le, true)
	outer, outerS := st.extra["_i"], st.extra["_s"]
	outerO := st.extra["_o"]
	if outer != nil {
		st.setExtra("_j", outer)
	}
	if outerS != nil {
		st.setExtra("_t", outerS)
	}
	n := seq
	if isSeq(seq.Sort) {
		n = seqLen(seq)
		st.setExtra("_s", seq)
	}
	st.setExtra("_o", outer)
	st.setExtra("_i", tZero)
	x.checkInvs(st, lh, fr, "holds on entry", pos)
	x.endEffects(lh, le)
	h := x.havocLoop(st, le)
	it := fresh("_i", SInt)
	h.setExtra("_i", it)
	if isSeq(seq.Sort) {
		h.setExtra("_s", seq)
	}
	h.assume(mkAnd(mkLe(tZero, it), mkLe(it, n)))
	x.assumeInvs(h, lh, fr)
	exit := func(s *State) {
		s.setExtra("_i", outer)
		s.setExtra("_o", outerO)
		s.setExtra("_s", outerS)
		ne := map[string]*Term{}
		for a, b := range s.extra {
			if b != nil && !(outer == nil && (a == "_j" || a == "_t")) {
				ne[a] = b
			}
		}
		s.extra = ne
		k(s)
	}
	f := fr.sub()
	f.curBrk = exit
	f.brk = addLabel(fr.brk, label, exit)
	next := func(s *State) {
		x.ends(s, lh, fr, pos)
		s.setExtra("_i", mkAdd(it, tOne))
		if isSeq(seq.Sort) {
			s.setExtra("_s", seq)
		}
		x.checkInvs(s, lh, fr, "is preserved", pos)
	}
	f.curCont = next
	f.cont = addLabel(fr.cont, label, next)
	x.countPath(s)
	e := h.clone()
	e.assume(mkEq(it, n))
	// go on after the loop
	func() {
		ex := e
		exit(ex)
	}()
	h.assume(mkLt(it, n))
	key := it
	if !idxOK {
		key = fresh("byteidx", SInt)
		h.assume(mkLe(tZero, key))
	}
	var val *Term
	if isSeq(seq.Sort) {
		val = seqIdx(seq, it)
		if elem != nil {
			x.elemFact(h, val, elem)
		}
	}
	x.bindRange(s, s.Key, key, h, fr, func(h *State) {
		if s.Value == nil {
			x.block(s.Body.List, h, f, next)
			return
		}
		x.bindRange(s, s.Value, val, h, fr, func(h *State) { x.block(s.Body.List, h, f, next) })
	})
}

func (x *exec) rangeMap(s *ast.RangeStmt, m *Term, mt *types.Map, st *State, fr *frame, label string, k kont) {
	pos := x.pos(s)
	dom, vc := x.v.mapComps(mt)
	ks := x.v.p.sortOf(mt.Key())
	lh := x.loopSpec(s, s.Body, fr, st)
	le := &loopEffects{vars: map[types.Object]bool{}, comps: map[string]*compEff{}, skip: leaving(s.Body, label)}
	x.effects(s.Body, map[string]bool{}, le, true)
	dom0 := mkSelect(x.heapOf(st, dom), m)
	if m == tZero {
		k(st)
		return
	}
	key0 := freshVar(ks)
	st.assume(mkImp(mkEq(m, tZero), mkForall([]*Term{key0}, nil, mkNot(mkSelect(dom0, key0)))))
	outer, outerV := st.extra["_i"], st.extra["_vis"]
	outerO := st.extra["_o"]
	vsort := arrOf(ks, SBool)
	st.setExtra("_o", outer)
	st.setExtra("_i", tZero)
	st.setExtra("_vis", mk("constarr:false", vsort))
	st.setExtra("_dom", dom0)
	x.checkInvs(st, lh, fr, "holds on entry", pos)
	x.endEffects(lh, le)
	h := x.havocLoop(st, le)
	it := fresh("_i", SInt)
	vis := fresh("_vis", vsort)
	h.setExtra("_i", it)
	h.setExtra("_vis", vis)
	h.assume(mkLe(tZero, it))
	h.assume(mkEq(mkEq(it, tZero), mkEq(vis, mk("constarr:false", vsort))))
	q := freshVar(ks)
	if le.comps[dom] == nil {
		// every visited key is a key of the map
		h.assume(mkForall([]*Term{q}, [][]*Term{{mkSelect(vis, q)}}, mkImp(mkSelect(vis, q), mkSelect(dom0, q))))
		h.assume(mkEq(it, cardOf(vis)))
		h.assume(mkLe(it, cardOf(dom0)))
	}
	x.assumeInvs(h, lh, fr)
	exit := func(s *State) {
		s.setExtra("_i", outer)
		s.setExtra("_o", outerO)
		s.setExtra("_vis", outerV)
		ne := map[string]*Term{}
		for a, b := range s.extra {
			if b != nil && a != "_dom" {
				ne[a] = b
			}
		}
		s.extra = ne
		k(s)
	}
	f := fr.sub()
	f.curBrk = exit
	f.brk = addLabel(fr.brk, label, exit)
	kc := fresh("key", ks)
	next := func(s *State) {
		x.ends(s, lh, fr, pos)
		s.setExtra("_i", mkAdd(it, tOne))
		s.setExtra("_vis", mkStore(vis, kc, tTrue))
		x.checkInvs(s, lh, fr, "is preserved", pos)
	}
	f.curCont = next
	f.cont = addLabel(fr.cont, label, next)
	x.countPath(s)
	e := h.clone()
	domE := mkSelect(x.heapOf(e, dom), m)
	if le.comps[dom] == nil {
		e.assume(mkEq(vis, dom0))
		e.assume(mkEq(it, cardOf(dom0)))
	} else {
		q2 := freshVar(ks)
		e.assume(mkForall([]*Term{q2}, [][]*Term{{mkSelect(domE, q2)}, {mkSelect(dom0, q2)}}, mkImp(mkAnd(mkSelect(dom0, q2), mkSelect(domE, q2)), mkSelect(vis, q2))))
	}
	exit(e)
	domH := mkSelect(x.heapOf(h, dom), m)
	h.assume(mkSelect(domH, kc))
	h.assume(mkNot(mkSelect(vis, kc)))
	h.assume(mkNot(mkEq(m, tZero)))
	if le.comps[dom] == nil {
		h.assume(mkLt(it, cardOf(dom0)))
	}
	val := fresh("mapval", x.v.p.sortOf(mt.Elem()))
	h.assume(mkEq(val, mkSelect(mkSelect(x.heapOf(h, vc), m), kc)))
	x.typed(h, val, mt.Elem())
	x.bindRange(s, s.Key, kc, h, fr, func(h *State) {
		x.bindRange(s, s.Value, val, h, fr, func(h *State) { x.block(s.Body.List, h, f, next) })
	})
}

var _ = strings.HasPrefix
