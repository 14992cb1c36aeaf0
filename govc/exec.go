package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type kont func(*State)
type vkont func(*State, *Term)
type vskont func(*State, []*Term)

func (x *exec) info() *types.Info { return x.v.p.info }
func (x *exec) pos(n ast.Node) string { return x.v.p.pos(n.Pos()) }
func (x *exec) unsup(n ast.Node, f string, a ...interface{}) { x.v.p.unsup(n, f, a...) }

func (x *exec) typeOf(e ast.Expr) types.Type {
	if tv, ok := x.info().Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.objOf(id); o != nil {
			return o.Type()
		}
	}
	x.unsup(e, "untyped expression")
	return nil
}

func (x *exec) objOf(id *ast.Ident) types.Object {
	if o := x.info().Defs[id]; o != nil {
		return o
	}
	return x.info().Uses[id]
}

// ---------------------------------------------------------------- statements

func (x *exec) block(ss []ast.Stmt, st *State, fr *frame, k kont) {
	if len(ss) == 0 {
		k(st)
		return
	}
	x.stmt(ss[0], st, fr, "", func(s *State) { x.block(ss[1:], s, fr, k) })
}

func (x *exec) stmt(s ast.Stmt, st *State, fr *frame, label string, k kont) {
	x.steps++
	if x.steps > 400000 {
		x.unsup(s, "symbolic execution budget exceeded")
	}
	switch s := s.(type) {
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		x.block(s.List, st, fr, k)
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
			x.stmt(s.Stmt, st, fr, s.Label.Name, k)
		default:
			f := fr.sub()
			f.brk = addLabel(fr.brk, s.Label.Name, k)
			x.stmt(s.Stmt, st, f, "", k)
		}
	case *ast.ExprStmt:
		ce, ok := ast.Unparen(s.X).(*ast.CallExpr)
		if !ok {
			x.ev(s.X, st, fr, func(st *State, _ *Term) { k(st) })
			return
		}
		x.call(ce, st, fr, func(st *State, _ []*Term) { k(st) })
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x.ev(s.X, st, fr, func(st *State, v *Term) {
			d := tOne
			if op == token.SUB {
				d = mkInt(-1)
			}
			x.assignTo(s.X, mkAdd(v, d), st, fr, k)
		})
	case *ast.AssignStmt:
		x.assign(s, st, fr, k)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		var vs []*ast.ValueSpec
		for _, sp := range gd.Specs {
			if v, ok := sp.(*ast.ValueSpec); ok && gd.Tok == token.VAR {
				vs = append(vs, v)
			}
		}
		var next func(i int, st *State)
		next = func(i int, st *State) {
			if i == len(vs) {
				k(st)
				return
			}
			v := vs[i]
			if len(v.Values) == 0 {
				for _, id := range v.Names {
					o := x.info().Defs[id]
					if o == nil {
						continue
					}
					st.vars[o] = x.zeroVar(st, o.Type())
				}
				next(i+1, st)
				return
			}
			lhs := make([]ast.Expr, len(v.Names))
			for j := range v.Names {
				lhs[j] = v.Names[j]
			}
			x.evMulti(v.Values, len(lhs), st, fr, func(st *State, vals []*Term) {
				x.assignAll(lhs, vals, st, fr, func(st *State) { next(i+1, st) })
			})
		}
		next(0, st)
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			var vals []*Term
			for _, o := range fr.results {
				vals = append(vals, st.vars[o])
			}
			fr.ret(st, vals)
			return
		}
		x.evMulti(s.Results, fr.sig.Results().Len(), st, fr, func(st *State, vals []*Term) {
			for i, o := range fr.results {
				st.vars[o] = vals[i]
			}
			fr.ret(st, vals)
		})
	case *ast.IfStmt:
		body := func(st *State) { x.ifStmt(s, st, fr, k) }
		if s.Init != nil {
			x.stmt(s.Init, st, fr, "", body)
		} else {
			body(st)
		}
	case *ast.SwitchStmt:
		x.switchStmt(s, st, fr, label, k)
	case *ast.ForStmt:
		if s.Init != nil {
			x.stmt(s.Init, st, fr, "", func(st *State) { x.loop(s, s.Cond, s.Post, s.Body, nil, st, fr, label, k) })
		} else {
			x.loop(s, s.Cond, s.Post, s.Body, nil, st, fr, label, k)
		}
	case *ast.RangeStmt:
		x.rangeStmt(s, st, fr, label, k)
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK:
			if s.Label != nil {
				fr.brk[s.Label.Name](st)
			} else {
				fr.curBrk(st)
			}
		case token.CONTINUE:
			if s.Label != nil {
				fr.cont[s.Label.Name](st)
			} else {
				fr.curCont(st)
			}
		default:
			x.unsup(s, "%s statement", s.Tok)
		}
	case *ast.DeferStmt:
		if _, ok := ast.Unparen(s.Call.Fun).(*ast.FuncLit); !ok && len(s.Call.Args) > 0 {
			x.unsup(s, "defer with arguments")
		}
		st.defers = append(append([]deferred{}, st.defers...), deferred{fr, s.Call})
		k(st)
	default:
		x.unsup(s, "statement %T is outside the verified subset", s)
	}
}

func addLabel(m map[string]func(*State), l string, k kont) map[string]func(*State) {
	n := map[string]func(*State){}
	for a, b := range m {
		n[a] = b
	}
	if l != "" {
		n[l] = k
	}
	return n
}

func (x *exec) zeroVar(st *State, t types.Type) *Term {
	if n, s := structOf(t); n != nil && s != nil && !isPtr(t) && n.Obj().Pkg() == x.v.p.pkg && s.NumFields() > 0 {
		r := x.allocRef(st, x.v.p.tags[n.Obj().Name()])
		for _, f := range x.v.p.flatFields(n) {
			x.v.compSort(f.comp, f.typ)
			st.heap[f.comp] = mkStore(x.heapOf(st, f.comp), r, x.v.zero(f.typ))
		}
		return r
	}
	return x.v.zero(t)
}

// simple statements can be executed on both sides of an if and merged
func (x *exec) simpleStmts(s ast.Stmt) bool {
	ok := true
	if s == nil {
		return true
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case nil, *ast.BlockStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.Ident, *ast.SelectorExpr, *ast.BasicLit, *ast.BinaryExpr, *ast.UnaryExpr, *ast.ParenExpr, *ast.IfStmt, *ast.SliceExpr, *ast.IndexExpr, *ast.EmptyStmt, *ast.ExprStmt:
		case *ast.CallExpr:
			if id, k := n.Fun.(*ast.Ident); k {
				if _, b := x.info().Uses[id].(*types.Builtin); b && (id.Name == "append" || id.Name == "len") {
					return true
				}
			}
			if !x.pureCall(n) {
				ok = false
			}
		default:
			ok = false
		}
		return ok
	})
	return ok
}

func (x *exec) ifStmt(s *ast.IfStmt, st *State, fr *frame, k kont) {
	x.evCond(s.Cond, st, fr, func(st *State, c *Term) {
		if c == tTrue {
			x.stmt(s.Body, st, fr, "", k)
			return
		}
		if c == tFalse {
			if s.Else != nil {
				x.stmt(s.Else, st, fr, "", k)
			} else {
				k(st)
			}
			return
		}
		if x.simpleStmts(s.Body) && x.simpleStmts(s.Else) && (s.Else == nil || isBlockOrIf(s.Else)) {
			if m := x.mergeIf(s, c, st, fr); m != nil {
				k(m)
				return
			}
		}
		x.countPath(s)
		a := st.clone()
		a.assume(c)
		x.stmt(s.Body, a, fr, "", k)
		b := st
		b.assume(mkNot(c))
		if s.Else != nil {
			x.stmt(s.Else, b, fr, "", k)
		} else {
			k(b)
		}
	})
}

func isBlockOrIf(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.BlockStmt, *ast.IfStmt:
		return true
	}
	return false
}

func (x *exec) countPath(n ast.Node) {
	x.paths++
	if x.paths > maxPaths {
		x.unsup(n, "too many paths")
	}
}

func (x *exec) mergeIf(s *ast.IfStmt, c *Term, st *State, fr *frame) *State {
	run := func(body ast.Stmt, c *Term) (*State, int) {
		var out *State
		n := 0
		a := st.clone()
		a.facts = a.facts.add(c)
		if body == nil {
			return a, 1
		}
		x.stmt(body, a, fr, "", func(s *State) { out = s; n++ })
		return out, n
	}
	ob := len(x.obls)
	a, na := run(s.Body, c)
	b, nb := run(s.Else, mkNot(c))
	if na != 1 || nb != 1 {
		x.obls = x.obls[:ob]
		return nil
	}
	return x.merge(st, c, a, b)
}

func newFacts(f, base *factList) []*Term {
	var out []*Term
	for ; f != base && f != nil; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *exec) merge(base *State, c *Term, a, b *State) *State {
	m := base.clone()
	for _, f := range newFacts(a.facts, base.facts) {
		if f != c {
			m.assume(mkImp(c, f))
		}
	}
	for _, f := range newFacts(b.facts, base.facts) {
		if f != mkNot(c) {
			m.assume(mkImp(mkNot(c), f))
		}
	}
	for o := range base.vars {
		m.vars[o] = mkIte(c, a.vars[o], b.vars[o])
	}
	comps := map[string]bool{}
	for k := range a.heap {
		comps[k] = true
	}
	for k := range b.heap {
		comps[k] = true
	}
	for k := range comps {
		ha, hb := x.heapOf(a, k), x.heapOf(b, k)
		m.heap[k] = mergeHeap(c, ha, hb, x.heapOf(base, k))
	}
	if a.alloc != b.alloc {
		na := fresh("alloc", SInt)
		m.assume(mkEq(na, mkIte(c, a.alloc, b.alloc)))
		m.alloc = na
	} else {
		m.alloc = a.alloc
	}
	nl := map[int]bool{}
	for k := range a.locals {
		if b.locals[k] {
			nl[k] = true
		}
	}
	m.locals = nl
	return m
}

func mergeHeap(c, a, b, base *Term) *Term {
	if a == b {
		return a
	}
	if a.Op == "store" && a.Args[0] == b {
		return mkStore(b, a.Args[1], mkIte(c, a.Args[2], mkSelect(b, a.Args[1])))
	}
	if b.Op == "store" && b.Args[0] == a {
		return mkStore(a, b.Args[1], mkIte(c, mkSelect(a, b.Args[1]), b.Args[2]))
	}
	if a.Op == "store" && b.Op == "store" && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] {
		return mkStore(a.Args[0], a.Args[1], mkIte(c, a.Args[2], b.Args[2]))
	}
	return mkIte(c, a, b)
}

func (x *exec) switchStmt(s *ast.SwitchStmt, st *State, fr *frame, label string, k kont) {
	f := fr.sub()
	f.curBrk = k
	f.brk = addLabel(fr.brk, label, k)
	start := func(st *State) {
		withTag := func(st *State, tag *Term) {
			var clauses []*ast.CaseClause
			var def *ast.CaseClause
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				for _, b := range cc.Body {
					if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
						x.unsup(br, "fallthrough")
					}
				}
				if cc.List == nil {
					def = cc
				} else {
					clauses = append(clauses, cc)
				}
			}
			var next func(i int, st *State)
			next = func(i int, st *State) {
				if i == len(clauses) {
					if def != nil {
						x.block(def.Body, st, f, k)
					} else {
						k(st)
					}
					return
				}
				cc := clauses[i]
				var conds func(j int, st *State, acc *Term)
				conds = func(j int, st *State, acc *Term) {
					if j == len(cc.List) {
						if acc == tFalse {
							next(i+1, st)
							return
						}
						if acc == tTrue {
							x.block(cc.Body, st, f, k)
							return
						}
						x.countPath(cc)
						a := st.clone()
						a.assume(acc)
						x.block(cc.Body, a, f, k)
						st.assume(mkNot(acc))
						next(i+1, st)
						return
					}
					x.ev(cc.List[j], st, fr, func(st *State, v *Term) {
						c := v
						if tag != nil {
							c = x.eqTerm(st, tag, v)
						}
						conds(j+1, st, mkOr(acc, c))
					})
				}
				conds(0, st, tFalse)
			}
			next(0, st)
		}
		if s.Tag != nil {
			x.ev(s.Tag, st, fr, func(st *State, t *Term) { withTag(st, t) })
		} else {
			withTag(st, nil)
		}
	}
	if s.Init != nil {
		x.stmt(s.Init, st, fr, "", start)
	} else {
		start(st)
	}
}

func (x *exec) eqTerm(st *State, a, b *Term) *Term {
	if isSeq(a.Sort) || isSeq(b.Sort) {
		s := a
		if !isSeq(a.Sort) {
			s = b
		}
		// comparison of a slice with nil: nil implies empty
		if s.Op == "empty_"+s.Sort {
			// an empty value may or may not be nil
			return fresh("isnil", SBool)
		}
		n := fresh("isnil", SBool)
		st.assume(mkImp(n, mkEq(seqLen(s), tZero)))
		return n
	}
	return mkEq(a, b)
}

// ---------------------------------------------------------------- assignment

func (x *exec) assign(s *ast.AssignStmt, st *State, fr *frame, k kont) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := s.Tok - token.ADD_ASSIGN + token.ADD
		be := &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: s.Rhs[0], OpPos: s.TokPos}
		x.ev(s.Lhs[0], st, fr, func(st *State, a *Term) {
			x.ev(s.Rhs[0], st, fr, func(st *State, b *Term) {
				x.assignTo(s.Lhs[0], x.binop(be, op, a, b, x.typeOf(s.Lhs[0]), st), st, fr, k)
			})
		})
		return
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		if fl, ok := s.Rhs[0].(*ast.FuncLit); ok {
			if id, ok := s.Lhs[0].(*ast.Ident); ok {
				n := map[types.Object]*ast.FuncLit{}
				for a, b := range st.closures {
					n[a] = b
				}
				n[x.objOf(id)] = fl
				st.closures = n
				k(st)
				return
			}
		}
	}
	x.evMulti(s.Rhs, len(s.Lhs), st, fr, func(st *State, vals []*Term) {
		x.assignAll(s.Lhs, vals, st, fr, k)
	})
}

func (x *exec) assignAll(lhs []ast.Expr, vals []*Term, st *State, fr *frame, k kont) {
	if len(lhs) == 0 {
		k(st)
		return
	}
	x.assignTo(lhs[0], vals[0], st, fr, func(st *State) { x.assignAll(lhs[1:], vals[1:], st, fr, k) })
}

func (x *exec) assignTo(l ast.Expr, v *Term, st *State, fr *frame, k kont) {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			k(st)
			return
		}
		o := x.objOf(l)
		if x.v.p.globals[o] {
			x.unsup(l, "assignment to package variable %s", l.Name)
		}
		st.vars[o] = v
		k(st)
	case *ast.SelectorExpr:
		x.lvalSel(l, st, fr, func(st *State, comp string, ref *Term, gt types.Type) {
			x.guardCheck(st, comp, ref, 2, x.pos(l))
			x.write(st, comp, ref, v, x.pos(l))
			k(st)
		})
	case *ast.IndexExpr:
		bt := x.typeOf(l.X)
		switch u := bt.Underlying().(type) {
		case *types.Map:
			x.ev(l.X, st, fr, func(st *State, m *Term) {
				x.ev(l.Index, st, fr, func(st *State, i *Term) {
					x.oblige(st, "safety", []string{"panic"}, "map assigned to is not nil", x.pos(l), mkNot(mkEq(m, tZero)))
					x.mapStore(st, u, m, i, v, x.pos(l))
					k(st)
				})
			})
		case *types.Slice:
			x.ev(l.X, st, fr, func(st *State, s *Term) {
				x.ev(l.Index, st, fr, func(st *State, i *Term) {
					x.oblige(st, "safety", []string{"panic"}, "index in range", x.pos(l), mkAnd(mkLe(tZero, i), mkLt(i, seqLen(s))))
					x.assignTo(l.X, seqUpd(s, i, v), st, fr, k)
				})
			})
		default:
			x.unsup(l, "assignment to element of %s", bt)
		}
	case *ast.StarExpr:
		x.unsup(l, "assignment through pointer")
	default:
		x.unsup(l, "assignment target %T", l)
	}
}

func (x *exec) mapStore(st *State, mt *types.Map, m, key, val *Term, pos string) {
	dom, vc := x.v.mapComps(mt)
	x.frameCheck(st, dom, m, pos)
	d := mkSelect(x.heapOf(st, dom), m)
	vv := mkSelect(x.heapOf(st, vc), m)
	st.heap[dom] = mkStore(x.heapOf(st, dom), m, mkStore(d, key, tTrue))
	st.heap[vc] = mkStore(x.heapOf(st, vc), m, mkStore(vv, key, val))
}

// lvalSel resolves x.f to a component and a reference, checking that x is not nil.
func (x *exec) lvalSel(l *ast.SelectorExpr, st *State, fr *frame, k func(*State, string, *Term, types.Type)) {
	sel, ok := x.info().Selections[l]
	if !ok || sel.Kind() != types.FieldVal {
		x.unsup(l, "selector")
	}
	x.refOf(l.X, st, fr, func(st *State, ref *Term) {
		comp, ft, ok := x.v.p.resolveField(sel.Recv(), l.Sel.Name)
		if !ok {
			x.unsup(l, "field %s", l.Sel.Name)
		}
		k(st, comp, ref, ft)
	})
}

// refOf evaluates an expression of struct or pointer-to-struct type to its reference;
// nested struct fields live at their owner's reference.
func (x *exec) refOf(e ast.Expr, st *State, fr *frame, k vkont) {
	e = ast.Unparen(e)
	t := x.typeOf(e)
	if se, ok := e.(*ast.SelectorExpr); ok && !isPtr(t) {
		if _, s := structOf(t); s != nil {
			if sel, ok := x.info().Selections[se]; ok && sel.Kind() == types.FieldVal {
				x.refOf(se.X, st, fr, k)
				return
			}
		}
	}
	if ue, ok := e.(*ast.UnaryExpr); ok && ue.Op == token.AND {
		if _, isC := ast.Unparen(ue.X).(*ast.CompositeLit); !isC {
			x.refOf(ue.X, st, fr, k)
			return
		}
	}
	if se, ok := e.(*ast.StarExpr); ok {
		x.refOf(se.X, st, fr, k)
		return
	}
	x.ev(e, st, fr, func(st *State, r *Term) {
		if isPtr(t) {
			x.nonNil(st, r, x.pos(e))
		}
		k(st, r)
	})
}

func (x *exec) nonNil(st *State, r *Term, pos string) {
	if st.locals[r.id] {
		return
	}
	x.oblige(st, "safety", []string{"panic"}, "pointer is not nil", pos, mkNot(mkEq(r, tZero)))
}

// guardCheck: components declared guarded need their lock.
func (x *exec) guardCheck(st *State, comp string, ref *Term, mode int64, pos string) {
	lock, ok := x.v.sp.Guarded[comp]
	if !ok || st.locals[ref.id] {
		return
	}
	lc := x.v.compName(lock)
	m := mkSelect(x.heapOf(st, lc), ref)
	x.oblige(st, "lock", []string{"lock"}, pstr("%s is accessed with its lock held (mode %d)", comp, mode), pos, mkLe(mkInt(mode), m))
}

// ---------------------------------------------------------------- expressions

func (x *exec) evMulti(es []ast.Expr, want int, st *State, fr *frame, k vskont) {
	if len(es) == 1 && want > 1 {
		switch e := ast.Unparen(es[0]).(type) {
		case *ast.CallExpr:
			x.call(e, st, fr, k)
			return
		case *ast.IndexExpr:
			x.mapCommaOk(e, st, fr, k)
			return
		}
		x.unsup(es[0], "multi-value expression")
	}
	var vals []*Term
	var next func(i int, st *State)
	next = func(i int, st *State) {
		if i == len(es) {
			k(st, vals[:len(es):len(es)])
			return
		}
		x.ev(es[i], st, fr, func(st *State, v *Term) {
			vals = append(vals[:i:i], v)
			saved := vals
			next(i+1, st)
			vals = saved
		})
	}
	next(0, st)
}

func (x *exec) evs(es []ast.Expr, st *State, fr *frame, k vskont) { x.evMulti(es, len(es), st, fr, k) }

func (x *exec) evCond(e ast.Expr, st *State, fr *frame, k vkont) {
	e = ast.Unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && !x.pureExpr(b.Y) {
		x.evCond(b.X, st, fr, func(st *State, l *Term) {
			x.countPath(e)
			a := st.clone()
			if b.Op == token.LAND {
				a.assume(l)
				x.evCond(b.Y, a, fr, k)
				st.assume(mkNot(l))
				k(st, tFalse)
			} else {
				a.assume(mkNot(l))
				x.evCond(b.Y, a, fr, k)
				st.assume(l)
				k(st, tTrue)
			}
		})
		return
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		x.evCond(u.X, st, fr, func(st *State, v *Term) { k(st, mkNot(v)) })
		return
	}
	x.ev(e, st, fr, k)
}

// pureCall: calls that change nothing and have exactly one outcome
func (x *exec) pureCall(ce *ast.CallExpr) bool {
	if tv, ok := x.info().Types[ce.Fun]; ok && tv.IsType() {
		return true
	}
	if id, ok := ast.Unparen(ce.Fun).(*ast.Ident); ok {
		if _, b := x.info().Uses[id].(*types.Builtin); b {
			return id.Name == "len" || id.Name == "append"
		}
	}
	fn, iface := x.v.calleeOf(ce)
	if fn == nil {
		return false
	}
	if fn.Pkg() != x.v.p.pkg {
		return fn.FullName() == "strings.HasPrefix" || fn.FullName() == "strings.TrimSpace"
	}
	n := funcName(fn)
	if iface != nil {
		n = iface.Obj().Name() + "." + fn.Name()
	}
	if c := x.v.contractFor(n); c != nil {
		return c.own.Pure
	}
	// a helper consisting of one pure return
	if d := x.v.p.decls[fn]; d != nil && d.Body != nil && len(d.Body.List) == 1 && !x.v.recursive[n] && iface == nil {
		if r, ok := d.Body.List[0].(*ast.ReturnStmt); ok {
			for _, e := range r.Results {
				if !x.pureExpr(e) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (x *exec) pureExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if !x.pureCall(n) {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW || n.Op == token.AND {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (x *exec) ev(e ast.Expr, st *State, fr *frame, k vkont) {
	e = ast.Unparen(e)
	if tv, ok := x.info().Types[e]; ok && tv.Value != nil {
		k(st, x.v.constTerm(tv.Value, tv.Type))
		return
	}
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name == "nil" {
			if tv, ok := x.info().Types[e]; ok {
				if s := x.nilSort(tv.Type); s != "" {
					k(st, seqEmpty(s))
					return
				}
			}
			k(st, tZero)
			return
		}
		o := x.objOf(e)
		if v, ok := st.vars[o]; ok {
			k(st, v)
			return
		}
		if x.v.p.globals[o] {
			k(st, x.global(st, o, e))
			return
		}
		x.unsup(e, "identifier %s", e.Name)
	case *ast.BasicLit:
		x.unsup(e, "literal")
	case *ast.SelectorExpr:
		if _, ok := x.info().Selections[e]; !ok {
			x.unsup(e, "qualified identifier %s", e.Sel.Name)
		}
		x.lvalSel(e, st, fr, func(st *State, comp string, ref *Term, gt types.Type) {
			x.v.compSort(comp, gt)
			x.guardCheck(st, comp, ref, 1, x.pos(e))
			k(st, x.read(st, comp, ref, gt))
		})
	case *ast.StarExpr:
		x.unsup(e, "pointer dereference")
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				x.composite(cl, st, fr, k)
				return
			}
			x.refOf(e.X, st, fr, k)
			return
		}
		x.ev(e.X, st, fr, func(st *State, v *Term) {
			switch e.Op {
			case token.NOT:
				k(st, mkNot(v))
			case token.SUB:
				k(st, mkMulC(-1, v))
			case token.ADD:
				k(st, v)
			default:
				x.unsup(e, "unary %s", e.Op)
			}
		})
	case *ast.BinaryExpr:
		x.binary(e, st, fr, k)
	case *ast.IndexExpr:
		x.index(e, st, fr, k)
	case *ast.SliceExpr:
		if e.Max != nil {
			x.unsup(e, "3-index slice")
		}
		x.ev(e.X, st, fr, func(st *State, s *Term) {
			opt := func(ie ast.Expr, def *Term, st *State, k vkont) {
				if ie == nil {
					k(st, def)
				} else {
					x.ev(ie, st, fr, k)
				}
			}
			if s.Sort == SStr {
				opt(e.Low, tZero, st, func(st *State, lo *Term) {
					opt(e.High, mk("slen", SInt, s), st, func(st *State, hi *Term) {
						x.oblige(st, "safety", []string{"panic"}, "string slice bounds in range", x.pos(e), mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, mk("slen", SInt, s))))
						k(st, mk("ssub", SStr, s, lo, hi))
					})
				})
				return
			}
			opt(e.Low, tZero, st, func(st *State, lo *Term) {
				opt(e.High, seqLen(s), st, func(st *State, hi *Term) {
					x.oblige(st, "safety", []string{"panic"}, "slice bounds in range", x.pos(e), mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, seqLen(s))))
					k(st, seqSlice(s, lo, hi))
				})
			})
		})
	case *ast.CompositeLit:
		x.composite(e, st, fr, k)
	case *ast.CallExpr:
		x.call(e, st, fr, func(st *State, vs []*Term) {
			if len(vs) != 1 {
				x.unsup(e, "call used as a value returns %d results", len(vs))
			}
			k(st, vs[0])
		})
	case *ast.FuncLit:
		x.unsup(e, "function literal used as a value")
	default:
		x.unsup(e, "expression %T", e)
	}
}

func (x *exec) nilSort(t types.Type) string {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return x.v.p.sortOf(sl)
	}
	return ""
}

func (x *exec) global(st *State, o types.Object, e ast.Expr) *Term {
	if !x.v.p.consts[o] {
		x.unsup(e, "package variable %s is written somewhere", o.Name())
	}
	t := mkConst("global_"+o.Name(), x.v.p.sortOf(o.Type()))
	return t
}

func (x *exec) binary(e *ast.BinaryExpr, st *State, fr *frame, k vkont) {
	if e.Op == token.LAND || e.Op == token.LOR {
		if !x.pureExpr(e.Y) {
			x.evCond(e, st, fr, k)
			return
		}
		x.ev(e.X, st, fr, func(st *State, l *Term) {
			g := l
			if e.Op == token.LOR {
				g = mkNot(l)
			}
			b := st.clone()
			b.facts = b.facts.add(g)
			base := b.facts
			var rt *Term
			x.ev(e.Y, b, fr, func(s *State, r *Term) { b = s; rt = r })
			for _, f := range newFacts(b.facts, base) {
				st.assume(mkImp(g, f))
			}
			if e.Op == token.LAND {
				k(st, mkAnd(l, rt))
			} else {
				k(st, mkOr(l, rt))
			}
		})
		return
	}
	x.ev(e.X, st, fr, func(st *State, a *Term) {
		x.ev(e.Y, st, fr, func(st *State, b *Term) {
			k(st, x.binop(e, e.Op, a, b, x.typeOf(e.X), st))
		})
	})
}

func (x *exec) binop(e ast.Expr, op token.Token, a, b *Term, t types.Type, st *State) *Term {
	if a.Sort != b.Sort { // nil against a slice
		if isSeq(a.Sort) {
			b = seqEmpty(a.Sort)
		} else if isSeq(b.Sort) {
			a = seqEmpty(b.Sort)
		}
	}
	switch op {
	case token.EQL:
		if isSeq(a.Sort) {
			return x.eqNil(st, a, b)
		}
		return mkEq(a, b)
	case token.NEQ:
		if isSeq(a.Sort) {
			return mkNot(x.eqNil(st, a, b))
		}
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLe(b, a)
	case token.ADD:
		if a.Sort == SStr {
			return mk("scat", SStr, a, b)
		}
		return mkAdd(a, b)
	case token.SUB:
		return mkSub(a, b)
	case token.MUL:
		return mkMul(a, b)
	}
	x.unsup(e, "operator %s", op)
	return nil
}

// eqNil: x == nil for a slice; slices are values here, so all that is known is that nil is empty.
func (x *exec) eqNil(st *State, a, b *Term) *Term {
	s := a
	if strings.HasPrefix(a.Op, "empty_") {
		s = b
	}
	n := fresh("isnil", SBool)
	st.assume(mkImp(n, mkEq(seqLen(s), tZero)))
	return n
}

func (x *exec) index(e *ast.IndexExpr, st *State, fr *frame, k vkont) {
	bt := x.typeOf(e.X)
	switch u := bt.Underlying().(type) {
	case *types.Map:
		x.mapCommaOk(e, st, fr, func(st *State, vs []*Term) { k(st, vs[0]) })
	case *types.Slice:
		x.ev(e.X, st, fr, func(st *State, s *Term) {
			x.ev(e.Index, st, fr, func(st *State, i *Term) {
				x.oblige(st, "safety", []string{"panic"}, "index in range", x.pos(e), mkAnd(mkLe(tZero, i), mkLt(i, seqLen(s))))
				r := seqIdx(s, i)
				x.elemFact(st, r, u.Elem())
				k(st, r)
			})
		})
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			x.ev(e.X, st, fr, func(st *State, s *Term) {
				x.ev(e.Index, st, fr, func(st *State, i *Term) {
					x.oblige(st, "safety", []string{"panic"}, "string index in range", x.pos(e), mkAnd(mkLe(tZero, i), mkLt(i, mk("slen", SInt, s))))
					r := mk("sbyte", SInt, s, i)
					st.assume(mkAnd(mkLe(tZero, r), mkLt(r, mkInt(256))))
					k(st, r)
				})
			})
			return
		}
		x.unsup(e, "index of %s", bt)
	default:
		x.unsup(e, "index of %s", bt)
	}
}

func (x *exec) constMap(e ast.Expr) (*ast.CompositeLit, bool) {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil, false
	}
	o := x.objOf(id)
	if !x.v.p.consts[o] {
		return nil, false
	}
	cl, ok := x.v.p.varInit[o].(*ast.CompositeLit)
	return cl, ok
}

func (x *exec) mapCommaOk(e *ast.IndexExpr, st *State, fr *frame, k vskont) {
	mt, ok := x.typeOf(e.X).Underlying().(*types.Map)
	if !ok {
		x.unsup(e, "comma-ok index")
	}
	if cl, ok := x.constMap(e.X); ok {
		// a constant table: the result is decided by its literal
		x.ev(e.Index, st, fr, func(st *State, i *Term) {
			has := tFalse
			val := x.v.zero(mt.Elem())
			for _, el := range cl.Elts {
				kv := el.(*ast.KeyValueExpr)
				tv := x.info().Types[kv.Key]
				if tv.Value == nil {
					x.unsup(kv, "non-constant key")
				}
				c := mkEq(i, x.v.constTerm(tv.Value, tv.Type))
				has = mkOr(has, c)
				if vv := x.info().Types[kv.Value]; vv.Value != nil {
					val = mkIte(c, x.v.constTerm(vv.Value, vv.Type), val)
				} else if !vv.IsNil() {
					val = mkIte(c, fresh("elem", x.v.p.sortOf(mt.Elem())), val)
				}
			}
			k(st, []*Term{val, has})
		})
		return
	}
	x.ev(e.X, st, fr, func(st *State, m *Term) {
		x.ev(e.Index, st, fr, func(st *State, i *Term) {
			dom, vc := x.v.mapComps(mt)
			has := mkSelect(mkSelect(x.heapOf(st, dom), m), i)
			if m != tZero && !st.locals[m.id] {
				st.assume(mkImp(mkEq(m, tZero), mkNot(has)))
			}
			v := mkSelect(mkSelect(x.heapOf(st, vc), m), i)
			st.assume(mkImp(has, x.v.typeFact(v, mt.Elem(), st.alloc)))
			// the value array is kept at zero for absent keys (newMap, delete), so that it is what m[i] reads
			st.assume(mkImp(mkNot(has), mkEq(v, x.v.zero(mt.Elem()))))
			x.typed(st, v, mt.Elem())
			k(st, []*Term{v, has})
		})
	})
}

func (x *exec) composite(cl *ast.CompositeLit, st *State, fr *frame, k vkont) {
	t := x.typeOf(cl)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		// element of a slice of pointers with elided type: &T{...}
		x.structLit(cl, u.Elem(), st, fr, k)
	case *types.Struct:
		x.structLit(cl, t, st, fr, k)
	case *types.Slice:
		srt := x.v.p.sortOf(t)
		x.evs(cl.Elts, st, fr, func(st *State, vs []*Term) {
			s := seqEmpty(srt)
			for _, v := range vs {
				s = seqBuild(s, v)
			}
			k(st, s)
		})
	case *types.Map:
		var ks, vs []ast.Expr
		for _, el := range cl.Elts {
			kv := el.(*ast.KeyValueExpr)
			ks = append(ks, kv.Key)
			vs = append(vs, kv.Value)
		}
		x.evs(ks, st, fr, func(st *State, kt []*Term) {
			x.evs(vs, st, fr, func(st *State, vt []*Term) {
				m := x.newMap(st, u)
				for i := range kt {
					x.mapStore(st, u, m, kt[i], vt[i], x.pos(cl))
				}
				k(st, m)
			})
		})
	default:
		x.unsup(cl, "composite literal of %s", t)
	}
}

func (x *exec) newMap(st *State, mt *types.Map) *Term {
	m := x.allocRef(st, 0)
	dom, vc := x.v.mapComps(mt)
	ds := x.v.comps[dom]
	st.heap[dom] = mkStore(x.heapOf(st, dom), m, mk("constarr:false", ds))
	vals := fresh("novals", x.v.comps[vc])
	kv := freshVar(x.v.p.sortOf(mt.Key()))
	st.assume(mkForall([]*Term{kv}, [][]*Term{{mkSelect(vals, kv)}}, mkEq(mkSelect(vals, kv), x.v.zero(mt.Elem()))))
	st.heap[vc] = mkStore(x.heapOf(st, vc), m, vals)
	return m
}

func (x *exec) structLit(cl *ast.CompositeLit, t types.Type, st *State, fr *frame, k vkont) {
	n, s := structOf(t)
	if n == nil {
		x.unsup(cl, "anonymous struct")
	}
	var fields []string
	var exprs []ast.Expr
	for i, el := range cl.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			fields = append(fields, kv.Key.(*ast.Ident).Name)
			exprs = append(exprs, kv.Value)
		} else {
			fields = append(fields, s.Field(i).Name())
			exprs = append(exprs, el)
		}
	}
	// nested struct literals are flattened
	for i, f := range fields {
		_ = i
		_ = f
	}
	var fl []string
	var fe []ast.Expr
	for i, f := range fields {
		if ncl, ok := ast.Unparen(exprs[i]).(*ast.CompositeLit); ok {
			if nn, ns := structOf(x.typeOf(ncl)); nn != nil && ns != nil && !isPtr(x.typeOf(ncl)) && ns.NumFields() > 0 {
				for j, el := range ncl.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						fl = append(fl, nn.Obj().Name()+"."+kv.Key.(*ast.Ident).Name)
						fe = append(fe, kv.Value)
					} else {
						fl = append(fl, nn.Obj().Name()+"."+ns.Field(j).Name())
						fe = append(fe, el)
					}
				}
				continue
			}
		}
		comp, _, ok := x.v.p.resolveField(t, f)
		if !ok {
			x.unsup(cl, "field %s", f)
		}
		fl = append(fl, comp)
		fe = append(fe, exprs[i])
	}
	x.evs(fe, st, fr, func(st *State, vs []*Term) {
		r := x.allocRef(st, x.v.p.tags[n.Obj().Name()])
		set := map[string]*Term{}
		for i, c := range fl {
			set[c] = vs[i]
		}
		for _, f := range x.v.p.flatFields(n) {
			x.v.compSort(f.comp, f.typ)
			val, ok := set[f.comp]
			if !ok {
				val = x.v.zero(f.typ)
			}
			if isSeq(x.v.comps[f.comp]) && val == tZero {
				val = x.v.zero(f.typ)
			}
			st.heap[f.comp] = mkStore(x.heapOf(st, f.comp), r, val)
		}
		k(st, r)
	})
}

// strTerm: string([]rune) and friends
func strOf(s *Term) *Term   { return mk("strOf", SStr, s) }
func runesOf(s *Term) *Term {
	if s.Op == "strOf" {
		// []rune(string(r)) is r for valid code points; kept symbolic otherwise
	}
	if isStrLit(s) {
		r := seqEmpty(SSI)
		for _, c := range strLitOf[s.id] {
			r = seqBuild(r, mkInt(int64(c)))
		}
		return r
	}
	return mk("runesOf", SSI, s)
}

func (x *exec) convert(e *ast.CallExpr, to types.Type, st *State, fr *frame, k vkont) {
	from := x.typeOf(e.Args[0])
	x.ev(e.Args[0], st, fr, func(st *State, v *Term) {
		fs, ts := v.Sort, x.v.p.sortOf(to)
		switch {
		case fs == ts:
			if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if fb, ok := from.Underlying().(*types.Basic); ok {
					x.intConv(e, st, v, fb, b)
				}
			}
			k(st, v)
		case fs == SSI && ts == SStr:
			k(st, strOf(v))
		case fs == SStr && ts == SSI:
			k(st, runesOf(v))
		case fs == SInt && ts == SStr:
			k(st, strOf(seqBuild(seqEmpty(SSI), v)))
		default:
			x.unsup(e, "conversion from %s to %s", from, to)
		}
	})
}

func (x *exec) intConv(e ast.Node, st *State, v *Term, from, to *types.Basic) {
	if to.Info()&types.IsUnsigned != 0 && from.Info()&types.IsUnsigned == 0 {
		x.oblige(st, "safety", []string{"conv"}, "conversion to unsigned keeps the value", x.pos(e), mkLe(tZero, v))
	}
	if to.Kind() == types.Uint8 && from.Kind() != types.Uint8 {
		x.oblige(st, "safety", []string{"conv"}, "conversion to byte keeps the value", x.pos(e), mkAnd(mkLe(tZero, v), mkLt(v, mkInt(256))))
	}
}

var _ = constant.MakeInt64
var _ = fmt.Sprint
