package main

// Ownership of slices. Contracts treat a slice as a value, so that writing an element of one cannot be seen by another.
// What that leaves open is decided here: a slice of the grammar, of a rule or of the text (a borrowed slice) is not
// written through, not appended to and not handed to a function that reorders it. A variable or a parameter is borrowed
// if a borrowed slice may get into it, whatever the path; a field is, if a borrowed slice may get into that field of any
// object, except that for an object the function at hand has made only what this function puts there counts.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
)

type owner struct {
	share     bool // look for slices that share their tail instead, see sharing
	p         *Program
	vars      map[types.Object]bool // borrowed variables and parameters
	returns   map[*types.Func]bool  // functions that may return a borrowed slice
	fields    map[types.Object]bool // fields that may hold a borrowed slice
	taint     map[types.Object]bool // those where it may have been put there from anywhere
	st        ownState              // what is borrowed at the point at hand
	stuck     map[types.Object]bool // variables a function literal uses: borrowed once, borrowed for ever
	sink      func(token.Pos, string, ...interface{})
	brk, cont []*ownState // what the loops and switches around are left with
	ret       *types.Func
	fn        *ast.FuncDecl
	shown     map[types.Object]bool // variables of made objects that others may get at while the function runs
	made      map[types.Object]bool // variables that hold an object made in the function, and no other
	prot      map[string]bool       // types whose slices are lent
	changed   bool
}

type ownFault struct {
	pos  token.Pos
	what string
}

func (p *Program) ownership(share bool) map[*types.Func][]ownFault {
	o := &owner{share: share, p: p, vars: map[types.Object]bool{}, fields: map[types.Object]bool{}, taint: map[types.Object]bool{}, stuck: map[types.Object]bool{}, shown: map[types.Object]bool{}, made: map[types.Object]bool{}, returns: map[*types.Func]bool{}, prot: map[string]bool{"Grammar": true, "RuleRecord": true, "ruleBase": true, "CharstreamString": true}}
	sc := p.pkg.Scope()
	if share {
		o.prot = map[string]bool{}
	}
	if ir, ok := sc.Lookup("IRule").(*types.TypeName); ok && !share {
		if it, ok := ir.Type().Underlying().(*types.Interface); ok {
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					if types.Implements(types.NewPointer(tn.Type()), it) {
						o.prot[n] = true
					}
				}
			}
		}
	}
	for n := range o.prot {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if o.holds(st.Field(i).Type()) {
						o.fields[st.Field(i)] = true
					}
				}
			}
		}
	}
	for _, d := range p.decls {
		o.findMade(d)
	}
	for o.changed = true; o.changed; {
		o.changed = false
		for f, d := range p.decls {
			o.walk(f, d)
		}
	}
	out := map[*types.Func][]ownFault{}
	for f, d := range p.decls {
		seen := map[ownFault]bool{}
		o.sink = func(p token.Pos, s string, a ...interface{}) {
			if b := (ownFault{p, fmt.Sprintf(s, a...)}); !seen[b] {
				seen[b] = true
				out[f] = append(out[f], b)
			}
		}
		o.walk(f, d)
		o.sink = nil
	}
	return out
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (o *owner) named(t types.Type) string {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// borrowed: e may be a slice that belongs to the grammar or to the text.
func (o *owner) borrowed(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return o.borrowed(e.X)
	case *ast.Ident:
		x := o.p.info.ObjectOf(e)
		if o.stuck[x] {
			return o.vars[x]
		}
		return o.st.get(x, nil)
	case *ast.SelectorExpr:
		s := o.p.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal || !o.holds(s.Obj().Type()) {
			return false
		}
		if id, ok := e.X.(*ast.Ident); ok && len(s.Index()) == 1 {
			if x := o.p.info.ObjectOf(id); o.made[x] && (!o.taint[s.Obj()] || !o.shown[x]) {
				return o.stuck[x] && o.fields[s.Obj()] || o.st.get(x, s.Obj())
			}
		}
		return o.fields[s.Obj()]
	case *ast.IndexExpr: // of a slice of slices
		return o.holds(o.p.info.TypeOf(e)) && o.borrowed(e.X)
	case *ast.SliceExpr:
		if o.share && isSlice(o.p.info.TypeOf(e.X)) && !e.Slice3 && e.High != nil {
			return true
		}
		return isSlice(o.p.info.TypeOf(e.X)) && o.borrowed(e.X)
	case *ast.CompositeLit:
		if !o.holds(o.p.info.TypeOf(e)) {
			return false
		}
		for _, v := range e.Elts {
			if kv, ok := v.(*ast.KeyValueExpr); ok {
				v = kv.Value
			}
			if o.borrowed(v) {
				return true
			}
		}
	case *ast.TypeAssertExpr:
		return o.borrowed(e.X)
	case *ast.CallExpr:
		if tv := o.p.info.Types[e.Fun]; tv.IsType() {
			return len(e.Args) == 1 && isSlice(o.p.info.TypeOf(e.Args[0])) && o.borrowed(e.Args[0])
		}
		if o.builtin(e) == "append" {
			return !o.share && o.borrowed(e.Args[0])
		}
		for _, f := range o.callees(e) {
			if o.returns[f] {
				return true
			}
		}
	}
	return false
}

// holds: a slice, or an array, map or slice of them.
func (o *owner) holds(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Map:
		return o.holds(u.Elem())
	case *types.Array:
		return o.holds(u.Elem())
	}
	return false
}

func (o *owner) builtin(e *ast.CallExpr) string {
	f := e.Fun
	if p, ok := f.(*ast.ParenExpr); ok {
		f = p.X
	}
	if id, ok := f.(*ast.Ident); ok {
		if b, ok := o.p.info.ObjectOf(id).(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (o *owner) callee(e *ast.CallExpr) *types.Func {
	switch f := e.Fun.(type) {
	case *ast.Ident:
		g, _ := o.p.info.ObjectOf(f).(*types.Func)
		return g
	case *ast.SelectorExpr:
		g, _ := o.p.info.ObjectOf(f.Sel).(*types.Func)
		return g
	}
	return nil
}

// callees: the functions of the package a call may reach; those of every type for a method of an interface.
func (o *owner) callees(e *ast.CallExpr) []*types.Func {
	g := o.callee(e)
	if g == nil {
		return nil
	}
	if _, ok := o.p.decls[g]; ok {
		return []*types.Func{g}
	}
	sig := g.Type().(*types.Signature)
	if sig.Recv() == nil || !types.IsInterface(sig.Recv().Type()) {
		return nil
	}
	var out []*types.Func
	for f := range o.p.decls {
		if f.Name() == g.Name() && f.Type().(*types.Signature).Recv() != nil {
			out = append(out, f)
		}
	}
	return out
}

func (o *owner) mark(x types.Object) {
	if x != nil && !o.vars[x] {
		o.vars[x] = true
		o.changed = true
	}
}

// put: a slice gets into l, a borrowed one or not.
func (o *owner) put(l ast.Expr, b bool) {
	switch l := l.(type) {
	case *ast.ParenExpr:
		o.put(l.X, b)
	case *ast.IndexExpr:
		if b {
			o.put(l.X, b)
		}
	case *ast.StarExpr:
		if b {
			o.put(l.X, b)
		}
	case *ast.Ident:
		x := o.p.info.ObjectOf(l)
		if l.Name == "_" || x == nil {
			return
		}
		if o.made[x] && !o.holds(x.Type()) { // another object from here on
			o.st.forget(x)
			return
		}
		if !o.holds(x.Type()) {
			return
		}
		if o.stuck[x] || x.Parent() == o.p.pkg.Scope() {
			o.stuck[x] = true
			if b {
				o.mark(x)
			}
			return
		}
		o.st.set(x, nil, b)
	case *ast.SelectorExpr:
		s := o.p.info.Selections[l]
		if s == nil || s.Kind() != types.FieldVal || !o.holds(s.Obj().Type()) {
			return
		}
		if b {
			o.markField(s.Obj())
		}
		if id, ok := l.X.(*ast.Ident); ok && len(s.Index()) == 1 {
			if x := o.p.info.ObjectOf(id); o.made[x] {
				o.st.set(x, s.Obj(), b)
				return
			}
		}
		if b && !o.taint[s.Obj()] {
			o.taint[s.Obj()], o.changed = true, true
		}
	}
}

func (o *owner) markField(f types.Object) {
	if !o.fields[f] {
		o.fields[f], o.changed = true, true
	}
}

// lit gives the composite literal e makes an object with; ok also for new(T).
func (o *owner) lit(e ast.Expr) (c *ast.CompositeLit, ok bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return o.lit(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			return o.lit(e.X)
		}
	case *ast.CompositeLit:
		return e, true
	case *ast.CallExpr:
		return nil, o.builtin(e) == "new"
	}
	return nil, false
}

// findMade finds the variables of a function all of whose values are objects made there.
func (o *owner) findMade(d *ast.FuncDecl) {
	if d.Body == nil {
		return
	}
	not := map[types.Object]bool{}
	yes := map[types.Object]bool{}
	def := func(l ast.Expr, r ast.Expr) {
		id, ok := l.(*ast.Ident)
		if !ok {
			return
		}
		x := o.p.info.ObjectOf(id)
		if x == nil {
			return
		}
		if r != nil {
			if _, ok := o.lit(r); ok {
				yes[x] = true
				return
			}
		}
		not[x] = true
	}
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for i, l := range s.Lhs {
				if len(s.Lhs) == len(s.Rhs) {
					def(l, s.Rhs[i])
				} else {
					def(l, nil)
				}
			}
		case *ast.ValueSpec:
			for i, id := range s.Names {
				if i < len(s.Values) {
					def(id, s.Values[i])
				} else if len(s.Values) > 0 {
					def(id, nil)
				} else if x := o.p.info.ObjectOf(id); x != nil {
					if _, ok := x.Type().Underlying().(*types.Struct); ok {
						yes[x] = true
					}
				}
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{s.Key, s.Value} {
				if l != nil {
					def(l, nil)
				}
			}
		case *ast.TypeSwitchStmt:
			return true
		}
		return true
	})
	if d.Type.Params != nil {
		for _, f := range d.Type.Params.List {
			for _, id := range f.Names {
				not[o.p.info.ObjectOf(id)] = true
			}
		}
	}
	for x := range yes {
		if !not[x] {
			o.made[x] = true
		}
	}
	kept := map[*ast.Ident]bool{} // uses that give nobody the object before the function returns
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := s.X.(*ast.Ident); ok {
				if sel := o.p.info.Selections[s]; sel != nil && sel.Kind() == types.FieldVal {
					kept[id] = true
				}
			}
		case *ast.ReturnStmt:
			for _, r := range s.Results {
				if id, ok := r.(*ast.Ident); ok {
					kept[id] = true
				}
			}
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					kept[id] = true
				}
			}
		case *ast.Ident:
			if x := o.p.info.ObjectOf(s); o.made[x] && !kept[s] && o.p.info.Defs[s] == nil {
				o.shown[x] = true
			}
		}
		return true
	})
}

// ownState: the borrowed variables and fields of made objects; dead where control does not get.
type ownState struct {
	dead bool
	m    map[[2]types.Object]bool
}

func (s *ownState) get(x, f types.Object) bool { return s.m[[2]types.Object{x, f}] }
func (s *ownState) set(x, f types.Object, b bool) {
	if b {
		s.m[[2]types.Object{x, f}] = true
	} else {
		delete(s.m, [2]types.Object{x, f})
	}
}
func (s *ownState) forget(x types.Object) {
	for k := range s.m {
		if k[0] == x {
			delete(s.m, k)
		}
	}
}
func (s *ownState) copy() ownState {
	m := map[[2]types.Object]bool{}
	for k := range s.m {
		m[k] = true
	}
	return ownState{s.dead, m}
}

// join gives whether s has changed.
func (s *ownState) join(t ownState) bool {
	if t.dead {
		return false
	}
	if s.dead {
		*s = t.copy()
		return true
	}
	ch := false
	for k := range t.m {
		if !s.m[k] {
			s.m[k], ch = true, true
		}
	}
	return ch
}

func (o *owner) walk(fn *types.Func, d *ast.FuncDecl) {
	if d.Body == nil {
		return
	}
	ast.Inspect(d.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(l, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if x, ok := o.p.info.ObjectOf(id).(*types.Var); ok && !x.IsField() && (x.Pos() < l.Pos() || l.End() < x.Pos()) {
						if !o.stuck[x] {
							o.stuck[x], o.changed = true, true
						}
					}
				}
				return true
			})
		}
		return true
	})
	o.fn = d
	o.st = ownState{m: map[[2]types.Object]bool{}}
	o.brk, o.cont, o.ret = nil, nil, fn
	sig := fn.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		if p := sig.Params().At(i); o.vars[p] {
			o.st.set(p, nil, true)
		}
	}
	o.stmt(d.Body)
}

func (o *owner) stmts(l []ast.Stmt) {
	for _, s := range l {
		o.stmt(s)
	}
}

func (o *owner) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		if s != nil {
			o.stmts(s.List)
		}
	case *ast.LabeledStmt:
		o.stmt(s.Stmt)
	case *ast.IfStmt:
		o.stmt(s.Init)
		o.expr(s.Cond)
		b := o.st.copy()
		o.stmt(s.Body)
		a := o.st
		o.st = b
		o.stmt(s.Else)
		o.st.join(a)
	case *ast.ForStmt:
		o.stmt(s.Init)
		o.loop(func() { o.expr(s.Cond) }, s.Body, s.Post, s.Cond != nil)
	case *ast.RangeStmt:
		o.expr(s.X)
		b := o.borrowed(s.X)
		o.loop(func() {
			for _, l := range []ast.Expr{s.Key, s.Value} {
				if l != nil {
					o.write(l)
				}
			}
			if s.Value != nil && o.holds(o.p.info.TypeOf(s.Value)) {
				o.put(s.Value, b)
			}
		}, s.Body, nil, true)
	case *ast.SwitchStmt:
		o.stmt(s.Init)
		o.expr(s.Tag)
		o.cases(s.Body)
	case *ast.TypeSwitchStmt:
		o.stmt(s.Init)
		o.stmt(s.Assign)
		o.cases(s.Body)
	case *ast.SelectStmt:
		o.cases(s.Body)
	case *ast.BranchStmt:
		// a jump that names its target may go to any of those around
		switch s.Tok {
		case token.BREAK:
			for i := len(o.brk) - 1; i >= 0; i-- {
				o.brk[i].join(o.st)
				if s.Label == nil {
					break
				}
			}
		case token.CONTINUE:
			for i := len(o.cont) - 1; i >= 0; i-- {
				o.cont[i].join(o.st)
				if s.Label == nil {
					break
				}
			}
		case token.GOTO:
			o.fault(s.Pos(), "a goto, which the analysis of ownership does not follow")
		}
		o.st.dead = s.Tok != token.FALLTHROUGH
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			o.expr(r)
			if o.ret != nil && o.borrowed(r) && !o.st.dead && !o.returns[o.ret] {
				o.returns[o.ret], o.changed = true, true
			}
		}
		if o.ret != nil && len(s.Results) == 0 {
			rs := o.ret.Type().(*types.Signature).Results()
			for i := 0; i < rs.Len(); i++ {
				if x := rs.At(i); (o.st.get(x, nil) || o.stuck[x] && o.vars[x]) && !o.returns[o.ret] {
					o.returns[o.ret], o.changed = true, true
				}
			}
		}
		o.st.dead = true
	case *ast.AssignStmt:
		for _, r := range s.Rhs {
			o.expr(r)
		}
		for _, l := range s.Lhs {
			if _, ok := l.(*ast.Ident); !ok {
				o.expr(l)
			}
			o.write(l)
		}
		var bs []bool
		if o.share {
			for i, r := range s.Rhs {
				if c, ok := r.(*ast.CallExpr); ok && o.builtin(c) == "append" && len(s.Lhs) == len(s.Rhs) && types.ExprString(c.Args[0]) != types.ExprString(s.Lhs[i]) {
					switch c.Args[0].(type) {
					case *ast.Ident, *ast.SelectorExpr:
						o.put(c.Args[0], true) // its tail is in use now
					}
				}
			}
		}
		for _, r := range s.Rhs {
			bs = append(bs, o.borrowed(r))
		}
		for i, l := range s.Lhs {
			if len(s.Rhs) == len(s.Lhs) {
				o.put(l, bs[i])
				o.literal(l, s.Rhs[i])
			} else {
				o.put(l, bs[0])
			}
		}
	case *ast.DeclStmt:
		g, ok := s.Decl.(*ast.GenDecl)
		if !ok {
			return
		}
		for _, sp := range g.Specs {
			v, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for _, r := range v.Values {
				o.expr(r)
			}
			for i, id := range v.Names {
				switch {
				case len(v.Values) == len(v.Names):
					o.put(id, o.borrowed(v.Values[i]))
					o.literal(id, v.Values[i])
				case len(v.Values) > 0:
					o.put(id, o.borrowed(v.Values[0]))
				default:
					o.put(id, false)
				}
			}
		}
	case *ast.IncDecStmt:
		o.expr(s.X)
		o.write(s.X)
	case *ast.ExprStmt:
		o.expr(s.X)
	case *ast.SendStmt:
		o.expr(s.Value)
		if o.borrowed(s.Value) {
			o.fault(s.Pos(), "a borrowed slice is sent to a channel")
		}
	case *ast.DeferStmt:
		o.expr(s.Call)
	case *ast.GoStmt:
		o.expr(s.Call)
	}
}

func (o *owner) loop(head func(), body *ast.BlockStmt, post ast.Stmt, ends bool) {
	sink := o.sink
	o.sink = nil
	entry := o.st.copy()
	var exit ownState
	for again := true; ; {
		if !again {
			o.sink = sink // once more, to report
		}
		o.st = entry.copy()
		head()
		exit = ownState{dead: true}
		if ends {
			exit = o.st.copy()
		}
		b, c := &ownState{dead: true}, &ownState{dead: true}
		o.brk, o.cont = append(o.brk, b), append(o.cont, c)
		o.stmt(body)
		o.brk, o.cont = o.brk[:len(o.brk)-1], o.cont[:len(o.cont)-1]
		o.st.join(*c)
		o.stmt(post)
		exit.join(*b)
		if !again {
			break
		}
		again = entry.join(o.st)
	}
	o.st = exit
}

func (o *owner) cases(body *ast.BlockStmt) {
	entry := o.st.copy()
	out := &ownState{dead: true}
	o.brk = append(o.brk, out)
	def := false
	for _, c := range body.List {
		through := !o.st.dead
		st := o.st
		o.st = entry.copy()
		if through {
			o.st.join(st) // it may have fallen through
		}
		switch c := c.(type) {
		case *ast.CaseClause:
			def = def || c.List == nil
			for _, e := range c.List {
				o.expr(e)
			}
			o.stmts(c.Body)
		case *ast.CommClause:
			o.stmt(c.Comm)
			o.stmts(c.Body)
		}
		out.join(o.st)
	}
	o.brk = o.brk[:len(o.brk)-1]
	if !def {
		out.join(entry)
	}
	o.st = *out
}

func (o *owner) fault(p token.Pos, f string, a ...interface{}) {
	if o.sink != nil && !o.st.dead {
		o.sink(p, f, a...)
	}
}

func (o *owner) write(l ast.Expr) {
	ix, ok := l.(*ast.IndexExpr)
	if ok && o.share && isSlice(o.p.info.TypeOf(ix.X)) && !o.private(ix) {
		o.fault(l.Pos(), "an element is written of a slice that others may see")
	}
	if ok && !o.share && o.borrowed(ix.X) {
		o.fault(l.Pos(), "an element of a borrowed slice is written")
	}
}

// literal: what the composite literal r, the value of l, puts into the fields.
func (o *owner) literal(l, r ast.Expr) {
	c, ok := o.lit(r)
	id, isID := l.(*ast.Ident)
	if !ok || !isID {
		return
	}
	x := o.p.info.ObjectOf(id)
	if !o.made[x] || c == nil {
		return
	}
	o.eachField(c, func(f types.Object, v ast.Expr) {
		if o.borrowed(v) {
			o.st.set(x, f, true)
		}
	})
}

func (o *owner) eachField(c *ast.CompositeLit, do func(types.Object, ast.Expr)) {
	st, ok := o.p.info.TypeOf(c).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i, e := range c.Elts {
		var f types.Object
		v := e
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			v = kv.Value
			f = o.p.info.ObjectOf(kv.Key.(*ast.Ident))
		} else if i < st.NumFields() {
			f = st.Field(i)
		}
		if f != nil && o.holds(f.Type()) {
			do(f, v)
		}
	}
}

// expr: what evaluating e does to slices.
func (o *owner) expr(e ast.Expr) {
	if e == nil || o.st.dead {
		return
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncLit:
			st, brk, cont, ret := o.st, o.brk, o.cont, o.ret
			o.st = st.copy()
			o.brk, o.cont, o.ret = nil, nil, nil
			o.stmt(s.Body)
			o.st, o.brk, o.cont, o.ret = st, brk, cont, ret
			return false
		case *ast.UnaryExpr:
			ix, ok := s.X.(*ast.IndexExpr)
			if s.Op == token.AND && !o.share && (o.borrowed(s.X) || ok && o.borrowed(ix.X)) {
				o.fault(s.Pos(), "the address of a borrowed slice or of an element of it is taken")
			}
		case *ast.CompositeLit:
			o.eachField(s, func(f types.Object, v ast.Expr) {
				if o.borrowed(v) {
					o.markField(f)
				}
			})
		case *ast.CallExpr:
			switch o.builtin(s) {
			case "append":
				if o.borrowed(s.Args[0]) {
					if o.share {
						o.fault(s.Pos(), "a slice is appended to whose tail may be in use by another")
					} else {
						o.fault(s.Pos(), "a borrowed slice is appended to")
					}
				}
			case "copy", "clear":
				if o.share {
					o.fault(s.Pos(), "a slice is written by a builtin")
				} else if o.borrowed(s.Args[0]) {
					o.fault(s.Pos(), "a borrowed slice is written")
				}
			}
			if f := o.callee(s); f != nil && f.Pkg() != nil && !o.share {
				switch f.Pkg().Path() {
				case "sort", "slices", "math/rand":
					for _, a := range s.Args {
						if o.borrowed(a) {
							o.fault(s.Pos(), "a borrowed slice is handed to %s", f.FullName())
						}
					}
				}
			}
			for _, f := range o.callees(s) {
				ps := f.Type().(*types.Signature).Params()
				for i, a := range s.Args {
					if !o.borrowed(a) {
						continue
					}
					j := i
					if j >= ps.Len() {
						j = ps.Len() - 1
					}
					if j >= 0 && o.holds(ps.At(j).Type()) {
						o.mark(ps.At(j))
					}
				}
			}
		}
		return true
	})
}

// private: the slice whose element is written is in a variable of the function, made there, and nobody else has it yet.
func (o *owner) private(ix *ast.IndexExpr) bool {
	if sel, ok := ix.X.(*ast.SelectorExpr); ok {
		s := o.p.info.Selections[sel]
		return s != nil && s.Kind() == types.FieldVal && o.ownField(s.Obj(), ix)
	}
	id, ok := ix.X.(*ast.Ident)
	if !ok {
		return false
	}
	x := o.p.info.ObjectOf(id)
	if x == nil || o.stuck[x] || x.Pos() < o.fn.Body.Pos() || o.fn.Body.End() < x.Pos() {
		return false
	}
	good := true
	kept := map[*ast.Ident]bool{}
	keep := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok {
			kept[id] = true
		}
	}
	var loops []ast.Node
	ast.Inspect(o.fn.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.ForStmt:
			loops = append(loops, s)
		case *ast.RangeStmt:
			loops = append(loops, s)
			keep(s.X)
			if b, ok := s.X.(*ast.Ident); ok && s.Value != nil && o.p.info.ObjectOf(b) == x && s.Pos() <= ix.Pos() && ix.End() <= s.End() {
				k, ok := s.Key.(*ast.Ident)
				i, ok2 := ix.Index.(*ast.Ident)
				good = good && ok && ok2 && o.p.info.ObjectOf(k) == o.p.info.ObjectOf(i)
			}
		case *ast.IndexExpr:
			keep(s.X)
		case *ast.ReturnStmt:
			for _, r := range s.Results {
				keep(r)
			}
		case *ast.CallExpr:
			switch b := o.builtin(s); {
			case b == "len" || b == "cap":
				keep(s.Args[0])
			case b == "append" && s.Ellipsis.IsValid():
				keep(s.Args[1])
			case o.p.info.Types[s.Fun].IsType() && !isSlice(o.p.info.TypeOf(s)):
				keep(s.Args[0])
			}
		case *ast.AssignStmt:
			for i, l := range s.Lhs {
				if b, ok := l.(*ast.Ident); !ok || o.p.info.ObjectOf(b) != x {
					continue
				}
				keep(l)
				if len(s.Lhs) != len(s.Rhs) || !o.newSlice(s.Rhs[i], x) {
					good = false
				} else if c, ok := s.Rhs[i].(*ast.CallExpr); ok && o.builtin(c) == "append" {
					keep(c.Args[0])
				}
			}
		case *ast.ValueSpec:
			for i, b := range s.Names {
				if o.p.info.ObjectOf(b) == x {
					kept[b] = true
					good = good && (len(s.Values) == 0 || len(s.Values) == len(s.Names) && o.newSlice(s.Values[i], x))
				}
			}
		}
		return true
	})
	ast.Inspect(o.fn.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || kept[id] || o.p.info.ObjectOf(id) != x {
			return true
		}
		if id.Pos() < ix.Pos() {
			good = false
		}
		for _, l := range loops { // given away, and written in the next round
			if l.Pos() <= ix.Pos() && ix.End() <= l.End() && l.Pos() <= id.Pos() && id.End() <= l.End() && (x.Pos() < l.Pos() || l.End() < x.Pos()) {
				good = false
			}
		}
		return true
	})
	return good
}

// ownField: no function gives away what it finds in the field, or puts there what others may have.
func (o *owner) ownField(f types.Object, ix *ast.IndexExpr) bool {
	good := true
	is := func(e ast.Expr) bool {
		sel, ok := e.(*ast.SelectorExpr)
		return ok && o.p.info.ObjectOf(sel.Sel) == f
	}
	for _, d := range o.p.decls {
		if d.Body == nil {
			continue
		}
		kept := map[ast.Expr]bool{}
		ast.Inspect(d.Body, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.IndexExpr:
				kept[s.X] = true
			case *ast.RangeStmt:
				kept[s.X] = true
				if is(s.X) && s.Value != nil && s.Pos() <= ix.Pos() && ix.End() <= s.End() {
					good = false
				}
			case *ast.CallExpr:
				switch b := o.builtin(s); {
				case b == "len" || b == "cap":
					kept[s.Args[0]] = true
				case b == "append" && s.Ellipsis.IsValid():
					kept[s.Args[1]] = true
				}
			case *ast.AssignStmt:
				for i, l := range s.Lhs {
					if !is(l) {
						continue
					}
					kept[l] = true
					if len(s.Lhs) != len(s.Rhs) {
						good = false
						continue
					}
					if c, ok := s.Rhs[i].(*ast.CallExpr); ok && o.builtin(c) == "append" && types.ExprString(c.Args[0]) == types.ExprString(l) {
						kept[c.Args[0]] = true
					} else if !o.newSlice(s.Rhs[i], nil) {
						good = false
					}
				}
			case *ast.KeyValueExpr:
				if id, ok := s.Key.(*ast.Ident); ok && o.p.info.ObjectOf(id) == f && !o.newSlice(s.Value, nil) {
					good = false
				}
			case *ast.SelectorExpr:
				if is(s) && !kept[s] {
					good = false
				}
			}
			return true
		})
	}
	return good
}

// newSlice: e is a slice nobody else has; x: the variable it is for.
func (o *owner) newSlice(e ast.Expr, x types.Object) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return o.newSlice(e.X, x)
	case *ast.CompositeLit:
		return true
	case *ast.Ident:
		return e.Name == "nil"
	case *ast.CallExpr:
		if b := o.builtin(e); b == "make" {
			return true
		} else if b == "append" {
			if id, ok := e.Args[0].(*ast.Ident); ok && x != nil && o.p.info.ObjectOf(id) == x {
				return true
			}
			return o.newSlice(e.Args[0], x)
		}
		if o.p.info.Types[e.Fun].IsType() && len(e.Args) == 1 {
			if !isSlice(o.p.info.TypeOf(e.Args[0])) { // of a string, or nil
				return true
			}
			return o.newSlice(e.Args[0], x)
		}
	}
	return false
}

// owned gives the ownership obligations of a function under contract and of the helpers without contract it calls.
func (v *Verifier) owned(name string, lent bool) []*Oblig {
	if v.p.own == nil {
		v.p.own = v.p.ownership(false)
		v.p.shared = v.p.ownership(true)
	}
	fn := v.p.byName[name]
	seen := map[*types.Func]bool{}
	var out []*Oblig
	var visit func(f *types.Func)
	o := &owner{p: v.p}
	add := func(f *types.Func, d *ast.FuncDecl, tags []string, faults []ownFault, good string) {
		for _, b := range faults {
			out = append(out, &Oblig{Fn: name, Kind: "own", Tags: tags, Desc: b.what, Name: name + "/own/" + b.what, Pos: v.p.pos(b.pos), Status: "failed", Output: "decided on the syntax tree: " + b.what})
		}
		if len(faults) == 0 {
			out = append(out, &Oblig{Fn: name, Kind: "own", Tags: tags, Desc: good + f.Name(), Name: name + "/own/" + f.Name(), Pos: v.p.pos(d.Pos()), Status: "proved", By: "syntactic"})
		}
	}
	visit = func(f *types.Func) {
		d := v.p.decls[f]
		if f == nil || d == nil || seen[f] {
			return
		}
		seen[f] = true
		if lent {
			add(f, d, []string{"C21"}, v.p.own[f], "slices of the grammar and the text are only read in ")
		}
		add(f, d, nil, v.p.shared[f], "no slice that another may see is written in ")
		if d.Body != nil {
			ast.Inspect(d.Body, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if g := o.callee(c); g != nil && v.p.decls[g] != nil && v.contractFor(funcName(g)) == nil {
						visit(g)
					}
				}
				return true
			})
		}
	}
	visit(fn)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos < out[j].Pos })
	return out
}
