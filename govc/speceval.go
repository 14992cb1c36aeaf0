package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// SV is a specification value: a term and, where known, its Go type.
type SV struct {
	t  *Term
	gt types.Type
}

// SpecCtx is the state a specification expression is evaluated in.
type SpecCtx struct {
	v     *Verifier
	heap  func(comp string) *Term
	alloc *Term
	old   *SpecCtx
	env   map[string]SV
	local func(name string) (SV, bool)
}

type specError struct{ msg string }

func sfail(e *SE, f string, a ...interface{}) {
	panic(specError{e.Pos + ": " + fmt.Sprintf(f, a...)})
}

func (c *SpecCtx) with(name string, v SV) *SpecCtx {
	n := *c
	n.env = map[string]SV{}
	for k, x := range c.env {
		n.env[k] = x
	}
	n.env[name] = v
	if c.old != nil && c.old != c {
		n.old = c.old.with(name, v)
	} else if c.old == c {
		n.old = &n
	}
	return &n
}

func (c *SpecCtx) Bool(e *SE) *Term {
	r := c.Eval(e)
	if r.t.Sort != SBool {
		sfail(e, "expected a boolean, got %s", r.t.Sort)
	}
	return r.t
}

func (v *Verifier) specSort(ty string) (string, types.Type) {
	switch ty {
	case "int", "rune":
		return SInt, nil
	case "ref":
		return SInt, nil
	case "bool":
		return SBool, nil
	case "str", "string":
		return SStr, nil
	case "SI", "SQ", "SS":
		return ty, nil
	case "RN":
		return arrOf(SInt, SInt), nil
	case "RB":
		return arrOf(SInt, SBool), nil
	case "RS":
		return arrOf(SInt, SSI), nil
	case "VM":
		return arrOf(SStr, SInt), nil
	case "VS":
		return arrOf(SStr, SBool), nil
	}
	if strings.HasPrefix(ty, "*") {
		o := v.p.pkg.Scope().Lookup(ty[1:])
		if o == nil {
			panic(specError{"unknown Go type " + ty})
		}
		return SInt, types.NewPointer(o.Type())
	}
	if strings.HasPrefix(ty, "[]") {
		s, gt := v.specSort(ty[2:])
		if gt == nil {
			panic(specError{"bad type " + ty})
		}
		_ = s
		t := types.NewSlice(gt)
		return v.p.sortOf(t), t
	}
	o := v.p.pkg.Scope().Lookup(ty)
	if o == nil {
		panic(specError{"unknown Go type " + ty})
	}
	return v.p.sortOf(o.Type()), o.Type()
}

func (c *SpecCtx) Eval(e *SE) SV {
	switch e.K {
	case "int":
		return SV{mkInt(e.N), nil}
	case "str":
		return SV{mkStr(e.S), nil}
	case "id":
		return c.ident(e)
	case "un":
		a := c.Eval(e.A[0])
		if e.S == "!" {
			return SV{mkNot(a.t), nil}
		}
		return SV{mkMulC(-1, a.t), nil}
	case "bin":
		return c.bin(e)
	case "if":
		cond := c.Bool(e.A[0])
		a, b := c.Eval(e.A[1]), c.Eval(e.A[2])
		gt := a.gt
		if gt == nil {
			gt = b.gt
		}
		return SV{mkIte(cond, a.t, b.t), gt}
	case "let":
		v := c.Eval(e.A[0])
		return c.with(e.S, v).Eval(e.A[1])
	case "quant":
		n := c
		var vars []*Term
		for _, q := range e.Vars {
			s, gt := c.v.specSort(q.Type)
			x := freshVar(s)
			vars = append(vars, x)
			n = n.with(q.Name, SV{x, gt})
		}
		body := n.Bool(e.A[0])
		var pats [][]*Term
		for _, p := range e.Pats {
			var pt []*Term
			for _, q := range p {
				pt = append(pt, n.Eval(q).t)
			}
			pats = append(pats, pt)
		}
		return SV{mkQuant(e.S, vars, pats, body), nil}
	case "field":
		return c.field(e)
	case "index":
		a := c.Eval(e.A[0])
		i := c.Eval(e.A[1])
		if isSeq(a.t.Sort) {
			var gt types.Type
			if a.gt != nil {
				if st, ok := a.gt.Underlying().(*types.Slice); ok {
					gt = st.Elem()
				}
			}
			return SV{seqIdx(a.t, i.t), gt}
		}
		if isArr(a.t.Sort) {
			return SV{mkSelect(a.t, i.t), nil}
		}
		if a.gt != nil {
			if mt, ok := a.gt.Underlying().(*types.Map); ok {
				_, val := c.v.mapComps(mt)
				return SV{mkSelect(mkSelect(c.heap(val), a.t), i.t), mt.Elem()}
			}
		}
		sfail(e, "cannot index %s", a.t.Sort)
	case "slice":
		a := c.Eval(e.A[0])
		lo := tZero
		if e.A[1] != nil {
			lo = c.Eval(e.A[1]).t
		}
		if !isSeq(a.t.Sort) {
			sfail(e, "cannot slice %s", a.t.Sort)
		}
		hi := seqLen(a.t)
		if e.A[2] != nil {
			hi = c.Eval(e.A[2]).t
		}
		return SV{seqSlice(a.t, lo, hi), a.gt}
	case "call":
		return c.call(e)
	}
	sfail(e, "bad expression kind %s", e.K)
	return SV{}
}

func (c *SpecCtx) ident(e *SE) SV {
	switch e.S {
	case "true":
		return SV{tTrue, nil}
	case "false":
		return SV{tFalse, nil}
	case "nil":
		return SV{tZero, nil}
	case "emptyI":
		return SV{seqEmpty(SSI), nil}
	case "emptyQ":
		return SV{seqEmpty(SSQ), nil}
	case "emptyS":
		return SV{seqEmpty(SSS), nil}
	case "emptyV":
		return SV{mk("constarr:false", arrOf(SStr, SBool)), nil}
	case "alloc":
		return SV{c.alloc, nil}
	}
	if v, ok := c.env[e.S]; ok {
		return v
	}
	if c.local != nil {
		if v, ok := c.local(e.S); ok {
			return v
		}
	}
	if o := c.v.p.pkg.Scope().Lookup(e.S); o != nil {
		switch o := o.(type) {
		case *types.Const:
			return SV{c.v.constTerm(o.Val(), o.Type()), o.Type()}
		}
	}
	sfail(e, "unknown name %q", e.S)
	return SV{}
}

func (v *Verifier) constTerm(val constant.Value, t types.Type) *Term {
	switch val.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(val))
	case constant.Int:
		n, ok := constant.Int64Val(val)
		if !ok {
			panic(unsupported{"integer constant out of range"})
		}
		return mkInt(n)
	case constant.String:
		return v.strLit(constant.StringVal(val))
	}
	panic(unsupported{"constant kind"})
}

func (c *SpecCtx) bin(e *SE) SV {
	switch e.S {
	case "&&":
		return SV{mkAnd(c.Bool(e.A[0]), c.Bool(e.A[1])), nil}
	case "||":
		return SV{mkOr(c.Bool(e.A[0]), c.Bool(e.A[1])), nil}
	case "==>":
		a := c.Bool(e.A[0])
		if a == tFalse {
			return SV{tTrue, nil}
		}
		return SV{mkImp(a, c.Bool(e.A[1])), nil}
	case "<==>":
		return SV{mkEq(c.Bool(e.A[0]), c.Bool(e.A[1])), nil}
	}
	a, b := c.Eval(e.A[0]), c.Eval(e.A[1])
	switch e.S {
	case "==", "!=":
		if a.t.Sort != b.t.Sort {
			// nil on the other side of a sequence
			if isSeq(a.t.Sort) && b.t == tZero {
				b.t = seqEmpty(a.t.Sort)
			} else if isSeq(b.t.Sort) && a.t == tZero {
				a.t = seqEmpty(b.t.Sort)
			} else {
				sfail(e, "sorts differ: %s vs %s", a.t.Sort, b.t.Sort)
			}
		}
		r := mkEq(a.t, b.t)
		if e.S == "!=" {
			r = mkNot(r)
		}
		return SV{r, nil}
	case "++":
		return SV{seqApp(a.t, b.t), a.gt}
	}
	if a.t.Sort != SInt || b.t.Sort != SInt {
		sfail(e, "integers expected for %s, got %s and %s", e.S, a.t.Sort, b.t.Sort)
	}
	switch e.S {
	case "<":
		return SV{mkLt(a.t, b.t), nil}
	case "<=":
		return SV{mkLe(a.t, b.t), nil}
	case ">":
		return SV{mkLt(b.t, a.t), nil}
	case ">=":
		return SV{mkLe(b.t, a.t), nil}
	case "+":
		return SV{mkAdd(a.t, b.t), nil}
	case "-":
		return SV{mkSub(a.t, b.t), nil}
	case "*":
		return SV{mkMul(a.t, b.t), nil}
	}
	sfail(e, "bad operator %s", e.S)
	return SV{}
}

func (c *SpecCtx) field(e *SE) SV {
	a := c.Eval(e.A[0])
	if a.gt == nil {
		sfail(e, "field .%s of an untyped reference", e.S)
	}
	comp, ft, ok := c.v.p.resolveField(a.gt, e.S)
	if !ok {
		sfail(e, "type %s has no field %s", a.gt, e.S)
	}
	// nested struct value: same reference
	if n, s := structOf(ft); n != nil && s != nil && !isPtr(ft) && n.Obj().Pkg() == c.v.p.pkg {
		return SV{a.t, types.NewPointer(ft)}
	}
	c.v.compSort(comp, ft)
	return SV{mkSelect(c.heap(comp), a.t), ft}
}

func (c *SpecCtx) call(e *SE) SV {
	switch e.S {
	case "old":
		if c.old == nil {
			sfail(e, "old() not available here")
		}
		return c.old.Eval(e.A[0])
	case "len":
		a := c.Eval(e.A[0])
		if isSeq(a.t.Sort) {
			return SV{seqLen(a.t), nil}
		}
		if a.t.Sort == SStr {
			return SV{mk("slen", SInt, a.t), nil}
		}
		sfail(e, "len of %s", a.t.Sort)
	case "fresh":
		a := c.Eval(e.A[0])
		return SV{mkAnd(mkLe(c.old.alloc, a.t), mkLt(a.t, c.alloc)), nil}
	case "alloced":
		a := c.Eval(e.A[0])
		return SV{mkAnd(mkLt(tZero, a.t), mkLt(a.t, c.alloc)), nil}
	case "is":
		a := c.Eval(e.A[0])
		tag, ok := c.v.p.tags[e.A[1].S]
		if !ok {
			sfail(e, "unknown type %s", e.A[1].S)
		}
		return SV{mkEq(mk("dtype", SInt, a.t), mkInt(tag)), nil}
	case "build":
		a, b := c.Eval(e.A[0]), c.Eval(e.A[1])
		return SV{seqBuild(a.t, b.t), a.gt}
	case "upd":
		a, i, b := c.Eval(e.A[0]), c.Eval(e.A[1]), c.Eval(e.A[2])
		if isArr(a.t.Sort) {
			return SV{mkStore(a.t, i.t, b.t), nil}
		}
		return SV{seqUpd(a.t, i.t, b.t), a.gt}
	case "has", "dom", "vals", "card": // maps
		m := c.Eval(e.A[0])
		if m.gt == nil {
			sfail(e, "untyped map")
		}
		mt, ok := m.gt.Underlying().(*types.Map)
		if !ok {
			sfail(e, "not a map: %s", m.gt)
		}
		dom, val := c.v.mapComps(mt)
		switch e.S {
		case "has":
			return SV{mkSelect(mkSelect(c.heap(dom), m.t), c.Eval(e.A[1]).t), nil}
		case "dom":
			return SV{mkSelect(c.heap(dom), m.t), nil}
		case "vals":
			return SV{mkSelect(c.heap(val), m.t), nil}
		case "card":
			return SV{cardOf(mkSelect(c.heap(dom), m.t)), nil}
		}
	case "heapof": // heapof(T.f): the whole component as an array
		comp := e.A[0].S
		if e.A[0].K == "field" {
			comp = e.A[0].A[0].S + "." + e.A[0].S
			if o := c.v.p.pkg.Scope().Lookup(e.A[0].A[0].S); o != nil {
				if _, ft, ok := c.v.p.resolveField(types.NewPointer(o.Type()), e.A[0].S); ok {
					c.v.compSort(comp, ft)
				}
			}
		} else if _, ok := c.v.sp.Ghosts[comp]; ok {
			comp = "ghost." + comp
		}
		return SV{c.heap(comp), nil}
	}
	if _, ok := c.v.sp.Ghosts[e.S]; ok {
		a := c.Eval(e.A[0])
		return SV{mkSelect(c.heap("ghost."+e.S), a.t), nil}
	}
	if d, ok := c.v.sp.Defs[e.S]; ok {
		if len(d.Args) != len(e.A) {
			sfail(e, "%s expects %d arguments", e.S, len(d.Args))
		}
		env := map[string]SV{}
		oldEnv := map[string]SV{}
		for i, a := range d.Args {
			x := c.Eval(e.A[i])
			if a.Type != "" {
				s, gt := c.v.specSort(a.Type)
				if s != x.t.Sort {
					sfail(e, "argument %d of %s: sort %s, want %s", i+1, e.S, x.t.Sort, s)
				}
				if gt != nil {
					x.gt = gt
				}
			}
			env[a.Name] = x
			oldEnv[a.Name] = x
		}
		n := *c
		n.env = env
		n.local = nil
		if c.old != nil {
			o := *c.old
			o.env = oldEnv
			o.local = nil
			n.old = &o
		}
		return n.Eval(d.Body)
	}
	if f, ok := c.v.sp.Funcs[e.S]; ok {
		if len(f.Args) != len(e.A) {
			sfail(e, "%s expects %d arguments", e.S, len(f.Args))
		}
		var args []*Term
		for i, a := range e.A {
			x := c.Eval(a)
			s, _ := c.v.specSort(f.Args[i].Type)
			if s != x.t.Sort {
				sfail(e, "argument %d of %s: sort %s, want %s", i+1, e.S, x.t.Sort, s)
			}
			args = append(args, x.t)
		}
		rs, gt := c.v.specSort(f.Ret)
		return SV{mk(f.Name, rs, args...), gt}
	}
	// conversion to a Go type
	if o, ok := c.v.p.pkg.Scope().Lookup(e.S).(*types.TypeName); ok && len(e.A) == 1 {
		a := c.Eval(e.A[0])
		t := o.Type()
		if _, isS := t.Underlying().(*types.Struct); isS {
			return SV{a.t, types.NewPointer(t)}
		}
		return SV{a.t, t}
	}
	sfail(e, "unknown function %q", e.S)
	return SV{}
}

func cardOf(dom *Term) *Term { return mk("card", SInt, dom) }

func (e specError) Error() string { return e.msg }
