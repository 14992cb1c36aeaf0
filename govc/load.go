package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// Program is /repo's package, parsed and type-checked from its current source.
type Program struct {
	fset    *token.FileSet
	files   []*ast.File
	pkg     *types.Package
	info    *types.Info
	decls   map[*types.Func]*ast.FuncDecl
	byName  map[string]*types.Func // T.M or F
	embeds  map[*types.Named]bool  // struct types that are embedded or nested by value in another
	tags    map[string]int64       // dynamic type tags
	consts  map[types.Object]bool  // package-level variables that are never written
	varInit map[types.Object]ast.Expr
	globals map[types.Object]bool
	own     map[*types.Func][]ownFault // faults of slice ownership, see own.go
	shared  map[*types.Func][]ownFault
}

func loadProgram(dir string) (p *Program, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("load: %v", r)
		}
	}()
	fset := token.NewFileSet()
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), FakeImportC: true}
	pkg, err := conf.Check(bp.ImportPath, fset, files, info)
	if err != nil {
		return nil, err
	}
	typeNils(files, info)
	p = &Program{fset: fset, files: files, pkg: pkg, info: info, decls: map[*types.Func]*ast.FuncDecl{}, byName: map[string]*types.Func{},
		embeds: map[*types.Named]bool{}, tags: map[string]int64{}, consts: map[types.Object]bool{}, varInit: map[types.Object]ast.Expr{}, globals: map[types.Object]bool{}}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			fn := info.Defs[fd.Name].(*types.Func)
			p.decls[fn] = fd
			n := funcName(fn)
			if n != "init" {
				p.byName[n] = fn
			}
		}
	}
	var tn []string
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		switch o := o.(type) {
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok {
				if st, ok := nm.Underlying().(*types.Struct); ok {
					tn = append(tn, n)
					for i := 0; i < st.NumFields(); i++ {
						if em, ok := st.Field(i).Type().(*types.Named); ok {
							if _, ok := em.Underlying().(*types.Struct); ok && em.Obj().Pkg() == pkg {
								p.embeds[em] = true
							}
						}
					}
				} else {
					tn = append(tn, n)
				}
			}
		case *types.Var:
			p.globals[o] = true
		}
	}
	sort.Strings(tn)
	for i, n := range tn {
		p.tags[n] = int64(i + 1)
	}
	p.findConstVars()
	return p, nil
}

func funcName(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nm, ok := t.(*types.Named); ok {
			return nm.Obj().Name() + "." + fn.Name()
		}
		return "?." + fn.Name()
	}
	return fn.Name()
}

// findConstVars finds package-level variables that nothing writes to outside
// their initialiser and that do not escape except by being read.
func (p *Program) findConstVars() {
	written := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o := p.info.Uses[x]; o != nil {
					written[o] = true
				}
			}
			return
		}
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "append" || id.Name == "clear" || id.Name == "copy") {
					mark(x.Args[0])
				}
				// a map passed to a function may be written by it
				for _, a := range x.Args {
					if id, ok := a.(*ast.Ident); ok {
						if o := p.info.Uses[id]; o != nil && p.globals[o] {
							if fid, ok := x.Fun.(*ast.Ident); !ok || fid.Name != "len" {
								written[o] = true
							}
						}
					}
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i, id := range vs.Names {
							if i < len(vs.Values) {
								p.varInit[p.info.Defs[id]] = vs.Values[i]
							}
						}
					}
				}
			}
			return true
		})
	}
	for o := range p.globals {
		if !written[o] && p.varInit[o] != nil {
			p.consts[o] = true
		}
	}
}

func (p *Program) pos(n token.Pos) string {
	ps := p.fset.Position(n)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = deref(t)
	if n, ok := t.(*types.Named); ok {
		return n
	}
	return nil
}

func structOf(t types.Type) (*types.Named, *types.Struct) {
	n := namedOf(t)
	if n == nil {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

func isExternStruct(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

type unsupported struct{ msg string }

func (p *Program) unsup(n ast.Node, f string, a ...interface{}) {
	where := ""
	if n != nil {
		where = p.pos(n.Pos()) + ": "
	}
	panic(unsupported{where + fmt.Sprintf(f, a...)})
}

// sortOf maps a Go type to its logical sort.
func (p *Program) sortOf(t types.Type) string {
	if isExternStruct(t, "strings.Builder") {
		return SSI
	}
	if isExternStruct(t, "sync.RWMutex") || isExternStruct(t, "sync.Mutex") {
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return SInt
	case *types.Slice:
		switch p.sortOf(u.Elem()) {
		case SInt:
			return SSI
		case SSI:
			return SSQ
		case SStr:
			return SSS
		}
	case *types.Array:
		return p.sortOf(types.NewSlice(u.Elem()))
	case *types.Struct:
		if u.NumFields() == 0 {
			return SInt
		}
	}
	panic(unsupported{"type outside the verified subset: " + t.String()})
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// flatFields lists the components of struct type n: fields of nested in-package
// structs are components of the nested type, at the same reference.
type flatField struct {
	comp string
	typ  types.Type
}

func (p *Program) flatFields(n *types.Named) []flatField {
	st := n.Underlying().(*types.Struct)
	var out []flatField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if em, es := structOf(f.Type()); em != nil && es != nil && em.Obj().Pkg() == p.pkg && !isPtr(f.Type()) {
			out = append(out, p.flatFields(em)...)
			continue
		}
		out = append(out, flatField{n.Obj().Name() + "." + f.Name(), f.Type()})
	}
	return out
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// resolveField finds the component for field name of type t (through embedding).
func (p *Program) resolveField(t types.Type, name string) (comp string, ft types.Type, ok bool) {
	n, s := structOf(t)
	if s == nil {
		return "", nil, false
	}
	obj, path, _ := types.LookupFieldOrMethod(n, true, p.pkg, name)
	v, isVar := obj.(*types.Var)
	if !isVar {
		return "", nil, false
	}
	cur := n
	for i, ix := range path {
		f := cur.Underlying().(*types.Struct).Field(ix)
		if i == len(path)-1 {
			return cur.Obj().Name() + "." + f.Name(), v.Type(), true
		}
		if isPtr(f.Type()) {
			panic(unsupported{"embedded pointer"})
		}
		cur = namedOf(f.Type())
	}
	return "", nil, false
}

func (p *Program) implementers(it *types.Interface) []*types.Named {
	var out []*types.Named
	for _, n := range p.pkg.Scope().Names() {
		tn, ok := p.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nm, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := nm.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(types.NewPointer(nm), it) {
			out = append(out, nm)
		}
	}
	return out
}

func closedInterface(t types.Type, pkg *types.Package) (*types.Interface, bool) {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil, false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); !m.Exported() && m.Pkg() == pkg {
			return it, true
		}
	}
	return it, false
}

func tagList(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' })
}

func namedIn(p *Program, n string) (*types.Named, bool) {
	o := p.pkg.Scope().Lookup(n)
	if o == nil {
		return nil, false
	}
	nm, ok := o.Type().(*types.Named)
	return nm, ok
}

// typeNils records for every nil that is assigned somewhere the type it is converted to.
func typeNils(files []*ast.File, info *types.Info) {
	set := func(e ast.Expr, t types.Type) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok && id.Name == "nil" && t != nil {
			if tv, ok := info.Types[id]; ok {
				tv.Type = t
				info.Types[id] = tv
			}
		}
	}
	tyOf := func(e ast.Expr) types.Type {
		if tv, ok := info.Types[e]; ok {
			return tv.Type
		}
		if id, ok := e.(*ast.Ident); ok {
			if o := info.Defs[id]; o != nil {
				return o.Type()
			}
			if o := info.Uses[id]; o != nil {
				return o.Type()
			}
		}
		return nil
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if len(n.Lhs) == len(n.Rhs) {
					for i := range n.Lhs {
						set(n.Rhs[i], tyOf(n.Lhs[i]))
					}
				}
			case *ast.ValueSpec:
				for i := range n.Values {
					if i < len(n.Names) && n.Type != nil {
						set(n.Values[i], tyOf(n.Names[i]))
					}
				}
			case *ast.CompositeLit:
				t := info.Types[n].Type
				if t == nil {
					return true
				}
				u := t.Underlying()
				if pt, ok := u.(*types.Pointer); ok {
					u = pt.Elem().Underlying()
				}
				for i, el := range n.Elts {
					v := el
					kv, keyed := el.(*ast.KeyValueExpr)
					if keyed {
						v = kv.Value
					}
					switch u := u.(type) {
					case *types.Struct:
						if keyed {
							if id, ok := kv.Key.(*ast.Ident); ok {
								set(v, tyOf(id))
							}
						} else if i < u.NumFields() {
							set(v, u.Field(i).Type())
						}
					case *types.Map:
						set(v, u.Elem())
					case *types.Slice:
						set(v, u.Elem())
					}
				}
			}
			return true
		})
	}
}
