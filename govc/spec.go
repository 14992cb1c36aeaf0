package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- expressions

type SE struct {
	K    string // int str char id call field index slice un bin quant if let typed
	S    string // name / operator / literal
	N    int64
	A    []*SE
	Vars []SVar
	Pats [][]*SE
	Pos  string
}

type SVar struct{ Name, Type string }

type tok struct {
	k string // id int char str op eof
	s string
	n int64
}

func lex(src, pos string) []tok {
	var out []tok
	rs := []rune(src)
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "++", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "=", "?"}
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case c == '_' || unicode.IsLetter(c):
			j := i
			for j < len(rs) && (rs[j] == '_' || rs[j] == '\'' || unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j])) {
				j++
			}
			out = append(out, tok{k: "id", s: string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			var n int64
			if c == '0' && i+1 < len(rs) && rs[i+1] == 'x' {
				j = i + 2
				for j < len(rs) && strings.ContainsRune("0123456789abcdefABCDEF", rs[j]) {
					var d int64
					fmt.Sscanf(string(rs[j]), "%x", &d)
					n = n*16 + d
					j++
				}
			} else {
				for j < len(rs) && unicode.IsDigit(rs[j]) {
					n = n*10 + int64(rs[j]-'0')
					j++
				}
			}
			out = append(out, tok{k: "int", n: n})
			i = j
		case c == '\'':
			j := i + 1
			var r rune
			if rs[j] == '\\' {
				switch rs[j+1] {
				case 'n':
					r = '\n'
				case 't':
					r = '\t'
				case 'r':
					r = '\r'
				default:
					r = rs[j+1]
				}
				j += 2
			} else {
				r = rs[j]
				j++
			}
			if rs[j] != '\'' {
				panic(pos + ": bad char literal")
			}
			out = append(out, tok{k: "int", n: int64(r)})
			i = j + 1
		case c == '"':
			j := i + 1
			for rs[j] != '"' {
				j++
			}
			out = append(out, tok{k: "str", s: string(rs[i+1 : j])})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) {
					out = append(out, tok{k: "op", s: o})
					i += len([]rune(o))
					found = true
					break
				}
			}
			if !found {
				panic(fmt.Sprintf("%s: unexpected char %q in %q", pos, c, src))
			}
		}
	}
	return append(out, tok{k: "eof"})
}

type sparser struct {
	t   []tok
	i   int
	pos string
	src string
}

func (p *sparser) peek() tok { return p.t[p.i] }
func (p *sparser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *sparser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *sparser) isId(s string) bool {
	t := p.peek()
	return t.k == "id" && t.s == s
}
func (p *sparser) eat(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) want(s string) {
	if !p.eat(s) {
		p.fail("expected " + s)
	}
}
func (p *sparser) fail(m string) {
	t := p.peek()
	panic(fmt.Sprintf("%s: %s at token %d (%s %q) in: %s", p.pos, m, p.i, t.k, t.s, p.src))
}

func parseSE(src, pos string) *SE {
	p := &sparser{t: lex(src, pos), pos: pos, src: src}
	e := p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing input")
	}
	return e
}

func parseSEList(src, pos string) []*SE {
	p := &sparser{t: lex(src, pos), pos: pos, src: src}
	var out []*SE
	for {
		out = append(out, p.expr())
		if !p.eat(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		p.fail("trailing input")
	}
	return out
}

func (p *sparser) se(k, s string, a ...*SE) *SE { return &SE{K: k, S: s, A: a, Pos: p.pos} }

func (p *sparser) expr() *SE {
	if p.isId("forall") || p.isId("exists") {
		k := p.next().s
		var vars []SVar
		for {
			n := p.next().s
			ty := p.typ()
			vars = append(vars, SVar{n, ty})
			if !p.eat(",") {
				break
			}
		}
		p.want("::")
		var pats [][]*SE
		for p.isOp("{") {
			p.next()
			var pat []*SE
			for {
				pat = append(pat, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.want("}")
			pats = append(pats, pat)
		}
		b := p.expr()
		return &SE{K: "quant", S: k, Vars: vars, Pats: pats, A: []*SE{b}, Pos: p.pos}
	}
	if p.isId("let") {
		p.next()
		n := p.next().s
		p.want("=")
		e := p.expr()
		if !p.isId("in") {
			p.fail("expected in")
		}
		p.next()
		b := p.expr()
		return p.se("let", n, e, b)
	}
	if p.isId("if") {
		p.next()
		c := p.expr()
		if !p.isId("then") {
			p.fail("expected then")
		}
		p.next()
		a := p.expr()
		if !p.isId("else") {
			p.fail("expected else")
		}
		p.next()
		b := p.expr()
		return p.se("if", "", c, a, b)
	}
	return p.iff()
}

func (p *sparser) typ() string {
	s := ""
	for p.isOp("*") || p.isOp("[") || p.isOp("]") {
		s += p.next().s
	}
	s += p.next().s
	return s
}

func (p *sparser) iff() *SE {
	l := p.imp()
	for p.eat("<==>") {
		l = p.se("bin", "<==>", l, p.imp())
	}
	return l
}
func (p *sparser) imp() *SE {
	l := p.or()
	if p.eat("==>") {
		var r *SE
		if p.isId("forall") || p.isId("exists") || p.isId("let") || p.isId("if") {
			r = p.expr()
		} else {
			r = p.imp()
		}
		return p.se("bin", "==>", l, r)
	}
	return l
}
func (p *sparser) or() *SE {
	l := p.and()
	for p.eat("||") {
		l = p.se("bin", "||", l, p.and())
	}
	return l
}
func (p *sparser) and() *SE {
	l := p.cmp()
	for p.eat("&&") {
		var r *SE
		if p.isId("forall") || p.isId("exists") || p.isId("let") || p.isId("if") {
			r = p.expr()
		} else {
			r = p.cmp()
		}
		l = p.se("bin", "&&", l, r)
	}
	return l
}
func (p *sparser) cmp() *SE {
	l := p.add()
	var res *SE
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.next()
			r := p.add()
			c := p.se("bin", t.s, l, r)
			if res == nil {
				res = c
			} else {
				res = p.se("bin", "&&", res, c)
			}
			l = r
			continue
		}
		if t.k == "id" && t.s == "in" && res == nil && false {
			continue
		}
		break
	}
	if res == nil {
		return l
	}
	return res
}
func (p *sparser) add() *SE {
	l := p.mul()
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "+" || t.s == "-" || t.s == "++") {
			p.next()
			l = p.se("bin", t.s, l, p.mul())
			continue
		}
		return l
	}
}
func (p *sparser) mul() *SE {
	l := p.un()
	for {
		t := p.peek()
		if t.k == "op" && t.s == "*" {
			p.next()
			l = p.se("bin", t.s, l, p.un())
			continue
		}
		return l
	}
}
func (p *sparser) un() *SE {
	if p.eat("!") {
		return p.se("un", "!", p.un())
	}
	if p.eat("-") {
		return p.se("un", "-", p.un())
	}
	return p.post()
}
func (p *sparser) post() *SE {
	e := p.prim()
	for {
		switch {
		case p.eat("."):
			n := p.next()
			e = p.se("field", n.s, e)
		case p.eat("["):
			if p.eat(":") {
				var hi *SE
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.want("]")
				e = p.se("slice", "", e, nil, hi)
				continue
			}
			i := p.expr()
			if p.eat(":") {
				var hi *SE
				if !p.isOp("]") {
					hi = p.expr()
				}
				p.want("]")
				e = p.se("slice", "", e, i, hi)
				continue
			}
			p.want("]")
			e = p.se("index", "", e, i)
		default:
			return e
		}
	}
}
func (p *sparser) prim() *SE {
	t := p.next()
	switch t.k {
	case "int":
		return &SE{K: "int", N: t.n, Pos: p.pos}
	case "str":
		return p.se("str", t.s)
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.want(")")
			return e
		}
	case "id":
		if p.isOp("(") {
			p.next()
			var args []*SE
			if !p.isOp(")") {
				for {
					args = append(args, p.expr())
					if !p.eat(",") {
						break
					}
				}
			}
			p.want(")")
			return p.se("call", t.s, args...)
		}
		return p.se("id", t.s)
	}
	p.i--
	p.fail("unexpected token")
	return nil
}

// ---------------------------------------------------------------- items

type Clause struct {
	Tags []string
	E    *SE
	Src  string
	Pos  string
	Name string
}

type Modify struct {
	Comps []string
	Var   string // where variable
	Where *SE
	Pos   string
}

type GhostAssign struct {
	Kind  string // exit exitall init let define
	Ghost string
	Idx   *SE
	Var   string
	Val   *SE
	When  *SE
	Pos   string
	Tags  []string
}

type Decreases struct {
	Group string
	Es    []*SE
	Pos   string
}

type Contract struct {
	Name      string // T.M or F
	Params    []string
	Results   []string
	Requires  []Clause
	Ensures   []Clause
	Modifies  []Modify
	Decreases *Decreases
	Ghosts    []GhostAssign
	Lets      []GhostAssign
	Defines   []Clause
	Sem       []string // what the tag "sem" of the interface's clauses stands for here
	Hints     []Clause // facts proved at exit before the postconditions, in order
	Using     []*SE // terms the proof is about
	Implements string
	Covers    []string // further properties the function's untagged obligations belong to
	Inline    bool
	Trusted   bool
	Pure      bool
	NoRead    bool
	Pos       string
}

// wrap puts an expression of a loop into the scope of the loop's lets.
func (l *LoopSpec) wrap(e *SE) *SE {
	for i := len(l.Lets) - 1; i >= 0; i-- {
		e = &SE{K: "let", S: l.Lets[i].Var, A: []*SE{l.Lets[i].Val, e}, Pos: e.Pos}
	}
	return e
}

type LoopSpec struct {
	Lets []GhostAssign
	Ends []GhostAssign // ghost updates at the end of each iteration
	Using []*SE // terms the proof of an iteration is about
	Keep  []Clause // holds after every call listed under keepat, from the head of the loop on
	Func string
	Ord  int
	Inv  []Clause
	Dec  *Decreases
	Pos  string
}

type FuncDecl struct {
	Name string
	Args []SVar
	Ret  string
}
type DefDecl struct {
	Name string
	Args []SVar
	Body *SE
	Pos  string
}
type AxiomDecl struct {
	Name string
	E    *SE
	Pos  string
	Lemma  bool
	Induct string // variable of the induction, if any
	Using  []*SE  // terms the proof is about
}

type Spec struct {
	Funcs     map[string]*FuncDecl
	Ghosts    map[string]string
	Defs      map[string]*DefDecl
	Axioms    []*AxiomDecl
	Contracts map[string]*Contract
	Loops     map[string]*LoopSpec
	Guarded   map[string]string // component -> lock component
	Order     []string
	KeepAt    map[string]bool // calls after which the keep clauses of loops are proved
	Focus     [][]string
	Slices    [][]string // facts about these matter only to goals about these
	Bounded   map[string]string // property -> what a bounded search stands in for
}

var clauseKW = map[string]bool{"func": true, "ghost": true, "def": true, "axiom": true, "contract": true, "loop": true, "guarded": true, "bounded": true, "slice": true, "keepat": true, "focus": true, "keep": true,
	"requires": true, "ensures": true, "modifies": true, "decreases": true, "exit": true, "exitall": true, "entryall": true, "entry": true, "end": true, "endall": true, "init": true, "let": true,
	"lemma": true, "using": true, "define": true, "hint": true, "implements": true, "inline": true, "trusted": true, "inv": true, "pure": true, "covers": true, "sem": true}

type rawClause struct{ kw, tags, text, pos string }

func readRaw(file string) []rawClause {
	data, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var out []rawClause
	for ln, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		t := strings.TrimSpace(line)
		j := 0
		for j < len(t) && (t[j] >= 'a' && t[j] <= 'z') {
			j++
		}
		w := t[:j]
		rest := t[j:]
		isLet := w == "let"
		if clauseKW[w] && (rest == "" || rest[0] == ' ' || rest[0] == '[' || rest[0] == '\t') && !(isLet && strings.Contains(rest, " in ")) {
			tags := ""
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]")
				tags = rest[1:k]
				rest = rest[k+1:]
			}
			out = append(out, rawClause{w, tags, strings.TrimSpace(rest), fmt.Sprintf("%s:%d", filepath.Base(file), ln+1)})
		} else {
			if len(out) == 0 {
				panic(file + ": text before first clause")
			}
			out[len(out)-1].text += "\n" + line
		}
	}
	return out
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, strings.TrimSpace(s[last:]))
	}
	return out
}

func parseVars(s, pos string) []SVar {
	var out []SVar
	for _, p := range splitTop(s, ',') {
		f := strings.Fields(p)
		if len(f) == 1 {
			out = append(out, SVar{f[0], ""})
		} else {
			out = append(out, SVar{f[0], f[1]})
		}
	}
	return out
}

// header parses name(a T, b T) rest
func header(s, pos string) (name string, args string, rest string) {
	i := strings.Index(s, "(")
	if i < 0 {
		panic(pos + ": missing ( in " + s)
	}
	d := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			d++
		}
		if s[j] == ')' {
			d--
			if d == 0 {
				return strings.TrimSpace(s[:i]), s[i+1 : j], strings.TrimSpace(s[j+1:])
			}
		}
	}
	panic(pos + ": unbalanced header " + s)
}

func names(vs []SVar) []string {
	var out []string
	for _, v := range vs {
		out = append(out, v.Name)
	}
	return out
}

func loadSpec(dir string) *Spec {
	sp := &Spec{Funcs: map[string]*FuncDecl{}, Ghosts: map[string]string{}, Defs: map[string]*DefDecl{}, Contracts: map[string]*Contract{}, Loops: map[string]*LoopSpec{}, Guarded: map[string]string{}, Bounded: map[string]string{}, KeepAt: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		var cur *Contract
		var loop *LoopSpec
		for _, c := range readRaw(f) {
			tags := splitTop(c.tags, ',')
			cl := func() Clause {
				return Clause{Tags: tags, E: parseSE(c.text, c.pos), Src: strings.Join(strings.Fields(c.text), " "), Pos: c.pos}
			}
			switch c.kw {
			case "func":
				n, a, r := header(c.text, c.pos)
				sp.Funcs[n] = &FuncDecl{n, parseVars(a, c.pos), r}
			case "ghost":
				fs := strings.Fields(c.text)
				sp.Ghosts[fs[0]] = fs[1]
			case "def":
				n, a, r := header(c.text, c.pos)
				i := strings.Index(r, "=")
				sp.Defs[n] = &DefDecl{n, parseVars(a, c.pos), parseSE(r[i+1:], c.pos), c.pos}
			case "axiom":
				i := strings.Index(c.text, ":")
				sp.Axioms = append(sp.Axioms, &AxiomDecl{Name: strings.TrimSpace(c.text[:i]), E: parseSE(c.text[i+1:], c.pos), Pos: c.pos})
			case "lemma":
				i, d := 0, 0
				for ; i < len(c.text); i++ {
					switch c.text[i] {
					case '(', '[':
						d++
					case ')', ']':
						d--
					}
					if c.text[i] == ':' && d == 0 {
						break
					}
				}
				hd := c.text[:i]
				var using []*SE
				if j := strings.Index(hd, " using "); j >= 0 {
					using = parseSEList(hd[j+7:], c.pos)
					hd = hd[:j]
				}
				f := strings.Fields(hd)
				a := &AxiomDecl{Name: f[0], E: parseSE(c.text[i+1:], c.pos), Pos: c.pos, Lemma: true, Using: using}
				if len(f) == 3 && f[1] == "induct" {
					a.Induct = f[2]
				}
				sp.Axioms = append(sp.Axioms, a)
			case "bounded":
				j := strings.Index(c.text, ":")
				sp.Bounded[strings.TrimSpace(c.text[:j])] = strings.TrimSpace(c.text[j+1:])
			case "slice":
				sp.Slices = append(sp.Slices, splitTop(c.text, ','))
			case "guarded":
				fs := strings.Fields(c.text)
				sp.Guarded[fs[0]] = fs[2]
			case "contract":
				n, a, r := header(c.text, c.pos)
				cur = &Contract{Name: n, Params: names(parseVars(a, c.pos)), Pos: c.pos}
				if r != "" {
					_, b, _ := header("x"+r, c.pos)
					cur.Results = names(parseVars(b, c.pos))
				}
				if sp.Contracts[n] != nil {
					panic(c.pos + ": duplicate contract " + n)
				}
				sp.Contracts[n] = cur
				sp.Order = append(sp.Order, n)
				loop = nil
			case "loop":
				fs := strings.Fields(c.text)
				i := strings.LastIndex(fs[0], "#")
				loop = &LoopSpec{Func: fs[0][:i], Pos: c.pos}
				fmt.Sscan(fs[0][i+1:], &loop.Ord)
				if sp.Loops[fs[0]] != nil {
					panic(c.pos + ": duplicate loop " + fs[0])
				}
				sp.Loops[fs[0]] = loop
				cur = nil
			case "requires":
				cur.Requires = append(cur.Requires, cl())
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl())
			case "define":
				cur.Defines = append(cur.Defines, cl())
			case "hint":
				cur.Hints = append(cur.Hints, cl())
			case "using":
				us := parseSEList(c.text, c.pos)
				if cur == nil {
					for _, u := range us {
						loop.Using = append(loop.Using, loop.wrap(u))
					}
				} else {
					cur.Using = append(cur.Using, us...)
				}
			case "inv":
				k := cl()
				k.E = loop.wrap(k.E)
				loop.Inv = append(loop.Inv, k)
			case "keep":
				k := cl()
				k.E = loop.wrap(k.E)
				loop.Keep = append(loop.Keep, k)
			case "focus":
				sp.Focus = append(sp.Focus, splitTop(c.text, ','))
			case "keepat":
				for _, n := range splitTop(c.text, ',') {
					sp.KeepAt[n] = true
				}
			case "covers":
				cur.Covers = append(cur.Covers, splitTop(c.text, ',')...)
			case "sem":
				cur.Sem = append(cur.Sem, splitTop(c.text, ',')...)
			case "implements":
				cur.Implements = c.text
			case "inline":
				cur.Inline = true
			case "trusted":
				cur.Trusted = true
			case "pure":
				cur.Pure = true
			case "modifies":
				m := Modify{Pos: c.pos}
				t := c.text
				if i := strings.Index(t, " where "); i >= 0 {
					w := t[i+7:]
					t = t[:i]
					j := strings.Index(w, "::")
					m.Var = strings.TrimSpace(w[:j])
					m.Where = parseSE(w[j+2:], c.pos)
				}
				m.Comps = splitTop(strings.ReplaceAll(t, "\n", " "), ',')
				cur.Modifies = append(cur.Modifies, m)
			case "decreases":
				g := ""
				if len(tags) > 0 {
					g = tags[0]
				}
				d := &Decreases{Group: g, Es: parseSEList(c.text, c.pos), Pos: c.pos}
				if loop != nil {
					for i := range d.Es {
						d.Es[i] = loop.wrap(d.Es[i])
					}
					loop.Dec = d
				} else {
					cur.Decreases = d
				}
			case "let":
				i := strings.Index(c.text, "=")
				l := GhostAssign{Kind: "let", Var: strings.TrimSpace(c.text[:i]), Val: parseSE(c.text[i+1:], c.pos), Pos: c.pos}
				if cur == nil {
					loop.Lets = append(loop.Lets, l)
				} else {
					cur.Lets = append(cur.Lets, l)
				}
			case "exit", "init", "entry", "end":
				t := c.text
				g := GhostAssign{Kind: c.kw, Pos: c.pos, Tags: tags}
				if i := strings.Index(t, " when "); i >= 0 {
					g.When = parseSE(t[i+6:], c.pos)
					t = t[:i]
				}
				n, a, r := header(t, c.pos)
				g.Ghost = n
				g.Idx = parseSE(a, c.pos)
				r = strings.TrimPrefix(strings.TrimSpace(r), "=")
				g.Val = parseSE(r, c.pos)
				if c.kw == "end" {
					g.Kind = "exit"
					loop.Ends = append(loop.Ends, g)
				} else {
					cur.Ghosts = append(cur.Ghosts, g)
				}
			case "exitall", "entryall", "endall":
				// exitall G t :: expr
				t := c.text
				i := strings.Index(t, "::")
				fs := strings.Fields(t[:i])
				kind := c.kw
				if kind == "endall" {
					kind = "exitall"
				}
				g := GhostAssign{Kind: kind, Ghost: fs[0], Var: fs[1], Val: parseSE(t[i+2:], c.pos), Pos: c.pos, Tags: tags}
				if c.kw == "endall" {
					loop.Ends = append(loop.Ends, g)
				} else {
					cur.Ghosts = append(cur.Ghosts, g)
				}
			}
		}
	}
	return sp
}
