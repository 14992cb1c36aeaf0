package xbnf

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
)

// ------------------------------------------------------------------ reference grammars

type vkind int

const (
	kChar vkind = iota
	kChars
	kString
	kRange
	kEOF
	kGroup
	kOption
	kRep
	kCat
	kChoice
	kBlock
	kRef
)

var vkindName = map[vkind]string{kChar: "char", kChars: "chars", kString: "string", kRange: "chars", kEOF: "EOF", kGroup: "group",
	kOption: "option", kRep: "repetition", kCat: "concatenate", kChoice: "choice", kBlock: "block", kRef: "reference"}

type vrule struct {
	k             vkind
	text          []rune
	lo, hi        rune
	sub           []*vrule
	groups        [][]*vrule
	min, max      int
	open, cl, esc *vrule
	excl          []*vrule
	vclose        bool
	ref           string
	tok, nond, vi bool
	name          string
}

type vgrammar struct {
	names []string
	rules map[string]*vrule
}

func vlit(c rune, q rune) string {
	if c == q || c == '\\' {
		return "\\" + string(c)
	}
	if c < 32 || c == 0x85 || c == 0x2003 || c == 0x2028 {
		return fmt.Sprintf("\\u%04X", c)
	}
	return string(c)
}

func (x *vrule) ann() string {
	s := ""
	if x.tok {
		s += "$"
	}
	if x.nond {
		s += "#"
	}
	if x.vi {
		s += "~"
	}
	return s
}

func (x *vrule) String() string {
	a := x.ann()
	switch x.k {
	case kChar, kChars:
		s := a + "'"
		for _, c := range x.text {
			s += vlit(c, '\'')
		}
		return s + "'"
	case kString:
		s := a + "\""
		for _, c := range x.text {
			s += vlit(c, '"')
		}
		return s + "\""
	case kRange:
		f := func(c rune) string {
			if c < 33 || c > 126 || c == '\'' || c == '\\' {
				return fmt.Sprintf("\\u%04X", c)
			}
			return "'" + string(c) + "'"
		}
		return a + f(x.lo) + "-" + f(x.hi)
	case kEOF:
		return a + "EOF"
	case kGroup:
		return a + "( " + x.sub[0].String() + " )"
	case kOption:
		return a + "[ " + x.sub[0].String() + " ]"
	case kRep:
		s := a + "{ " + x.sub[0].String() + " }"
		switch {
		case x.min == 0 && x.max == 0:
			return s
		case x.min == 1 && x.max == 0:
			return s + "+"
		default:
			return s + fmt.Sprintf("<%d,%d>", x.min, x.max)
		}
	case kCat:
		var p []string
		for _, y := range x.sub {
			p = append(p, y.String())
		}
		return strings.Join(p, " ")
	case kChoice:
		s := ""
		for i, g := range x.groups {
			if i > 0 {
				s += " > "
			}
			for j, y := range g {
				if j > 0 {
					s += " | "
				}
				s += y.String()
			}
		}
		return s
	case kBlock:
		s := a + "<" + x.open.String()
		if x.esc != nil {
			s += " " + x.esc.String()
		}
		for _, e := range x.excl {
			s += " ^" + e.String()
		}
		s += " " + x.cl.String()
		if x.vclose {
			s += "!"
		}
		return s + ">"
	case kRef:
		return a + x.ref
	}
	return "?"
}

func (g *vgrammar) String() string {
	s := ""
	for _, n := range g.names {
		s += n + " = " + g.rules[n].String() + "\n"
	}
	return s
}

// ------------------------------------------------------------------ reference semantics

type vnode struct {
	typ, name             string
	chars                 []rune
	kids                  []*vnode
	sticky, vi, nond, tok bool
	first                 int // index of the first char the node accounts for; -1: none
	used                  int // chars used including skipped spaces
	at                    int
}

type vres struct {
	n      *vnode
	used   int
	sticky bool
}

type vinterp struct {
	g     *vgrammar
	t     []rune
	steps int
	blk   bool // an escape was seen
	stack map[string]bool
}

type vtoolong struct{}

func vleadWS(t []rune) []rune {
	return t[:vwsEnd(t, 0)]
}

func (in *vinterp) mk(x *vrule, p int) *vnode {
	return &vnode{typ: vkindName[x.k], name: x.name, vi: x.vi, nond: x.nond, tok: x.tok, first: -1, at: p}
}

func (in *vinterp) eval(x *vrule, p int, flag int) vres {
	in.steps++
	if in.steps > 6000 {
		panic(vtoolong{})
	}
	r := in.eval1(x, p, flag)
	if r.n != nil && x.k != kRef {
		r.n.used = r.used
		r.n.sticky = r.sticky
	}
	return r
}

func (in *vinterp) eval1(x *vrule, p int, flag int) vres {
	t := in.t
	switch x.k {
	case kChar, kRange:
		if p >= len(t) {
			return vres{nil, 0, true}
		}
		hit := func(c rune) bool {
			if x.k == kChar {
				return c == x.text[0]
			}
			return x.lo <= c && c <= x.hi
		}
		e := p
		if flag == 1 {
			e = vwsEnd(t, p)
			for i := p; i < e; i++ {
				if hit(t[i]) {
					n := in.mk(x, p)
					n.chars, n.first = []rune{t[i]}, i
					return vres{n, i + 1 - p, true}
				}
			}
		}
		if e < len(t) && hit(t[e]) {
			n := in.mk(x, p)
			n.chars, n.first = []rune{t[e]}, e
			return vres{n, e + 1 - p, true}
		}
		return vres{nil, 0, true}
	case kChars, kString:
		st := x.k == kChars
		if p >= len(t) {
			return vres{nil, 0, st}
		}
		e := p
		lit := x.text
		if flag == 1 || flag == 0 && x.k == kString {
			lead := vleadWS(lit)
			e = vwsEnd(t, p)
			if e-p < len(lead) || !veq(t[e-len(lead):e], lead) {
				return vres{nil, 0, st}
			}
			lit = lit[len(lead):]
		}
		if e+len(lit) > len(t) || !veq(t[e:e+len(lit)], lit) {
			return vres{nil, 0, st}
		}
		n := in.mk(x, p)
		n.chars = x.text
		if len(x.text) > 0 {
			n.first = e + len(lit) - len(x.text)
		}
		return vres{n, e + len(lit) - p, st}
	case kEOF:
		e := p
		if flag == 1 {
			e = vwsEnd(t, p)
		}
		if e < len(t) {
			return vres{nil, 0, true}
		}
		n := in.mk(x, p)
		n.name = "EOF"
		n.chars = []rune{-1}
		return vres{n, e - p, true}
	case kGroup:
		r := in.eval(x.sub[0], p, flag)
		if r.n == nil {
			return r
		}
		n := in.mk(x, p)
		n.kids, n.first = []*vnode{r.n}, r.n.first
		return vres{n, r.used, r.sticky}
	case kOption:
		r := in.eval(x.sub[0], p, flag)
		n := in.mk(x, p)
		if r.n != nil {
			n.kids, n.first = []*vnode{r.n}, r.n.first
			return vres{n, r.used, r.sticky}
		}
		return vres{n, 0, r.sticky}
	case kRep:
		n := in.mk(x, p)
		q := p
		sticky := true
		for {
			if q >= len(t) {
				break
			}
			r := in.eval(x.sub[0], q, flag)
			if !r.sticky {
				sticky = false
			}
			if r.n == nil {
				break
			}
			q += r.used
			n.kids = append(n.kids, r.n)
			if n.first < 0 {
				n.first = r.n.first
			}
			if x.max > 0 && len(n.kids) == x.max {
				break
			}
			if r.used == 0 && len(n.kids) >= x.min {
				break
			}
		}
		if len(n.kids) < x.min {
			return vres{nil, 0, sticky}
		}
		return vres{n, q - p, sticky}
	case kCat:
		n := in.mk(x, p)
		q := p
		sticky := true
		for _, y := range x.sub {
			r := in.eval(y, q, flag)
			if !r.sticky {
				sticky = false
			}
			if r.n == nil {
				return vres{nil, 0, sticky}
			}
			q += r.used
			if n.first < 0 {
				n.first = r.n.first
			}
			if r.n.typ != "option" || len(r.n.kids) > 0 {
				if r.sticky {
					flag = 0
				} else {
					flag = 1
				}
			}
			n.kids = append(n.kids, r.n)
		}
		return vres{n, q - p, sticky}
	case kChoice:
		sticky := true
		for _, g := range x.groups {
			var best *vres
			tie := false
			for _, y := range g {
				r := in.eval(y, p, flag)
				if !r.sticky {
					sticky = false
				}
				if r.n == nil {
					continue
				}
				if best == nil || r.used > best.used {
					best, tie = &r, false
				} else if r.used == best.used {
					tie = true
				}
			}
			if tie {
				return vres{nil, 0, false}
			}
			if best != nil {
				n := in.mk(x, p)
				n.kids, n.first = []*vnode{best.n}, best.n.first
				return vres{n, best.used, sticky}
			}
		}
		return vres{nil, 0, sticky}
	case kRef:
		y := in.g.rules[x.ref]
		if y == nil {
			return vres{nil, 0, false}
		}
		r := in.eval(y, p, flag)
		if r.n != nil {
			r.n.tok = r.n.tok != x.tok
			r.n.vi = r.n.vi != x.vi
			r.n.nond = r.n.nond != x.nond
		}
		return r
	case kBlock:
		return in.block(x, p, flag)
	}
	panic("kind")
}

func (in *vinterp) block(x *vrule, p int, flag int) vres {
	t := in.t
	o := in.eval(x.open, p, flag)
	if o.n == nil {
		return vres{nil, 0, false}
	}
	n := in.mk(x, p)
	content := &vnode{typ: "chars", sticky: true, first: -1}
	n.kids = []*vnode{o.n, content}
	q := p + o.used
	c0 := q
	for {
		in.steps++
		if in.steps > 6000 {
			panic(vtoolong{})
		}
		var esc []rune
		if x.esc != nil {
			r := in.eval(x.esc, q, 3)
			if r.n != nil && r.used > 0 {
				esc = t[q : q+r.used]
				q += r.used
				in.blk = true
			}
		}
		if len(x.excl) > 0 {
			best, tie := vres{}, false
			for _, y := range x.excl {
				r := in.eval(y, q, 3)
				if r.n == nil {
					continue
				}
				if best.n == nil || r.used > best.used {
					best, tie = r, false
				} else if r.used == best.used {
					tie = true
				}
			}
			if tie {
				return vres{nil, 0, false}
			}
			if best.n != nil {
				if esc == nil {
					return vres{nil, 0, false}
				}
				content.chars = append(content.chars, t[q:q+best.used]...)
				q += best.used
				continue
			}
		}
		r := in.eval(x.cl, q, 3)
		if r.n != nil {
			if esc != nil {
				content.chars = append(content.chars, t[q:q+r.used]...)
				q += r.used
				continue
			}
			if c0 < len(t) {
				content.first = c0
			}
			n.first = o.n.first
			if n.first < 0 {
				n.first = content.first
			}
			if !x.vclose {
				n.kids = append(n.kids, r.n)
				q += r.used
			}
			return vres{n, q - p, false}
		}
		content.chars = append(content.chars, esc...)
		if q >= len(t) {
			return vres{nil, 0, false}
		}
		content.chars = append(content.chars, esc...)
		content.chars = append(content.chars, t[q])
		q++
	}
}

// ------------------------------------------------------------------ comparing

type vcmp struct {
	t      []rune
	text   bool // chars and shape
	pos    bool
	names  bool
	sticky bool
}

func (c vcmp) diff(n *Node, m *vnode, path string) string {
	if (n == nil) != (m == nil) {
		return fmt.Sprintf("%s: node present %v, expected %v", path, n != nil, m != nil)
	}
	if n == nil {
		return ""
	}
	path = path + "/" + m.typ + ":" + m.name
	if c.text {
		if len(n.ChildNodes) != len(m.kids) {
			return fmt.Sprintf("%s: %d children, expected %d", path, len(n.ChildNodes), len(m.kids))
		}
		if !veq(n.Chars, m.chars) {
			return fmt.Sprintf("%s: chars %s, expected %s", path, vq(n.Chars), vq(m.chars))
		}
	}
	if c.names {
		if string(n.RuleType) != m.typ || n.RuleName != m.name {
			return fmt.Sprintf("%s: node is %q of type %s", path, n.RuleName, n.RuleType)
		}
		if n.Virtual != m.vi || n.NonData != m.nond || n.Tokenized != m.tok {
			return fmt.Sprintf("%s: virtual/nondata/tokenized %v %v %v, expected %v %v %v", path, n.Virtual, n.NonData, n.Tokenized, m.vi, m.nond, m.tok)
		}
	}
	if c.sticky && m.typ != "block" && n.Sticky != m.sticky {
		return fmt.Sprintf("%s: sticky %v, expected %v", path, n.Sticky, m.sticky)
	}
	if c.pos {
		if m.first < 0 && n.Position != nil {
			return fmt.Sprintf("%s: position %s, expected none", path, n.Position.String())
		}
		if m.first >= 0 && !vposOK(n.Position, c.t, m.first) {
			l, k := vlinecol(c.t, m.first)
			return fmt.Sprintf("%s: position %s, expected L%d:%d", path, n.Position.String(), l, k)
		}
	}
	if len(n.ChildNodes) == len(m.kids) {
		for i := range m.kids {
			if d := c.diff(n.ChildNodes[i], m.kids[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	}
	return ""
}

func vtree(n *Node) string {
	if n == nil {
		return "<nil>"
	}
	f := ""
	if n.Sticky {
		f += "+"
	}
	if n.Virtual {
		f += "~"
	}
	if n.NonData {
		f += "#"
	}
	if n.Tokenized {
		f += "$"
	}
	s := fmt.Sprintf("%s:%s%s@%s%s", n.RuleType, n.RuleName, f, n.Position.String(), vq(n.Chars))
	if len(n.ChildNodes) > 0 {
		var k []string
		for _, c := range n.ChildNodes {
			k = append(k, vtree(c))
		}
		s += "(" + strings.Join(k, " ") + ")"
	}
	return s
}

func vleaves(n *Node) []rune {
	if n == nil {
		return nil
	}
	if len(n.ChildNodes) == 0 {
		return n.Chars
	}
	var t []rune
	t = append(t, n.Chars...)
	for _, c := range n.ChildNodes {
		t = append(t, vleaves(c)...)
	}
	return t
}

// ------------------------------------------------------------------ generating grammars and texts

var vlitAlpha = []rune{'a', 'b', 'c', 'x', ' ', '\n', '"', '\\', 0xE9, 0x65E5}
var vtxtAlpha = []rune{'a', 'a', 'b', 'b', 'c', 'x', ' ', ' ', '\n', '"', '\\', 0xE9, 0x65E5, '\t', 'q'}

type vgen struct {
	r     *rand.Rand
	names []string
	undef bool
	noEsc bool
}

func (g *vgen) pick(k ...vkind) vkind { return k[g.r.Intn(len(k))] }

func (g *vgen) annot(x *vrule) *vrule {
	if g.r.Intn(4) == 0 {
		x.tok = g.r.Intn(2) == 0
		x.nond = g.r.Intn(2) == 0
		x.vi = g.r.Intn(2) == 0
	}
	return x
}

func (g *vgen) lit(n int) []rune {
	k := 1 + g.r.Intn(n)
	t := make([]rune, k)
	for i := range t {
		if g.r.Intn(3) > 0 {
			t[i] = vlitAlpha[g.r.Intn(4)]
		} else {
			t[i] = vlitAlpha[g.r.Intn(len(vlitAlpha))]
		}
	}
	return t
}

func (g *vgen) terminal() *vrule {
	r := g.r
	switch r.Intn(8) {
	case 0, 1:
		return &vrule{k: kChar, text: g.lit(1)}
	case 2, 3:
		t := g.lit(3)
		if len(t) == 1 {
			t = append(t, 'b')
		}
		return &vrule{k: kChars, text: t}
	case 4, 5:
		if r.Intn(12) == 0 {
			return &vrule{k: kString}
		}
		return &vrule{k: kString, text: g.lit(3)}
	case 6:
		p := [][2]rune{{'a', 'c'}, {'b', 'x'}, {' ', 'a'}, {9, 13}, {'a', 'a'}, {'x', 'a'}, {0, 0xFFFF}, {0x80, 0xFFFF}}[r.Intn(8)]
		return &vrule{k: kRange, lo: p[0], hi: p[1]}
	default:
		if r.Intn(3) == 0 {
			return &vrule{k: kEOF, nond: false}
		}
		return &vrule{k: kChar, text: g.lit(1)}
	}
}

// item: anything that stands as one element of a concatenation or choice
func (g *vgen) item(lvl, depth int, guarded bool) *vrule {
	r := g.r
	if depth <= 0 || r.Intn(3) == 0 {
		if r.Intn(4) == 0 {
			if x := g.ref(lvl, guarded); x != nil {
				return g.annot(x)
			}
		}
		return g.annot(g.terminal())
	}
	return g.annot(g.compound(g.pick(kGroup, kOption, kRep, kBlock), lvl, depth, guarded))
}

func (g *vgen) compound(k vkind, lvl, depth int, guarded bool) *vrule {
	r := g.r
	switch k {
	case kGroup, kOption:
		return &vrule{k: k, sub: []*vrule{g.body(lvl, depth-1, guarded)}}
	case kRep:
		x := &vrule{k: k, sub: []*vrule{g.body(lvl, depth-1, guarded)}}
		switch r.Intn(5) {
		case 0:
			x.min = 1
		case 1:
			x.min, x.max = r.Intn(3), 2+r.Intn(2)
		case 2:
			x.min = 2
		}
		return x
	case kBlock:
		x := &vrule{k: kBlock}
		part := func(first bool) *vrule {
			switch r.Intn(8) {
			case 0:
				return &vrule{k: kGroup, sub: []*vrule{g.body(lvl, depth-2, guarded && first)}}
			case 1:
				return &vrule{k: kOption, sub: []*vrule{g.body(lvl, depth-2, guarded && first)}}
			}
			return g.terminal()
		}
		x.open = part(true)
		if r.Intn(2) == 0 && !g.noEsc {
			x.esc = part(false)
		}
		for i := r.Intn(5) - 2; i > 0; i-- {
			x.excl = append(x.excl, part(false))
		}
		x.cl = part(false)
		x.vclose = r.Intn(4) == 0
		return x
	}
	panic("compound")
}

func (g *vgen) ref(lvl int, guarded bool) *vrule {
	if guarded && g.r.Intn(2) == 0 {
		return &vrule{k: kRef, ref: g.names[g.r.Intn(len(g.names))]}
	}
	if g.undef && g.r.Intn(6) == 0 {
		return &vrule{k: kRef, ref: "nowhere"}
	}
	if lvl+1 < len(g.names) {
		return &vrule{k: kRef, ref: g.names[lvl+1+g.r.Intn(len(g.names)-lvl-1)]}
	}
	return nil
}

func vconsumes(x *vrule) bool {
	return x.k == kChar || x.k == kChars || x.k == kRange || x.k == kString && len(x.text) > 0
}

func (g *vgen) cat(lvl, depth int, guarded bool) *vrule {
	x := &vrule{k: kCat}
	n := 2 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		y := g.item(lvl, depth-1, guarded)
		x.sub = append(x.sub, y)
		if vconsumes(y) {
			guarded = true
		}
	}
	return x
}

func (g *vgen) choice(lvl, depth int, guarded bool) *vrule {
	x := &vrule{k: kChoice}
	ng := 1 + g.r.Intn(2)
	for i := 0; i < ng; i++ {
		var grp []*vrule
		n := 1 + g.r.Intn(3)
		if i == 0 && ng == 1 && n == 1 {
			n = 2
		}
		for j := 0; j < n; j++ {
			grp = append(grp, g.item(lvl, depth-1, guarded))
		}
		x.groups = append(x.groups, grp)
	}
	return x
}

// body: what a whole rule, or the inside of brackets, may be
func (g *vgen) body(lvl, depth int, guarded bool) *vrule {
	if depth > 0 {
		switch g.r.Intn(4) {
		case 0:
			return g.cat(lvl, depth, guarded)
		case 1:
			return g.choice(lvl, depth, guarded)
		}
	}
	return g.item(lvl, depth, guarded)
}

func vmkGrammar(r *rand.Rand, top []vkind, undef, noEsc bool) *vgrammar {
	n := 1 + r.Intn(4)
	g := &vgen{r: r, undef: undef, noEsc: noEsc}
	for i := 0; i < n; i++ {
		g.names = append(g.names, fmt.Sprintf("%s%d", []string{"r", "Rule_", "x"}[r.Intn(3)], i))
	}
	gr := &vgrammar{rules: map[string]*vrule{}}
	depth := 1 + r.Intn(3)
	for i, nm := range g.names {
		var x *vrule
		if i == 0 && len(top) > 0 {
			k := top[r.Intn(len(top))]
			switch k {
			case kChar, kChars, kString, kRange, kEOF:
				for x == nil || x.k != k {
					x = g.terminal()
				}
			case kCat:
				x = g.cat(i, depth, false)
			case kChoice:
				x = g.choice(i, depth, false)
			case kRef:
				if x = g.ref(i, false); x == nil {
					x = g.terminal()
				}
			default:
				x = g.compound(k, i, depth, false)
			}
			if k != kCat && k != kChoice {
				g.annot(x)
			}
		} else {
			x = g.body(i, depth, false)
		}
		x.name = nm
		gr.names = append(gr.names, nm)
		gr.rules[nm] = x
	}
	// two levels of naming: a rule that is just a reference keeps the name of the rule it refers to
	for _, nm := range gr.names {
		if gr.rules[nm].k == kRef {
			gr.rules[nm].name = ""
		}
	}
	if r.Intn(3) == 0 {
		r.Shuffle(len(gr.names), func(i, j int) { gr.names[i], gr.names[j] = gr.names[j], gr.names[i] })
	}
	return gr
}

// vsentence: a text the rule is likely to match
func vsentence(g *vgrammar, r *rand.Rand, x *vrule, fuel *int) []rune {
	*fuel--
	if *fuel < 0 {
		return nil
	}
	sp := func() []rune {
		if r.Intn(4) == 0 {
			return []rune{' '}
		}
		if r.Intn(8) == 0 {
			return []rune{'\n', ' '}
		}
		return nil
	}
	switch x.k {
	case kChar, kChars, kString:
		return append(sp(), x.text...)
	case kRange:
		if x.lo > x.hi {
			return nil
		}
		for i := 0; i < 10; i++ {
			c := vtxtAlpha[r.Intn(len(vtxtAlpha))]
			if x.lo <= c && c <= x.hi {
				return append(sp(), c)
			}
		}
		return append(sp(), x.lo)
	case kEOF:
		return nil
	case kGroup:
		return vsentence(g, r, x.sub[0], fuel)
	case kOption:
		if r.Intn(2) == 0 {
			return nil
		}
		return vsentence(g, r, x.sub[0], fuel)
	case kRep:
		n := x.min + r.Intn(3)
		var t []rune
		for i := 0; i < n; i++ {
			t = append(t, vsentence(g, r, x.sub[0], fuel)...)
		}
		return t
	case kCat:
		var t []rune
		for _, y := range x.sub {
			t = append(t, vsentence(g, r, y, fuel)...)
		}
		return t
	case kChoice:
		grp := x.groups[r.Intn(len(x.groups))]
		return vsentence(g, r, grp[r.Intn(len(grp))], fuel)
	case kRef:
		if y := g.rules[x.ref]; y != nil {
			return vsentence(g, r, y, fuel)
		}
		return nil
	case kBlock:
		t := vsentence(g, r, x.open, fuel)
		for i := r.Intn(4); i > 0; i-- {
			switch k := r.Intn(6); {
			case k == 0 && x.esc != nil:
				t = append(t, vsentence(g, r, x.esc, fuel)...)
				t = append(t, vsentence(g, r, x.cl, fuel)...)
			case k == 1 && x.esc != nil && len(x.excl) > 0:
				t = append(t, vsentence(g, r, x.esc, fuel)...)
				t = append(t, vsentence(g, r, x.excl[r.Intn(len(x.excl))], fuel)...)
			case k == 2 && x.esc != nil:
				t = append(t, vsentence(g, r, x.esc, fuel)...)
			default:
				t = append(t, vtxtAlpha[r.Intn(len(vtxtAlpha))])
			}
		}
		return append(t, vsentence(g, r, x.cl, fuel)...)
	}
	return nil
}

func vmkText(g *vgrammar, r *rand.Rand, x *vrule) []rune {
	var t []rune
	if r.Intn(3) > 0 {
		fuel := 25
		t = vsentence(g, r, x, &fuel)
		if r.Intn(3) == 0 {
			f2 := 15
			t = append(t, vsentence(g, r, x, &f2)...)
		}
		for r.Intn(3) == 0 && len(t) > 0 {
			i := r.Intn(len(t))
			switch r.Intn(3) {
			case 0:
				t = append(t[:i:i], t[i+1:]...)
			case 1:
				t = append(t[:i:i], append([]rune{vtxtAlpha[r.Intn(len(vtxtAlpha))]}, t[i:]...)...)
			case 2:
				t[i] = vtxtAlpha[r.Intn(len(vtxtAlpha))]
			}
		}
	} else {
		t = vtext(r, 10, vtxtAlpha)
	}
	if len(t) > 30 {
		t = t[:30]
	}
	return append([]rune(nil), t...)
}

// vrefEval runs the reference semantics; ok is false when the case is too big
func vrefEval(g *vgrammar, x *vrule, t []rune, p, flag int) (r vres, esc bool, ok bool) {
	in := &vinterp{g: g, t: t}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(vtoolong); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	r = in.eval(x, p, flag)
	return r, in.blk, true
}

// ------------------------------------------------------------------ evaluation checks

func init() {
	term := []vkind{kChar, kChars, kString, kRange, kEOF}
	all := []vkind{kChar, kChars, kString, kRange, kEOF, kGroup, kOption, kRep, kCat, kChoice, kBlock, kRef}
	comp := []vkind{kGroup, kOption, kRep, kCat, kChoice, kBlock, kRef, kCat, kChoice, kRep}
	for p, ks := range map[string][]vkind{"C06": all, "C07": term, "C08": {kChoice}, "C09": {kRep, kOption, kRep},
		"C10": {kCat}, "C11": {kBlock}, "C13": comp, "C14": comp, "C15": all, "C17": all, "C24": all} {
		p, ks := p, ks
		vsearches[p] = func(w *vworker, r *rand.Rand) string { return vevalCase(w, r, p, ks) }
	}
	vsearches["C12"] = func(w *vworker, r *rand.Rand) string { return vrawCase(w, r, "C12") }
	vsearches["C16"] = func(w *vworker, r *rand.Rand) string { return vrawCase(w, r, "C16") }
	vsearches["C25"] = vembed
	vsearches["C21"] = vpure
}

func vload(w *vworker, g *vgrammar) *Grammar {
	gr := NewGrammar()
	for _, n := range g.names {
		if _, err := gr.ParseRule(n, g.rules[n].String()); err != nil {
			return nil
		}
	}
	gr.Validate() // an undefined reference is allowed here
	return gr
}

func vevalCase(w *vworker, r *rand.Rand, prop string, ks []vkind) string {
	undef := prop == "C15" || r.Intn(12) == 0
	g := vmkGrammar(r, ks, undef, prop == "C13")
	name := ""
	for _, n := range g.names {
		if strings.HasSuffix(n, "0") {
			name = n
		}
	}
	x := g.rules[name]
	gr := vload(w, g)
	if gr == nil || gr.GetRecord(name) == nil {
		return ""
	}
	for k := 0; k < 4; k++ {
		T := vmkText(g, r, x)
		pos := 0
		if r.Intn(3) == 0 {
			pre := vtext(r, 3, vtxtAlpha)
			pos = len(pre)
			T = append(pre, T...)
		}
		flag := []int{0, 1, 3, 1}[r.Intn(4)]
		if msg := vevalOne(w, r, prop, g, gr, name, T, pos, flag); msg != "" {
			return msg
		}
	}
	return ""
}

func vevalOne(w *vworker, r *rand.Rand, prop string, g *vgrammar, gr *Grammar, name string, T []rune, pos, flag int) string {
	x := g.rules[name]
	want, esc, ok := vrefEval(g, x, T, pos, flag)
	if !ok {
		return ""
	}
	// the stream at pos, possibly with some chars given back
	var cs ICharstream = NewCharstreamFromString(string(T))
	give := 0
	if rest := len(T) - pos; rest > 0 && r.Intn(2) == 0 {
		give = 1 + r.Intn(vmin(rest, 4))
	}
	for i := 0; i < pos+give; i++ {
		cs.Next()
	}
	if give > 0 {
		if give > 1 && r.Intn(2) == 0 {
			cs = newCharstreamPrepend(cs, append([]rune(nil), T[pos+give-1:pos+give]...))
			cs.Next()
			cs = newCharstreamPrepend(cs, append([]rune(nil), T[pos:pos+give]...))
		} else {
			cs = newCharstreamPrepend(cs, append([]rune(nil), T[pos:pos+give]...))
		}
	}
	desc := func() string {
		return fmt.Sprintf("grammar:\n%srule %s on %s at %d, leading-space mode %d, %d chars given back", g.String(), name, vq(T), pos, flag, give)
	}
	w.note(desc())
	res := gr.GetRecord(name).Rule().Eval(gr, cs, flag)
	if want.n != nil {
		w.nontriv++
	}
	got := func() string {
		return fmt.Sprintf("\nresult: node %s\n  read %s unused %s sticky %v", vtree(res.Node), vq(res.CharsRead), vq(res.CharsUnused), res.Sticky)
	}
	nr, nu := len(res.CharsRead), len(res.CharsUnused)
	switch prop {
	case "C06":
		if nu > nr || pos+nr > len(T) || !veq(res.CharsRead, T[pos:pos+nr]) {
			return desc() + got() + "\nthe chars read are not those of the text"
		}
		if !veq(res.CharsUnused, T[pos+nr-nu:pos+nr]) {
			return desc() + got() + "\nthe unused chars are not the tail of those read"
		}
		if res.Node == nil && nu != nr {
			return desc() + got() + "\nno match, but not everything read is unused"
		}
		if cs.Cursor() != pos+nr {
			return desc() + got() + fmt.Sprintf("\nthe stream is at %d, not after the chars read", cs.Cursor())
		}
		c2 := newCharstreamPrepend(cs, res.CharsUnused)
		for i := pos + nr - nu; i <= len(T); i++ {
			wc := rune(-1)
			if i < len(T) {
				wc = T[i]
			}
			if c := c2.Next(); c != wc {
				return desc() + got() + fmt.Sprintf("\nafter giving back the unused chars, index %d reads %s", i, vq([]rune{c}))
			}
		}
	case "C07", "C08", "C09", "C10", "C11":
		if (res.Node != nil) != (want.n != nil) {
			return desc() + got() + fmt.Sprintf("\nexpected a match: %v", want.n != nil)
		}
		if want.n == nil {
			return ""
		}
		if nr-nu != want.used {
			return desc() + got() + fmt.Sprintf("\nuses %d chars, expected %d", nr-nu, want.used)
		}
		if d := (vcmp{t: T, text: true}).diff(res.Node, want.n, ""); d != "" {
			return desc() + got() + "\n" + d
		}
		if prop == "C10" && res.Sticky != want.sticky {
			return desc() + got() + fmt.Sprintf("\nsticky %v, expected %v", res.Sticky, want.sticky)
		}
	case "C13":
		if res.Node != nil && !esc {
			end := vmin(len(T), pos+nr-nu)
			if end < pos {
				end = pos
			}
			if !veq(vnows(vleaves(res.Node)), vnows(T[pos:end])) {
				return desc() + got() + fmt.Sprintf("\nthe tree holds %s, the text is %s", vq(vleaves(res.Node)), vq(T[pos:end]))
			}
			if !veq(vnows(res.Node.Text()), vnows(T[pos:end])) {
				return desc() + got() + fmt.Sprintf("\nText() is %s, the text is %s", vq(res.Node.Text()), vq(T[pos:end]))
			}
		}
	case "C15":
		_ = res.StringTree(nil)
		_ = gr.Serialize(true)
		if res.Node != nil {
			res.Node.Text()
			res.Node.CountNodes()
			res.Node.CountTokens()
			res.Node.CountStickyNodes()
			res.MergeStickyNodes()
			res.Node.RemoveVirtualNodes()
			res.Node.RemoveNonDataNodes()
			res.Node.RemoveRedundantNodes()
			res.Node.Text()
		}
		if ast, err := gr.Eval(NewCharstreamFromString(string(T)), []int{-1, 0, 1, 2}[r.Intn(4)]); err == nil {
			ast.Text()
			ast.CountNodes()
			ast.StringTree(nil)
		}
		if want.n == nil && res.Node == nil && res.Error == nil && x.k == kRef && g.rules[x.ref] == nil {
			return desc() + got() + "\nno error for an undefined rule"
		}
	case "C17":
		if d := (vcmp{t: T, names: true}).diff(res.Node, want.n, ""); d != "" && res.Node != nil && want.n != nil {
			return desc() + got() + "\n" + d
		}
	case "C24":
		if res.Node != nil && want.n != nil {
			if d := (vcmp{t: T, pos: true}).diff(res.Node, want.n, ""); d != "" {
				return desc() + got() + "\n" + d
			}
		}
	}
	return ""
}

// ------------------------------------------------------------------ whole streams

func vroots(g *vgrammar) []string {
	used := map[string]bool{}
	for _, n := range g.names {
		vrefs(g.rules[n], used)
	}
	var out []string
	for _, n := range g.names {
		if !used[n] {
			out = append(out, n)
		}
	}
	return out
}

func vrefs(x *vrule, m map[string]bool) {
	if x == nil {
		return
	}
	if x.k == kRef {
		m[x.ref] = true
	}
	for _, y := range x.sub {
		vrefs(y, m)
	}
	for _, g := range x.groups {
		for _, y := range g {
			vrefs(y, m)
		}
	}
	for _, y := range x.excl {
		vrefs(y, m)
	}
	vrefs(x.open, m)
	vrefs(x.cl, m)
	vrefs(x.esc, m)
}

func vrawCase(w *vworker, r *rand.Rand, prop string) string {
	g := vmkGrammar(r, nil, false, false)
	roots := vroots(g)
	gr := vload(w, g)
	if gr == nil || len(roots) == 0 {
		return ""
	}
	for c := 0; c < 4; c++ {
		var T []rune
		for i := 1 + r.Intn(3); i > 0; i-- {
			T = append(T, vmkText(g, r, g.rules[roots[r.Intn(len(roots))]])...)
			if r.Intn(3) == 0 {
				T = append(T, ' ')
			}
		}
		if len(T) > 30 {
			T = T[:30]
		}
		// reference
		var nodes []*vnode
		fail := len(T) == 0
		flag := 1
		p := 0
		tooBig := false
		for !fail && p < len(T) {
			var best vres
			tie := false
			for _, n := range roots {
				x, _, ok := vrefEval(g, g.rules[n], T, p, flag)
				if !ok {
					tooBig = true
					break
				}
				if x.n == nil {
					continue
				}
				if best.n == nil || x.used > best.used {
					best, tie = x, false
				} else if x.used == best.used {
					tie = true
				}
			}
			if tooBig || best.n == nil || tie || best.used == 0 {
				fail = true
				break
			}
			nodes = append(nodes, best.n)
			p += best.used
			flag = 1
			if best.sticky {
				flag = 0
			}
		}
		if tooBig {
			continue
		}
		desc := fmt.Sprintf("grammar:\n%sparsing %s", g.String(), vq(T))
		w.note(desc)
		first := ""
		reps := 1
		if prop == "C16" {
			reps = 8
		}
		for k := 0; k < reps; k++ {
			lv := LevelRaw
			cs := NewCharstreamFromString(string(T))
			ast, err := gr.Eval(cs, lv)
			out := "error"
			if err == nil {
				var ss []string
				for _, n := range ast.Nodes {
					ss = append(ss, vtree(n))
				}
				out = strings.Join(ss, " ; ")
			}
			if prop == "C16" {
				if k > 0 && out != first {
					return desc + "\none run: " + first + "\nanother run: " + out
				}
				first = out
				continue
			}
			if err != nil && ast != nil {
				return desc + "\nan error and a tree: " + err.Error()
			}
			if (err != nil) != fail {
				return desc + fmt.Sprintf("\nresult: %s (%v)\nexpected failure: %v", out, err, fail)
			}
			if err != nil {
				continue
			}
			w.nontriv++
			if cs.Peek() != EOFChar {
				return desc + "\nresult: " + out + "\nthe stream is not at its end"
			}
			if len(nodes) != len(ast.Nodes) {
				return desc + "\nresult: " + out + fmt.Sprintf("\n%d top-level nodes, expected %d", len(ast.Nodes), len(nodes))
			}
			for i := range nodes {
				if d := (vcmp{t: T, text: true, names: true}).diff(ast.Nodes[i], nodes[i], ""); d != "" {
					return desc + "\nresult: " + out + "\n" + d
				}
			}
		}
		if prop == "C16" && first != "error" {
			w.nontriv++
		}
	}
	return ""
}

// ------------------------------------------------------------------ embedded evaluation

func vembed(w *vworker, r *rand.Rand) string {
	g := vmkGrammar(r, nil, false, false)
	gr := vload(w, g)
	if gr == nil {
		return ""
	}
	name := g.names[0]
	x := g.rules[name]
	for c := 0; c < 4; c++ {
		var T []rune
		for i := r.Intn(3); i >= 0; i-- {
			T = append(T, vtext(r, 3, vtxtAlpha)...)
			T = append(T, vmkText(g, r, x)...)
		}
		if len(T) > 30 {
			T = T[:30]
		}
		var want []*vnode
		var run []rune
		tooBig := false
		flush := func() {
			if len(run) > 0 {
				want = append(want, &vnode{typ: "text", name: "_", chars: run, first: -1})
				run = nil
			}
		}
		for p := 0; ; {
			m, _, ok := vrefEval(g, x, T, p, 3)
			if !ok {
				tooBig = true
				break
			}
			if m.n != nil && m.used > 0 {
				flush()
				want = append(want, m.n)
				p += m.used
				continue
			}
			if p >= len(T) {
				flush()
				break
			}
			run = append(run, T[p])
			p++
		}
		if tooBig {
			continue
		}
		desc := fmt.Sprintf("grammar:\n%sEvalEmbed(%s, %s)", g.String(), name, vq(T))
		w.note(desc)
		res := gr.EvalEmbed(name, string(T))
		if res.Error != nil || res.Node == nil {
			return desc + fmt.Sprintf("\nerror %v", res.Error)
		}
		if len(want) > 1 {
			w.nontriv++
		}
		if len(res.Node.ChildNodes) != len(want) {
			return desc + "\nresult: " + vtree(res.Node) + fmt.Sprintf("\n%d parts, expected %d", len(res.Node.ChildNodes), len(want))
		}
		for i := range want {
			if d := (vcmp{t: T, text: true, names: true}).diff(res.Node.ChildNodes[i], want[i], ""); d != "" {
				return desc + "\nresult: " + vtree(res.Node) + "\n" + d
			}
		}
		if res2 := gr.EvalEmbed("not_there", string(T)); res2.Error == nil {
			return desc + "\nno error for an unknown rule"
		}
	}
	return ""
}

// ------------------------------------------------------------------ purity

// vsnapshot: everything a grammar holds
func vsnapshot(gr *Grammar) string {
	var keys []string
	for k, rec := range gr.ruleRecords {
		keys = append(keys, fmt.Sprintf("R %s %s %d %s", k, rec.name, rec.line, vdump(rec.rule)))
	}
	for k, u := range gr.nonRoots {
		keys = append(keys, fmt.Sprintf("N %s %q", k, u))
	}
	for k := range gr.terminals {
		keys = append(keys, "T "+k)
	}
	for k := range gr.rootRules {
		keys = append(keys, "O "+k)
	}
	sort.Strings(keys)
	return strings.Join(keys, "\n")
}

// vdump shows a rule with all memory it owns, the spare capacity of its slices too.
func vdump(x IRule) string {
	if x == nil {
		return "nil"
	}
	b := fmt.Sprintf("%v%v%v:", x.IsVirtual(), x.IsNonData(), x.IsTokenized())
	switch y := x.(type) {
	case *TerminalCharRule:
		return b + y.name + fmt.Sprintf("char(%v,%v)", y.text, y.definedAsUnicode)
	case *TerminalCharsRule:
		return b + y.name + fmt.Sprintf("chars(%v)", y.text[:cap(y.text)])
	case *TerminalStringRule:
		return b + y.name + fmt.Sprintf("string(%v)", y.text[:cap(y.text)])
	case *TerminalRangeRule:
		return b + y.name + fmt.Sprintf("range(%v,%v)", y.begin, y.end)
	case *EOFRule:
		return b + "eof"
	case *ReferenceRule:
		return b + y.name + "ref(" + y.refName + ")"
	case *GroupRule:
		return b + y.name + "group(" + vdump(y.rule) + ")"
	case *OptionRule:
		return b + y.name + "option(" + vdump(y.rule) + ")"
	case *RepetitionRule:
		return b + y.name + fmt.Sprintf("rep(%s,%d,%d)", vdump(y.rule), y.min, y.max)
	case *ConcatenateRule:
		s := b + y.name + "cat("
		for _, z := range y.rules {
			s += vdump(z) + " "
		}
		return s + ")"
	case *ChoiceRule:
		s := b + y.name + "choice("
		for _, g := range y.groups {
			for _, z := range g {
				s += vdump(z) + " "
			}
			s += "> "
		}
		return s + ")"
	case *BlockRule:
		s := b + y.name + "block(" + vdump(y.open) + ","
		if y.escape != nil {
			s += vdump(y.escape)
		}
		for _, z := range y.excludes {
			s += "^" + vdump(z)
		}
		return s + "," + vdump(y.close) + fmt.Sprint(y.virtualClose) + ")"
	}
	return b + "?"
}

func vpure(w *vworker, r *rand.Rand) string {
	g := vmkGrammar(r, nil, r.Intn(4) == 0, false)
	gr := vload(w, g)
	if gr == nil {
		return ""
	}
	before := vsnapshot(gr)
	T := vmkText(g, r, g.rules[g.names[r.Intn(len(g.names))]])
	for _, n := range g.names {
		if _, _, ok := vrefEval(g, g.rules[n], T, 0, 1); !ok {
			return ""
		}
	}
	desc := fmt.Sprintf("grammar:\n%sevaluating every rule on %s", g.String(), vq(T))
	w.note(desc)
	shared := NewCharstreamFromString(string(T))
	one := func() string {
		s := ""
		for _, n := range g.names {
			for _, f := range []int{0, 1, 3} {
				cs := NewCharstreamFromString(string(T))
				res := gr.GetRecord(n).Rule().Eval(gr, cs, f)
				s += fmt.Sprint(vtree(res.Node), len(res.CharsRead), len(res.CharsUnused), res.Sticky)
				if res.Node != nil {
					res.Node.MergeStickyNodes()
					res.Node.RemoveRedundantNodes()
				}
			}
		}
		return s
	}
	first := one()
	if x := vsnapshot(gr); x != before {
		return desc + "\nthe grammar has changed; before:\n" + before + "\nafter:\n" + x
	}
	if s := one(); s != first {
		return desc + "\na second evaluation gives another result:\n" + first + "\n" + s
	}
	// the text of the stream
	res := gr.GetRecord(g.names[0]).Rule().Eval(gr, shared, 1)
	if len(res.CharsRead) <= len(T) {
		c2 := newCharstreamPrepend(shared, append([]rune(nil), T[:vmin(len(T), shared.Cursor())]...))
		for i := range T {
			if c := c2.Next(); c != T[i] {
				return desc + fmt.Sprintf("\nthe text of the stream has changed at %d", i)
			}
		}
	}
	if r.Intn(8) == 0 {
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				one()
				gr.Eval(NewCharstreamFromString(string(T)), 0)
				gr.EvalEmbed(g.names[0], string(T))
			}()
		}
		wg.Wait()
		if x := vsnapshot(gr); x != before {
			return desc + "\nthe grammar has changed; before:\n" + before + "\nafter:\n" + x
		}
	}
	w.nontriv++
	return ""
}
