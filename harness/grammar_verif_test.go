package xbnf

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

func init() {
	vsearches["C18"] = func(w *vworker, r *rand.Rand) string { return vnodeCase(w, r, "C18") }
	vsearches["C19"] = func(w *vworker, r *rand.Rand) string { return vnodeCase(w, r, "C19") }
	vsearches["C28"] = func(w *vworker, r *rand.Rand) string { return vnodeCase(w, r, "C28") }
	vsearches["C20"] = vvalidate
	vsearches["C22"] = vliteral
	vsearches["C23"] = vrepspec
	vsearches["C27"] = vloading
}

// ------------------------------------------------------------------ trees

var vtypes = []Type{TypeGroup, TypeOption, TypeBlock, TypeRepetition, TypeChoice, TypeConcatenate, TypeEmbed}

func vmkTree(r *rand.Rand, depth int) *Node {
	n := &Node{Virtual: r.Intn(4) == 0, NonData: r.Intn(4) == 0, Sticky: r.Intn(2) == 0, Tokenized: r.Intn(5) == 0}
	if r.Intn(2) == 0 {
		n.RuleName = string(rune('A' + r.Intn(4)))
	}
	if r.Intn(3) == 0 {
		n.Position = &Position{Line: 1 + r.Intn(3), Col: 1 + r.Intn(9)}
	}
	if depth <= 0 || r.Intn(4) == 0 {
		n.RuleType = []Type{TypeChar, TypeChars, TypeString}[r.Intn(3)]
		n.Chars = vtext(r, 3, []rune{'a', 'b', 'c', ' ', '\n'})
		if r.Intn(10) == 0 {
			n.RuleType, n.RuleName, n.Chars, n.Sticky = TypeEOF, "EOF", []rune{EOFChar}, true
		}
		return n
	}
	n.RuleType = vtypes[r.Intn(len(vtypes))]
	for i := r.Intn(4); i > 0; i-- {
		n.ChildNodes = append(n.ChildNodes, vmkTree(r, depth-1))
	}
	return n
}

func vclone(n *Node) *Node {
	c := *n
	c.Chars = append([]rune(nil), n.Chars...)
	c.ChildNodes = nil
	for _, k := range n.ChildNodes {
		c.ChildNodes = append(c.ChildNodes, vclone(k))
	}
	return &c
}

func vclones(ns []*Node) []*Node {
	var o []*Node
	for _, n := range ns {
		o = append(o, vclone(n))
	}
	return o
}

func vcut(ns []*Node, drop func(*Node) bool) []*Node {
	var o []*Node
	for _, n := range ns {
		if drop(n) {
			continue
		}
		c := *n
		c.ChildNodes = vcut(n.ChildNodes, drop)
		o = append(o, &c)
	}
	return o
}

func vtrees(ns []*Node) string {
	var o []string
	for _, n := range ns {
		o = append(o, vtree(n))
	}
	return strings.Join(o, " ; ")
}

func vtextOf(ns []*Node) []rune {
	var t []rune
	for _, n := range ns {
		t = append(t, vleaves(n)...)
	}
	return t
}

// vmerged: the reference for merging sticky siblings
func vmerged(ns []*Node) []*Node {
	var o []*Node
	open := false // the last of o is sticky and may still be merged with
	for _, n := range ns {
		if n.Sticky {
			t := n.Text()
			if open && !o[len(o)-1].Tokenized && !n.Tokenized {
				l := o[len(o)-1]
				l.Chars = append(append([]rune(nil), l.Chars...), t...)
				continue
			}
			c := *n
			c.Chars = append([]rune(nil), t...)
			c.ChildNodes = nil
			o = append(o, &c)
			open = true
			continue
		}
		if open {
			o[len(o)-1].Sticky = false
		}
		open = false
		o = append(o, vmergedIn(n))
	}
	if open {
		o[len(o)-1].Sticky = false
	}
	return o
}

func vmergedIn(n *Node) *Node {
	c := *n
	if len(n.ChildNodes) == 0 {
		return &c
	}
	if n.RuleType == TypeBlock {
		c.ChildNodes = nil
		for _, k := range n.ChildNodes {
			m := vmergedIn(k)
			m.Sticky = false
			c.ChildNodes = append(c.ChildNodes, m)
		}
		c.Sticky = false
		return &c
	}
	c.ChildNodes = vmerged(n.ChildNodes)
	return &c
}

func vwalk(ns []*Node, f func(*Node)) {
	for _, n := range ns {
		f(n)
		vwalk(n.ChildNodes, f)
	}
}

func vnodeCase(w *vworker, r *rand.Rand, prop string) string {
	var ns []*Node
	if r.Intn(2) == 0 {
		for i := r.Intn(4); i >= 0; i-- {
			ns = append(ns, vmkTree(r, r.Intn(4)))
		}
	} else {
		g := vmkGrammar(r, nil, false, false)
		gr := vload(w, g)
		if gr == nil {
			return ""
		}
		name := g.names[0]
		T := vmkText(g, r, g.rules[name])
		if _, _, ok := vrefEval(g, g.rules[name], T, 0, 1); !ok {
			return ""
		}
		res := gr.EvalRule(name, string(T))
		if res.Node == nil {
			return ""
		}
		ns = []*Node{res.Node}
	}
	before := vclones(ns)
	desc := "tree: " + vtrees(before)
	w.note(desc)
	if len(ns) > 1 || len(ns[0].ChildNodes) > 0 {
		w.nontriv++
	}
	whole := r.Intn(2) == 0 || len(ns) > 1 // through an AST, or a single node
	switch prop {
	case "C28":
		nodes, leaves, sticky := 0, 0, 0
		vwalk(ns, func(n *Node) {
			nodes++
			if len(n.ChildNodes) == 0 {
				leaves++
			}
			if n.Sticky {
				sticky++
			}
		})
		a, b, c := 0, 0, 0
		if whole {
			t := &AST{Nodes: ns}
			a, b, c = t.CountNodes(), t.CountTokens(), t.CountStickyNodes()
		} else {
			a, b, c = ns[0].CountNodes(), ns[0].CountTokens(), ns[0].CountStickyNodes()
		}
		if a != nodes || b != leaves || c != sticky {
			return desc + fmt.Sprintf("\ncounts %d nodes %d tokens %d sticky, the tree has %d %d %d", a, b, c, nodes, leaves, sticky)
		}
		var none *Node
		var noAST *AST
		if none.CountNodes()+none.CountTokens()+none.CountStickyNodes()+noAST.CountNodes()+noAST.CountTokens()+noAST.CountStickyNodes() != 0 {
			return "an absent tree does not count zero"
		}
	case "C18":
		nond := r.Intn(2) == 0
		drop := func(n *Node) bool { return n.Virtual }
		if nond {
			drop = func(n *Node) bool { return n.NonData }
		}
		var want []*Node
		if whole {
			want = vcut(before, drop)
			t := &AST{Nodes: ns, Filename: "f"}
			if nond {
				t.RemoveNonDataNodes()
			} else {
				t.RemoveVirtualNodes()
			}
			ns = t.Nodes
		} else {
			c := *before[0]
			c.ChildNodes = vcut(c.ChildNodes, drop)
			want = []*Node{&c}
			if nond {
				ns[0].RemoveNonDataNodes()
			} else {
				ns[0].RemoveVirtualNodes()
			}
		}
		if vtrees(ns) != vtrees(want) {
			return desc + fmt.Sprintf("\nremoving nondata %v (else virtual) gives %s\nexpected %s", nond, vtrees(ns), vtrees(want))
		}
	case "C19":
		text := vnows(vtextOf(before))
		full := func() []rune {
			var t []rune
			for _, n := range ns {
				t = append(t, n.Text()...)
			}
			return t
		}
		if !veq(vnows(full()), text) {
			return desc + "\nText() is " + vq(full())
		}
		if whole {
			t := &AST{Nodes: ns}
			t.MergeStickyNodes()
			ns = t.Nodes
			if want := vmerged(before); vtrees(ns) != vtrees(want) {
				return desc + "\nmerging gives " + vtrees(ns) + "\nexpected " + vtrees(want)
			}
		} else {
			ns[0].MergeStickyNodes()
			if want := []*Node{vmergedIn(before[0])}; vtrees(ns) != vtrees(want) {
				return desc + "\nmerging gives " + vtrees(ns) + "\nexpected " + vtrees(want)
			}
		}
		if !veq(vnows(vtextOf(ns)), text) || !veq(vnows(full()), text) {
			return desc + "\nafter merging the text is " + vq(vtextOf(ns))
		}
		mid := vtrees(ns)
		if whole {
			t := &AST{Nodes: ns}
			t.RemoveRedundantNodes()
			ns = t.Nodes
		} else {
			ns[0].RemoveRedundantNodes()
		}
		if !veq(vnows(vtextOf(ns)), text) || !veq(vnows(full()), text) {
			return desc + "\nmerged: " + mid + "\nafter removing redundant nodes: " + vtrees(ns)
		}
		// without merging
		ns = vclones(before)
		for _, n := range ns {
			n.RemoveRedundantNodes()
		}
		if !veq(vnows(vtextOf(ns)), text) || !veq(vnows(full()), text) {
			return desc + "\nafter removing redundant nodes: " + vtrees(ns)
		}
	}
	return ""
}

// ------------------------------------------------------------------ validation

func vvalidate(w *vworker, r *rand.Rand) string {
	g := vmkGrammar(r, nil, r.Intn(2) == 0, false)
	gr := NewGrammar()
	var log []string
	desc := func() string { return "rules added in order:\n  " + strings.Join(log, "\n  ") }
	refs := map[string]map[string]bool{}
	check := func() string {
		err := gr.Validate()
		log = append(log, "Validate()")
		undef := false
		used := map[string]bool{}
		for _, m := range refs {
			for k := range m {
				used[k] = true
				if refs[k] == nil {
					undef = true
				}
			}
		}
		if (err != nil) != undef {
			return desc() + fmt.Sprintf("\nValidate: %v, undefined references: %v", err, undef)
		}
		if err != nil {
			return ""
		}
		for n := range refs {
			if (gr.rootRules[n] != nil) == used[n] {
				return desc() + fmt.Sprintf("\nrule %s root: %v", n, gr.rootRules[n] != nil)
			}
			if (gr.terminals[n] != nil) != (len(refs[n]) == 0) {
				return desc() + fmt.Sprintf("\nrule %s terminal: %v", n, gr.terminals[n] != nil)
			}
			if rec := gr.rootRules[n]; rec != nil && rec != gr.GetRecord(n) {
				return desc() + "\nanother record among the roots for " + n
			}
		}
		if len(gr.rootRules) > len(refs) || len(gr.terminals) > len(refs) {
			return desc() + "\nunknown roots or terminals"
		}
		for n := range gr.rootRules {
			if refs[n] == nil {
				return desc() + "\nunknown root " + n
			}
		}
		for n := range gr.terminals {
			if refs[n] == nil {
				return desc() + "\nunknown terminal " + n
			}
		}
		w.nontriv++
		return ""
	}
	for _, n := range g.names {
		if r.Intn(2) == 0 {
			// a rule to be rejected
			before := vsnapshot(gr)
			nm, body := "", ""
			switch r.Intn(6) {
			case 0:
				nm, body = []string{"", "1a", "a-b", "_x", "a b", "é"}[r.Intn(6)], g.rules[n].String()
			case 1:
				for k := range refs {
					if nm == "" || k < nm {
						nm = k
					}
				}
				if nm == "" {
					continue
				}
				body = g.rules[n].String() + " zz"
			case 2:
				nm, body = n, g.rules[n].String()+" "+[]string{")", "]", "}", "'", "\"a", "( 'a'", "[ b", "{ 'a' }<2,1>", "?", "\\u00", "<'a'", "~|"}[r.Intn(12)]
			case 3:
				nm, body = n, "gone1 gone2 ( "+g.names[0]
			case 4:
				nm, body = n, ""
			case 5:
				nm, body = n, "'a' | gone3 > [ 'b' | ]"
			}
			w.note(desc() + "\n  then " + nm + " = " + body)
			x, err := gr.ParseRule(nm, body)
			log = append(log, fmt.Sprintf("%s = %s   (%v)", nm, body, err))
			if err == nil {
				return desc() + "\nthe rule is not rejected"
			}
			_ = x
			if after := vsnapshot(gr); after != before {
				return desc() + "\nthe rejected rule left a trace; before:\n" + before + "\nafter:\n" + after
			}
			if r.Intn(3) == 0 {
				if m := check(); m != "" {
					return m
				}
			}
		}
		body := g.rules[n].String()
		w.note(desc() + "\n  then " + n + " = " + body)
		_, err := gr.ParseRule(n, body)
		log = append(log, fmt.Sprintf("%s = %s   (%v)", n, body, err))
		if err != nil {
			return desc() + "\nthe rule is rejected"
		}
		m := map[string]bool{}
		vrefs(g.rules[n], m)
		refs[n] = m
		if r.Intn(3) == 0 {
			if m := check(); m != "" {
				return m
			}
		}
	}
	return check()
}

// ------------------------------------------------------------------ literals

func vliteral(w *vworker, r *rand.Rand) string {
	var src strings.Builder
	var want []rune
	q := []rune{'\'', '"'}[r.Intn(2)]
	kind := r.Intn(8)
	hex := func(c rune) string {
		s := fmt.Sprintf("%04X", c)
		if r.Intn(2) == 0 {
			s = strings.ToLower(s)
		}
		return s
	}
	anyChar := func() (string, rune) {
		switch r.Intn(6) {
		case 0:
			c := []rune{'a', 'Z', '0', 0xFFFF, 0, 0x65E5, rune(r.Intn(0x10000))}[r.Intn(7)]
			return "\\u" + hex(c), c
		case 1:
			c := []rune{'\'', '"', '\\', 'n', 't', 'x', 'U', 0xE9, '-', '0'}[r.Intn(10)]
			return "\\" + string(c), c
		default:
			for {
				c := []rune{'a', 'b', 'u', '\'', '"', '-', ' ', '<', '|', '=', '/', 0xE9, 0x65E5, 0x1F600, '0', 'F'}[r.Intn(16)]
				if c != q {
					return string(c), c
				}
			}
		}
	}
	bad := ""
	var body string
	switch {
	case kind < 5:
		n := r.Intn(6)
		if q == '\'' && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			s, c := anyChar()
			src.WriteString(s)
			want = append(want, c)
		}
		body = string(q) + src.String() + string(q)
		switch r.Intn(6) {
		case 0:
			bad = "unterminated"
			body = string(q) + src.String()
			if strings.HasSuffix(body, " ") {
				return "" // trimmed; still unterminated, but keep it simple
			}
		case 1:
			bad = "malformed escape"
			k := r.Intn(4)
			h := "12aF"[:k] + []string{"g", "'", "-", "é", "G", "/", ":", "@", "`"}[r.Intn(9)]
			body = string(q) + src.String() + "\\u" + h
			if r.Intn(2) == 0 {
				body += "0000"
			}
			body += string(q)
		}
	case kind == 5: // a bare escape
		c := rune(r.Intn(0x10000))
		body, want, q = "\\u"+hex(c), []rune{c}, '\''
		if r.Intn(4) == 0 {
			bad = "malformed escape"
			body = []string{"\\u12", "\\u", "\\x41", "\\uD80", "\\u12G4", "\\"}[r.Intn(6)]
		}
	default: // ranges
		lo, hi := rune(r.Intn(0x300)), rune(r.Intn(0x10000))
		end := func(c rune) (string, rune) {
			switch r.Intn(4) {
			case 0:
				return "\\u" + hex(c), c
			case 1:
				return "'\\u" + hex(c) + "'", c
			case 2:
				c = []rune{'\'', '\\', 'n', 'x', '-', 0xE9}[r.Intn(6)]
				return "'\\" + string(c) + "'", c
			default:
				c = []rune{'a', 'z', 'Z', '0', '-', '"', 0xE9, 0x65E5}[r.Intn(8)]
				return "'" + string(c) + "'", c
			}
		}
		a, lo2 := end(lo)
		b, hi2 := end(hi)
		body = a + "-" + b
		if r.Intn(4) == 0 {
			bad = "malformed range"
			body = a + "-" + []string{"", "b", "\"b\"", "'b", "'", "'bc'", "\\u12", "'\\", "\\b"}[r.Intn(9)]
		}
		desc := fmt.Sprintf("rule text %s", vq([]rune(body)))
		w.note(desc)
		x, err := NewGrammar().ParseRule("r", body)
		if bad != "" {
			if err == nil {
				return desc + ": " + bad + " accepted as " + vdump(x)
			}
			w.nontriv++
			return ""
		}
		if err != nil {
			return desc + ": " + err.Error()
		}
		y, ok := x.(*TerminalRangeRule)
		if !ok || y.begin != lo2 || y.end != hi2 {
			return desc + ": loaded as " + vdump(x) + fmt.Sprintf(", expected %d to %d", lo2, hi2)
		}
		w.nontriv++
		return ""
	}
	desc := fmt.Sprintf("rule text %s", vq([]rune(body)))
	w.note(desc)
	x, err := NewGrammar().ParseRule("r", body)
	if bad != "" {
		if err == nil {
			return desc + ": " + bad + " accepted as " + vdump(x)
		}
		w.nontriv++
		return ""
	}
	if err != nil {
		return desc + ": " + err.Error()
	}
	var got []rune
	switch y := x.(type) {
	case *TerminalCharRule:
		got = []rune{y.text}
		if q == '"' {
			return desc + ": a string became a char"
		}
	case *TerminalCharsRule:
		got = y.text
		if q == '"' {
			return desc + ": a string became chars"
		}
	case *TerminalStringRule:
		got = y.text
		if q == '\'' {
			return desc + ": chars became a string"
		}
	default:
		return desc + ": loaded as " + vdump(x)
	}
	if !veq(got, want) {
		return desc + ": loaded as " + vq(got) + ", expected " + vq(want)
	}
	w.nontriv++
	return ""
}

// ------------------------------------------------------------------ repetition specifications

func vrepspec(w *vworker, r *rand.Rand) string {
	num := func() (string, uint64, bool) {
		switch r.Intn(8) {
		case 0:
			return "", 0, true
		case 1:
			v := []string{"4294967295", "4294967296", "99999999999", "0", "00", "007", "4294967294"}[r.Intn(7)]
			n, err := strconv.ParseUint(v, 10, 32)
			return v, n, err == nil
		default:
			n := uint64(r.Intn(30))
			return fmt.Sprint(n), n, true
		}
	}
	sp := func() string { return []string{"", "", " ", "\t", "  ", "\n", " \n\t"}[r.Intn(7)] }
	spec := ""
	min, max := uint64(0), uint64(0)
	ok := true
	switch r.Intn(8) {
	case 0:
	case 1:
		spec = "*"
	case 2:
		spec, min = "+", 1
	case 3:
		a, m, o := num()
		spec, min, ok = "<"+sp()+a+sp()+">", m, o
	case 4:
		spec = "<" + []string{"a", "-1", "1.5", "1,2,3", "1;2", "", "x,2", "2,y", "1", "1,"}[r.Intn(10)]
		if r.Intn(3) > 0 && spec != "<" && spec != "<1" && spec != "<1," {
			spec += ">"
		}
		ok = false
	default:
		a, m, o := num()
		b, n, o2 := num()
		spec = "<" + sp() + a + sp() + "," + sp() + b + sp() + ">"
		min, max, ok = m, n, o && o2 && (n == 0 || n >= m)
	}
	body := "{ 'a' }" + spec
	desc := "rule text " + vq([]rune(body))
	w.note(desc)
	x, err := NewGrammar().ParseRule("r", body)
	w.nontriv++
	if !ok {
		if err == nil {
			return desc + " accepted as " + vdump(x)
		}
		return ""
	}
	if err != nil {
		return desc + ": " + err.Error()
	}
	y, is := x.(*RepetitionRule)
	if !is || uint64(y.min) != min || uint64(y.max) != max {
		return desc + ": loaded as " + vdump(x) + fmt.Sprintf(", expected %d to %d", min, max)
	}
	return ""
}

// ------------------------------------------------------------------ loading

func vwell(x IRule) string {
	bad := func(s string) string { return fmt.Sprintf("%T without %s", x, s) }
	sub := func(z IRule, s string) string {
		if z == nil {
			return bad(s)
		}
		return vwell(z)
	}
	switch y := x.(type) {
	case nil:
		return "missing rule"
	case *GroupRule:
		return sub(y.rule, "rule")
	case *OptionRule:
		return sub(y.rule, "rule")
	case *RepetitionRule:
		if y.max != 0 && y.max < y.min {
			return bad("sensible bounds")
		}
		return sub(y.rule, "rule")
	case *ConcatenateRule:
		if len(y.rules) < 2 {
			return bad("two rules")
		}
		for _, z := range y.rules {
			if s := sub(z, "rule"); s != "" {
				return s
			}
		}
	case *ChoiceRule:
		n := 0
		for _, g := range y.groups {
			if len(g) == 0 {
				return bad("alternatives in a group")
			}
			for _, z := range g {
				n++
				if s := sub(z, "rule"); s != "" {
					return s
				}
			}
		}
		if n < 2 {
			return bad("two alternatives")
		}
	case *BlockRule:
		if s := sub(y.open, "open"); s != "" {
			return s
		}
		if s := sub(y.close, "close"); s != "" {
			return s
		}
		if y.escape != nil {
			if s := vwell(y.escape); s != "" {
				return s
			}
		}
		for _, z := range y.excludes {
			if s := sub(z, "exclude"); s != "" {
				return s
			}
		}
	case *TerminalCharsRule:
		if len(y.text) < 2 {
			return bad("two chars")
		}
	}
	return ""
}

func vnameOK(s string) bool {
	for i, c := range []byte(s) {
		l := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if i == 0 && !l || !l && c != '_' && !(c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

func vloading(w *vworker, r *rand.Rand) string {
	if r.Intn(4) == 0 {
		// names
		n := 1 + r.Intn(4)
		nm := ""
		for i := 0; i < n; i++ {
			nm += []string{"a", "Z", "z", "A", "_", "0", "9", "-", "é", "[", "`", "{", "@", "/", ":", "b", "日", "\x80", ".", "a"}[r.Intn(20)]
		}
		if r.Intn(30) == 0 {
			nm = ""
		}
		w.note("rule named " + strconv.Quote(nm))
		gr := NewGrammar()
		_, err := gr.ParseRule(nm, "'x'")
		if (err == nil) != vnameOK(nm) {
			return fmt.Sprintf("rule named %q: %v", nm, err)
		}
		if err == nil {
			rec := gr.GetRecord(nm)
			if rec == nil || rec.Rule() == nil || rec.Rule().Name() != nm {
				return fmt.Sprintf("rule named %q is not registered under its name", nm)
			}
			if _, err := gr.ParseRule(nm, "'y'"); err == nil {
				return fmt.Sprintf("rule %q may be defined twice", nm)
			}
		}
		w.nontriv++
		return ""
	}
	var text string
	if r.Intn(3) > 0 {
		g := vmkGrammar(r, nil, r.Intn(4) == 0, false)
		t := []rune(g.String())
		for k := r.Intn(4); k > 0 && len(t) > 0; k-- {
			i := r.Intn(len(t))
			switch r.Intn(4) {
			case 0:
				t = append(t[:i:i], t[i+1:]...)
			case 1:
				j := i + r.Intn(vmin(6, len(t)-i)+1)
				t = append(t[:i:i], t[j:]...)
			default:
				c := []rune("'\"\\|><{}[]()!^~$#-+*,=/ \nabu01_é\tEOF")
				t = append(t[:i:i], append([]rune{c[r.Intn(len(c))]}, t[i:]...)...)
			}
		}
		text = string(t)
	} else {
		c := []rune("r = 'a' \"b\" \\u0041 | > < { } [ ] ( ) ! ^ ~ $ # - + * , = // \n\nr2 EOF _é\t\r")
		t := make([]rune, r.Intn(30))
		for i := range t {
			t[i] = c[r.Intn(len(c))]
		}
		text = "r = " + string(t)
	}
	w.note("grammar text " + vq([]rune(text)))
	gr, err := NewGrammarFromString(text)
	if err != nil {
		if gr != nil {
			return w.text + "\nan error and a grammar"
		}
		return ""
	}
	w.nontriv++
	var names []string
	for n := range gr.ruleRecords {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		rec := gr.GetRecord(n)
		if rec == nil || !vnameOK(n) {
			return w.text + "\nrule registered under " + strconv.Quote(n)
		}
		x := rec.Rule()
		if s := vwell(x); s != "" {
			return w.text + "\nrule " + n + ": " + s
		}
		if x.Name() != n {
			if _, is := x.(*EOFRule); !is {
				return w.text + "\nrule " + n + " is named " + x.Name()
			}
		}
		_ = x.String()
		_ = x.StringWithIndent(" ")
		_ = x.desc()
	}
	_ = gr.Serialize(true)
	return ""
}
