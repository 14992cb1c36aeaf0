package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sorts of the logic. Every Go reference (pointer, interface, map) is an Int.
const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SSI   = "SI" // sequence of Int
	SSQ   = "SQ" // sequence of SI
	SSS   = "SS" // sequence of Str
)

func arr(v string) string         { return "(Array Int " + v + ")" }
func arrOf(k, v string) string    { return "(Array " + k + " " + v + ")" }
func isArr(s string) bool         { return strings.HasPrefix(s, "(Array ") }
func arrParts(s string) (k, v string) {
	in := s[7 : len(s)-1]
	// split at top-level space
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Term is a hash-consed term.
type Term struct {
	id   int
	Op   string // function symbol, constant name, literal, or forall/exists
	Args []*Term
	Sort string
	// quantifiers
	Vars []*Term
	Pats [][]*Term
	size int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	symSort  = map[string]string{} // declared constants
)

func mk(op, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	sz := 1
	for _, a := range args {
		sz += a.size
	}
	t := &Term{id: len(termList), Op: op, Args: args, Sort: srt, size: sz}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func mkConst(name, srt string) *Term {
	if s, ok := symSort[name]; ok && s != srt {
		panic("constant " + name + " redeclared: " + s + " vs " + srt)
	}
	symSort[name] = srt
	return mk(name, srt)
}

var freshN = map[string]int{}

func fresh(prefix, srt string) *Term {
	prefix = sanitize(prefix)
	freshN[prefix]++
	return mkConst(fmt.Sprintf("%s!%d", prefix, freshN[prefix]), srt)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func mkVar(name, srt string) *Term { return mk("?"+name, srt) } // bound variable

var varN int

func freshVar(srt string) *Term { varN++; return mkVar("v"+strconv.Itoa(varN), srt) }

// canonical names bound variables after the nesting depth of their quantifier, so that formulas equal up to the
// names of bound variables are one term.
func canonical(vars []*Term, pats [][]*Term, body *Term) ([]*Term, [][]*Term, *Term) {
	mine := map[int]bool{}
	for _, v := range vars {
		mine[v.id] = true
	}
	memo := map[int]int{}
	var depth func(t *Term) int
	depth = func(t *Term) int {
		if mine[t.id] {
			return 0
		}
		if d, ok := memo[t.id]; ok {
			return d
		}
		d := cIndex(t)
		for _, a := range t.Args {
			if e := depth(a); e > d {
				d = e
			}
		}
		for _, a := range t.Vars {
			if e := cIndex(a); e > d {
				d = e
			}
		}
		for _, p := range t.Pats {
			for _, q := range p {
				if e := depth(q); e > d {
					d = e
				}
			}
		}
		memo[t.id] = d
		return d
	}
	d := depth(body)
	for _, p := range pats {
		for _, q := range p {
			if e := depth(q); e > d {
				d = e
			}
		}
	}
	m := map[int]*Term{}
	nv := make([]*Term, len(vars))
	for k, v := range vars {
		nv[k] = mkVar(fmt.Sprintf("c%d_%d_%s", d+1, k, sanitize(v.Sort)), v.Sort)
		if nv[k] != v {
			m[v.id] = nv[k]
		}
	}
	if len(m) == 0 {
		return vars, pats, body
	}
	var np [][]*Term
	for _, p := range pats {
		var q []*Term
		for _, t := range p {
			q = append(q, subst(t, m))
		}
		np = append(np, q)
	}
	return nv, np, subst(body, m)
}

func cIndex(t *Term) int {
	if len(t.Op) < 3 || t.Op[0] != '?' || t.Op[1] != 'c' {
		return 0
	}
	n := 0
	for i := 2; i < len(t.Op) && t.Op[i] >= '0' && t.Op[i] <= '9'; i++ {
		n = n*10 + int(t.Op[i]-'0')
	}
	return n
}

func mkQuant(kind string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if len(vars) == 0 {
		return body
	}
	if body == tTrue || body == tFalse {
		return body
	}
	vars, pats, body = canonical(vars, pats, body)
	var b strings.Builder
	b.WriteString(kind)
	for _, v := range vars {
		fmt.Fprintf(&b, " %d", v.id)
	}
	b.WriteString("|")
	for _, p := range pats {
		b.WriteString("{")
		for _, q := range p {
			fmt.Fprintf(&b, " %d", q.id)
		}
		b.WriteString("}")
	}
	fmt.Fprintf(&b, "|%d", body.id)
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: len(termList), Op: kind, Args: []*Term{body}, Sort: SBool, Vars: vars, Pats: pats, size: body.size + 2}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func mkForall(vars []*Term, pats [][]*Term, body *Term) *Term { return mkQuant("forall", vars, pats, body) }
func mkExists(vars []*Term, body *Term) *Term                  { return mkQuant("exists", vars, nil, body) }

var (
	tTrue  = mk("true", SBool)
	tFalse = mk("false", SBool)
	tZero  = mkInt(0)
	tOne   = mkInt(1)
)

// resetTerms forgets every term, so that what is generated for one function does
// not depend on what was generated before it.
func resetTerms() {
	termTab = map[string]*Term{}
	termList = nil
	symSort = map[string]string{}
	freshN = map[string]int{}
	varN = 0
	strLits = map[string]*Term{}
	strLitOf = map[int]string{}
	tTrue = mk("true", SBool)
	tFalse = mk("false", SBool)
	tZero = mkInt(0)
	tOne = mkInt(1)
}

func mkInt(n int64) *Term {
	return mk(strconv.FormatInt(n, 10), SInt)
}

func (t *Term) intVal() (int64, bool) {
	if t.Sort != SInt || len(t.Args) > 0 {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Op, 10, 64)
	return n, err == nil
}

func mkNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", SBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a.id] {
			return true
		}
		if a == tFalse {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == tTrue {
			return tTrue
		}
		if a == tFalse || seen[a.id] {
			continue
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].id] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func mkImp(a, b *Term) *Term {
	switch {
	case a == tTrue:
		return b
	case a == tFalse || b == tTrue || a == b:
		return tTrue
	case b == tFalse:
		return mkNot(a)
	}
	return mk("=>", SBool, a, b)
}

func isLit(t *Term) bool {
	if len(t.Args) > 0 {
		return false
	}
	if t == tTrue || t == tFalse {
		return true
	}
	_, ok := t.intVal()
	return ok
}

func mkEq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a == b {
		return tTrue
	}
	if isLit(a) && isLit(b) {
		return tFalse
	}
	if a.Sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if a.Sort == SStr && isStrLit(a) && isStrLit(b) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		return mkAnd(mkImp(c, a), mkImp(mkNot(c), b))
	}
	return mk("ite", a.Sort, c, a, b)
}

func mkLt(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return boolT(x < y)
		}
	}
	if a == b {
		return tFalse
	}
	return mk("<", SBool, a, b)
}
func mkLe(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return boolT(x <= y)
		}
	}
	if a == b {
		return tTrue
	}
	return mk("<=", SBool, a, b)
}
func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
// sums are kept in a normal form: args are non-constant, constant last
func mkAdd(a, b *Term) *Term {
	var c int64
	cnt := map[int]int64{}
	var order []*Term
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		if n, ok := t.intVal(); ok {
			c += k * n
			return
		}
		switch t.Op {
		case "+":
			for _, x := range t.Args {
				add(x, k)
			}
			return
		case "-":
			if len(t.Args) == 2 {
				add(t.Args[0], k)
				add(t.Args[1], -k)
				return
			}
			if len(t.Args) == 1 {
				add(t.Args[0], -k)
				return
			}
		case "*":
			if n, ok := t.Args[0].intVal(); ok && len(t.Args) == 2 {
				add(t.Args[1], k*n)
				return
			}
		}
		if _, ok := cnt[t.id]; !ok {
			order = append(order, t)
		}
		cnt[t.id] += k
	}
	add(a, 1)
	add(b, 1)
	sort.SliceStable(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []*Term
	for _, t := range order {
		k := cnt[t.id]
		switch {
		case k == 0:
		case k == 1:
			out = append(out, t)
		default:
			out = append(out, mk("*", SInt, mkInt(k), t))
		}
	}
	if len(out) == 0 {
		return mkInt(c)
	}
	if c != 0 {
		out = append(out, mkInt(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", SInt, out...)
}
func mkMulC(k int64, a *Term) *Term { return mkMul(mkInt(k), a) }
func mkMul(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return mkInt(x * y)
		}
		if x == 0 {
			return tZero
		}
		if x == 1 {
			return b
		}
		if b.Op == "+" {
			r := tZero
			for _, q := range b.Args {
				r = mkAdd(r, mkMul(a, q))
			}
			return r
		}
		if b.Op == "*" {
			if y, ok := b.Args[0].intVal(); ok {
				return mkMul(mkInt(x*y), b.Args[1])
			}
		}
		return mk("*", SInt, a, b)
	}
	if _, ok := b.intVal(); ok {
		return mkMul(b, a)
	}
	return mk("*", SInt, a, b)
}
func mkSub(a, b *Term) *Term { return mkAdd(a, mkMulC(-1, b)) }

func mkSelect(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if isLit(i) && isLit(a.Args[1]) || isStrLit(i) && isStrLit(a.Args[1]) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "ite" {
		return mkIte(a.Args[0], mkSelect(a.Args[1], i), mkSelect(a.Args[2], i))
	}
	return mk("select", v, a, i)
}
func mkStore(a, i, v *Term) *Term { return mk("store", a.Sort, a, i, v) }

// ---- strings
var strLits = map[string]*Term{}
var strLitOf = map[int]string{}

func mkStr(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mkConst(fmt.Sprintf("str_%d_%s", len(strLits), sanitize(trunc(s, 12))), SStr)
	strLits[s] = t
	strLitOf[t.id] = s
	return t
}
func isStrLit(t *Term) bool { _, ok := strLitOf[t.id]; return ok }
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---- sequences
func elemSort(seq string) string {
	switch seq {
	case SSI:
		return SInt
	case SSQ:
		return SSI
	case SSS:
		return SStr
	}
	panic("not a sequence sort: " + seq)
}
func isSeq(s string) bool { return s == SSI || s == SSQ || s == SSS }

func seqEmpty(s string) *Term { return mk("empty_"+s, s) }
func seqLen(s *Term) *Term {
	switch strings.SplitN(s.Op, "_", 2)[0] {
	case "empty":
		return tZero
	case "build":
		return mkAdd(seqLen(s.Args[0]), tOne)
	case "app":
		return mkAdd(seqLen(s.Args[0]), seqLen(s.Args[1]))
	case "upd":
		return seqLen(s.Args[0])
	}
	return mk("len_"+s.Sort, SInt, s)
}
func seqIdx(s, i *Term) *Term { return mk("idx_"+s.Sort, elemSort(s.Sort), s, i) }
func seqBuild(s, x *Term) *Term { return mk("build_"+s.Sort, s.Sort, s, x) }
func seqApp(a, b *Term) *Term {
	if strings.HasPrefix(a.Op, "empty_") {
		return b
	}
	if strings.HasPrefix(b.Op, "empty_") {
		return a
	}
	if strings.HasPrefix(b.Op, "build_") { // a ++ (b' ++ [x])  ->  (a ++ b') ++ [x]
		return seqBuild(seqApp(a, b.Args[0]), b.Args[1])
	}
	return mk("app_"+a.Sort, a.Sort, a, b)
}
func seqSlice(s, a, b *Term) *Term {
	if a == tZero && b == seqLen(s) {
		return s
	}
	return mk("sl_"+s.Sort, s.Sort, s, a, b)
}
func seqUpd(s, i, x *Term) *Term { return mk("upd_"+s.Sort, s.Sort, s, i, x) }
func seqEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return mk("eq_"+a.Sort, SBool, a, b)
}

// ---- printing
func (t *Term) String() string {
	var b strings.Builder
	t.write(&b)
	return b.String()
}

func (t *Term) write(b *strings.Builder) {
	switch t.Op {
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			b.WriteString("(" + v.Op + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].write(b)
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, q := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				q.write(b)
			}
			b.WriteString(")")
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		if n, ok := t.intVal(); ok && n < 0 {
			fmt.Fprintf(b, "(- %d)", -n)
			return
		}
		if strings.HasPrefix(t.Op, "constarr:") {
			fmt.Fprintf(b, "((as const %s) %s)", t.Sort, t.Op[9:])
			return
		}
		b.WriteString(t.Op)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.Op)
	for _, a := range t.Args {
		b.WriteByte(' ')
		a.write(b)
	}
	b.WriteByte(')')
}

func subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.Op == "forall" || t.Op == "exists" {
			var pats [][]*Term
			for _, p := range t.Pats {
				var np []*Term
				for _, q := range p {
					np = append(np, rec(q))
				}
				pats = append(pats, np)
			}
			r = mkQuant(t.Op, t.Vars, pats, rec(t.Args[0]))
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if ch {
				r = rebuild(t, args)
			} else {
				r = t
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// rebuild applies the simplifying constructors
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "not":
		return mkNot(args[0])
	case "=>":
		return mkImp(args[0], args[1])
	case "=":
		return mkEq(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "<":
		return mkLt(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = mkAdd(r, a)
		}
		return r
	case "*":
		return mkMul(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	}
	switch {
	case strings.HasPrefix(t.Op, "len_S"):
		return seqLen(args[0])
	case strings.HasPrefix(t.Op, "sl_S"):
		return seqSlice(args[0], args[1], args[2])
	case strings.HasPrefix(t.Op, "app_S"):
		return seqApp(args[0], args[1])
	case strings.HasPrefix(t.Op, "eq_S"):
		return seqEq(args[0], args[1])
	}
	return mk(t.Op, t.Sort, args...)
}
