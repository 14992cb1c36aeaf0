package xbnf

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"unicode"
)

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04"} {
		p := p
		vsearches[p] = func(w *vworker, r *rand.Rand) string { return vstream(w, r, p) }
	}
	vsearches["C05"] = vconc
	vsearches["C26"] = vspace
}

var vsalpha = []rune{'a', 'b', 'c', ' ', ' ', '\n', '\n', '\t', 0x2003, 0xE9, 0x65E5, 0x1F600, 0xFFFD, '\r'}

// vstream runs a random sequence of operations on a stream and compares every
// result with the model (text, cursor). Only what belongs to the property counts.
func vstream(w *vworker, r *rand.Rand, prop string) string {
	T := vtext(r, 14, vsalpha)
	if r.Intn(3) == 0 {
		T = vtext(r, 40, vsalpha)
	}
	var log []string
	rec := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	desc := func() string { return "stream over " + vq(T) + ":\n  " + strings.Join(log, "\n  ") }
	w.note("stream over " + vq(T))
	var cs ICharstream = NewCharstreamFromString(string(T))
	cur := 0
	hist := 0 // lowest index that may be given back to
	depth := 0
	nops := 4 + r.Intn(30)
	for op := 0; op < nops; op++ {
		k := r.Intn(10)
		isPre := depth > 0
		mine := func(p string) bool {
			return p == prop || prop == "C04" && isPre
		}
		switch k {
		case 0, 1:
			c := cs.Next()
			rec("Next() = %s", vq([]rune{c}))
			want := rune(-1)
			if cur < len(T) {
				want = T[cur]
				cur++
			}
			if c != want && mine("C01") {
				return desc() + fmt.Sprintf("\nexpected %s", vq([]rune{want}))
			}
			if c != want {
				return ""
			}
		case 2:
			c := cs.Peek()
			rec("Peek() = %s", vq([]rune{c}))
			want := rune(-1)
			if cur < len(T) {
				want = T[cur]
			}
			if c != want {
				if mine("C01") {
					return desc() + fmt.Sprintf("\nexpected %s", vq([]rune{want}))
				}
				return ""
			}
		case 3:
			c := cs.Cursor()
			rec("Cursor() = %d", c)
			if c != cur {
				if mine("C01") || mine("C02") {
					return desc() + fmt.Sprintf("\nexpected %d", cur)
				}
				return ""
			}
		case 4:
			s := cs.SkipSpaces()
			e := vwsEnd(T, cur)
			rec("SkipSpaces() = %s", vq(s))
			if !veq(s, T[cur:e]) {
				if mine("C02") {
					return desc() + fmt.Sprintf("\nexpected %s", vq(T[cur:e]))
				}
				return ""
			}
			cur = e
		case 5:
			var m []rune
			n := r.Intn(5)
			for i := 0; i < n; i++ {
				if cur+i < len(T) && r.Intn(6) > 0 {
					m = append(m, T[cur+i])
				} else {
					m = append(m, vsalpha[r.Intn(len(vsalpha))])
				}
			}
			got, ok := cs.Match(append([]rune(nil), m...))
			rec("Match(%s) = %s, %v", vq(m), vq(got), ok)
			c := 0
			for c < len(m) && cur+c < len(T) && m[c] == T[cur+c] {
				c++
			}
			wantOK := c == len(m)
			bad := ok != wantOK || cur+len(got) > len(T) || !veq(got, T[cur:cur+len(got)])
			if !bad && ok {
				bad = len(got) != len(m)
			}
			if !bad && !ok {
				bad = len(got) < c || len(got) > c+1 || cur+c < len(T) && len(got) != c+1
			}
			if bad {
				if mine("C02") {
					return desc() + fmt.Sprintf("\nthe text continues with %s", vq(T[cur:]))
				}
				return ""
			}
			cur += len(got)
		case 6:
			p := cs.Position()
			rec("Position() = %s", p.String())
			good := p == nil
			if cur < len(T) {
				good = vposOK(p, T, cur)
			}
			if !good {
				if mine("C03") {
					l, c := vlinecol(T, cur)
					return desc() + fmt.Sprintf("\nexpected L%d:%d (none at end of file)", l, c)
				}
				return ""
			}
		case 7:
			i := r.Intn(len(T)+4) - 2
			if i == 0 && cur == 0 {
				continue
			}
			p := cs.PositionLookup(i)
			rec("PositionLookup(%d) = %s", i, p.String())
			good := p == nil
			if 0 <= i && i < cur {
				good = vposOK(p, T, i)
			} else if i == 0 {
				good = true
			}
			if !good {
				if mine("C03") {
					return desc() + "\n(cursor " + fmt.Sprint(cur) + ")"
				}
				return ""
			}
		default:
			if depth > 6 {
				continue
			}
			lim := cur - hist
			if lim <= 0 {
				continue
			}
			b := r.Intn(lim + 1)
			if b > 6 {
				b = r.Intn(6)
			}
			rec("give back %s", vq(T[cur-b:cur]))
			cs = newCharstreamPrepend(cs, append([]rune(nil), T[cur-b:cur]...))
			cur -= b
			if b > 0 {
				depth++
			}
		}
	}
	// the rest of the text
	if prop == "C01" || prop == "C04" && depth > 0 {
		for i := 0; i < 60; i++ {
			c := cs.Next()
			want := rune(-1)
			if cur < len(T) {
				want = T[cur]
				cur++
			}
			if c != want {
				rec("Next() = %s", vq([]rune{c}))
				return desc() + fmt.Sprintf("\nexpected %s", vq([]rune{want}))
			}
			if cs.Cursor() != cur {
				rec("Next(), then Cursor() = %d", cs.Cursor())
				return desc() + fmt.Sprintf("\nexpected %d", cur)
			}
		}
	}
	w.nontriv++
	return ""
}

// vconc: concurrent operations on one stream. Built with the race detector.
func vconc(w *vworker, r *rand.Rand) string {
	T := vtext(r, 60, []rune{'a', 'b', '\n', ' ', 'c', 0x65E5})
	for len(T) < 20 {
		T = append(T, 'x')
	}
	var cs ICharstream = NewCharstreamFromString(string(T))
	pre := r.Intn(3)
	start := 0
	for d := 0; d < pre; d++ {
		k := 3 + r.Intn(4)
		var got []rune
		for i := 0; i < k; i++ {
			got = append(got, cs.Next())
		}
		cs = newCharstreamPrepend(cs, got)
		if r.Intn(2) == 0 && d == 0 {
			cs.Next()
			start++
		}
	}
	mode := r.Intn(4)
	n := 3 + r.Intn(3)
	w.note(fmt.Sprintf("%d goroutines (mode %d) on a stream over %s with %d levels of given-back chars", n, mode, vq(T), pre))
	var wg sync.WaitGroup
	var mu sync.Mutex
	var all []rune
	bad := ""
	for g := 0; g < n; g++ {
		wg.Add(1)
		seed := r.Int63()
		go func(g int) {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			var mine []rune
			for i := 0; i < 16; i++ {
				k := rr.Intn(7)
				if mode == 1 && g > 0 {
					k = 1 + rr.Intn(4) // readers only
				}
				if mode == 2 {
					k = []int{0, 5, 2, 3}[g%4]
				}
				switch k {
				case 0:
					if c := cs.Next(); c != -1 {
						mine = append(mine, c)
					}
				case 1:
					cs.Peek()
				case 2:
					if p := cs.Position(); p != nil && (p.Line < 1 || p.Col < 1) {
						mu.Lock()
						bad = fmt.Sprintf("Position() = %s", p.String())
						mu.Unlock()
					}
				case 3:
					i := rr.Intn(len(T))
					if p := cs.PositionLookup(i); p != nil && !vposOK(p, T, i) {
						mu.Lock()
						bad = fmt.Sprintf("PositionLookup(%d) = %s", i, p.String())
						mu.Unlock()
					}
				case 4:
					c := cs.Cursor()
					if c < 0 || c > len(T) {
						mu.Lock()
						bad = fmt.Sprintf("Cursor() = %d", c)
						mu.Unlock()
					}
				case 5:
					s := cs.SkipSpaces()
					mine = append(mine, s...)
				case 6:
					s, _ := cs.Match([]rune{'a', 'b'})
					mine = append(mine, s...)
				}
			}
			mu.Lock()
			all = append(all, mine...)
			mu.Unlock()
		}(g)
	}
	wg.Wait()
	for {
		c := cs.Next()
		if c == -1 {
			break
		}
		all = append(all, c)
	}
	if bad != "" {
		return bad + " in a concurrent run: " + w.text
	}
	want := append([]rune(nil), T[start:]...)
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	if !veq(all, want) {
		return fmt.Sprintf("concurrent reads delivered the chars %s, the text has %s (sorted): %s", vq(all), vq(want), w.text)
	}
	w.nontriv++
	return ""
}

func vspace(w *vworker, r *rand.Rand) string {
	if w.id != 0 {
		return ""
	}
	w.note("every code point")
	for c := rune(-2); c <= 0x110000; c++ {
		want := c >= 0 && unicode.Is(unicode.White_Space, c)
		if IsWhiteSpace(c) != want {
			return fmt.Sprintf("IsWhiteSpace(%d, U+%04X) = %v", c, c, !want)
		}
	}
	w.nontriv++
	return ""
}
