package xbnf

// Search for failing inputs: bounded exploration of the real code against
// reference models written from the property statements. It never counts as
// proof; govc runs it to give a failed obligation a concrete input, and as the
// labelled stand-in for the functions outside the verifier's reach.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vcase struct {
	w   *vworker
	rng *rand.Rand
}

type vworker struct {
	id      int
	start   atomic.Int64
	journal string
	mu      sync.Mutex
	text    string
	n       int
	nontriv int
}

// note records the case being tried, for the event that it never comes back
func (w *vworker) note(s string) {
	w.mu.Lock()
	w.text = s
	w.mu.Unlock()
	os.WriteFile(w.journal, []byte(s), 0o644)
	w.start.Store(time.Now().UnixNano())
}

type vresult struct {
	Found  bool                   `json:"found"`
	Text   string                 `json:"text"`
	Cases  int                    `json:"cases"`
	Detail map[string]interface{} `json:"detail"`
}

var vsearches = map[string]func(w *vworker, r *rand.Rand) string{}

func TestVerifSearch(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	f := vsearches[prop]
	out := os.Getenv("VERIF_OUT")
	if f == nil || out == "" {
		return
	}
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	if secs <= 0 {
		secs = 5
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	debug.SetMaxStack(256 << 20)
	nw := 6
	var once sync.Once
	var foundFlag atomic.Bool
	ws := make([]*vworker, nw)
	finish := func(found bool, text string) {
		once.Do(func() {
			foundFlag.Store(true)
			res := vresult{Found: found, Text: text, Detail: map[string]interface{}{}}
			nt := 0
			for _, w := range ws {
				res.Cases += w.n
				nt += w.nontriv
			}
			res.Detail["cases"] = res.Cases
			res.Detail["nontrivial"] = nt
			data, _ := json.Marshal(res)
			os.WriteFile(out, data, 0o644)
			if found {
				os.Exit(0)
			}
		})
	}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	for i := range ws {
		ws[i] = &vworker{id: i, journal: fmt.Sprintf("%s.case%d", out, i)}
	}
	// watchdog
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			now := time.Now().UnixNano()
			for _, w := range ws {
				st := w.start.Load()
				if st != 0 && now-st > int64(10*time.Second) {
					w.mu.Lock()
					x := w.text
					w.mu.Unlock()
					finish(true, "did not come to an end within 10 s:\n"+x)
				}
			}
			s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			metrics.Read(s)
			if s[0].Value.Uint64() > 4<<30 {
				old := ""
				var oldest int64
				for _, w := range ws {
					st := w.start.Load()
					if st != 0 && (oldest == 0 || st < oldest) {
						oldest = st
						w.mu.Lock()
						old = w.text
						w.mu.Unlock()
					}
				}
				finish(true, "used more than 4 GB without coming to an end:\n"+old)
			}
		}
	}()
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *vworker) {
			defer wg.Done()
			for i := 0; time.Now().Before(deadline) && !foundFlag.Load(); i++ {
				rng := rand.New(rand.NewSource(seed*1000003 + int64(w.id)*7919 + int64(i)*104729 + 17))
				msg := vguard(w, func() string { return f(w, rng) })
				w.start.Store(0)
				w.n++
				if msg != "" {
					finish(true, msg)
					return
				}
				if false {
					return
				}
			}
			os.Remove(w.journal)
		}(w)
	}
	wg.Wait()
	finish(false, "")
}

func vguard(w *vworker, f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			w.mu.Lock()
			x := w.text
			w.mu.Unlock()
			msg = fmt.Sprintf("panic: %v\n%s\n%s", r, x, vtrim(string(debug.Stack()), 3000))
		}
	}()
	return f()
}

func vtrim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func vq(t []rune) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range t {
		switch {
		case c == -1:
			b.WriteString("<EOF>")
		case c == '"' || c == '\\':
			b.WriteRune('\\')
			b.WriteRune(c)
		case c < 32 || c > 126:
			fmt.Fprintf(&b, "\\u%04X", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func veq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var vwsSet = func() map[rune]bool {
	m := map[rune]bool{}
	for c := rune(9); c <= 13; c++ {
		m[c] = true
	}
	for _, c := range []rune{0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000} {
		m[c] = true
	}
	for c := rune(0x2000); c <= 0x200A; c++ {
		m[c] = true
	}
	return m
}()

func vws(c rune) bool { return vwsSet[c] }

func vwsEnd(t []rune, p int) int {
	for p < len(t) && vws(t[p]) {
		p++
	}
	return p
}

func vnows(t []rune) []rune {
	var r []rune
	for _, c := range t {
		if !vws(c) && c != -1 {
			r = append(r, c)
		}
	}
	return r
}

// vlinecol: position of the char at idx
func vlinecol(t []rune, idx int) (int, int) {
	line, last := 1, -1
	for i := 0; i < idx && i < len(t); i++ {
		if t[i] == '\n' {
			line++
			last = i
		}
	}
	return line, idx - last
}

func vposOK(p *Position, t []rune, idx int) bool {
	if p == nil {
		return false
	}
	l, c := vlinecol(t, idx)
	return p.Line == l && p.Col == c
}

func vtext(r *rand.Rand, n int, alpha []rune) []rune {
	t := make([]rune, r.Intn(n+1))
	for i := range t {
		t[i] = alpha[r.Intn(len(alpha))]
	}
	return t
}

func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
