// Background theory: line numbers, white space, streams.

func runesOf(s str) SI
func ssub(s str, a int, b int) str
func strOf(t SI) str
func slen(s str) int
func sbyte(s str, i int) int

// ---- newlines of a text
// nl(T,k): number of newlines among the first k chars; lastnl(T,k): index of the last of them, or -1
func nl(t SI, k int) int
func lastnl(t SI, k int) int
axiom nl_0: forall t SI :: {nl(t,0)} nl(t,0) == 0
axiom nl_step: forall t SI, k int :: {nl(t,k), t[k]} 0 <= k && k < len(t) ==> nl(t,k+1) == nl(t,k) + (if t[k] == '\n' then 1 else 0)
axiom lastnl_0: forall t SI :: {lastnl(t,0)} lastnl(t,0) == 0-1
axiom lastnl_step: forall t SI, k int :: {lastnl(t,k), t[k]} 0 <= k && k < len(t) ==> lastnl(t,k+1) == (if t[k] == '\n' then k else lastnl(t,k))

lemma nl_mono induct b using nl(t,b-1), t[b-1]: forall t SI, a int, b int :: {nl(t,a), nl(t,b)} 0 <= a && a <= b && b <= len(t) ==> nl(t,a) <= nl(t,b)
lemma nl_pos using nl(t,0): forall t SI, b int :: {nl(t,b)} 0 <= b && b <= len(t) ==> 0 <= nl(t,b)
lemma nl_at using nl(t,a), t[a]: forall t SI, a int :: {nl(t,a), t[a]} 0 <= a && a < len(t) && t[a] == '\n' ==> nl(t,a+1) == nl(t,a) + 1
lemma lastnl_is induct k using nl(t,k-1), t[k-1], lastnl(t,k-1), nl(t,a+1), lastnl(t,a), t[a], nl(t,k): forall t SI, a int, k int :: {lastnl(t,k), t[a]} 0 <= a && a < k && k <= len(t) && t[a] == '\n' && nl(t,k) == nl(t,a) + 1 ==> lastnl(t,k) == a
lemma lastnl_none induct k using nl(t,k-1), t[k-1], lastnl(t,k-1), lastnl(t,0): forall t SI, k int :: {lastnl(t,k), nl(t,k)} 0 <= k && k <= len(t) && nl(t,k) == 0 ==> lastnl(t,k) == 0-1

// ---- white space (the White_Space property of Unicode)
func isWS(c int) bool
def unicodeWS(c int) = (9 <= c && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (0x2000 <= c && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000
axiom ws_eof: !isWS(0-1)
axiom ws_blank: isWS(0x20)

// wsEnd(T,p): the first index from p on that is not white space, or the length of T
func wsEnd(t SI, p int) int
axiom wsEnd_def: forall t SI, p int :: {wsEnd(t,p)} 0 <= p && p <= len(t) ==> p <= wsEnd(t,p) && wsEnd(t,p) <= len(t) && (wsEnd(t,p) < len(t) ==> !isWS(t[wsEnd(t,p)]))
axiom wsEnd_in: forall t SI, p int, i int :: {wsEnd(t,p), t[i]} 0 <= p && p <= i && i < wsEnd(t,p) && p <= len(t) ==> isWS(t[i])
lemma wsEnd_uniq using wsEnd(t,p), t[wsEnd(t,p)], t[e]: forall t SI, p int, e int :: {wsEnd(t,p), t[e]} 0 <= p && p <= e && e < len(t) && !isWS(t[e]) ==> wsEnd(t,p) <= e

// ---- streams
// text(s): the text a stream is over; sbase(s): the stream below it, 0 for none;
// chain(s,t): t is s or below it; CUR(s): number of chars consumed
func text(s ref) SI
func sbase(s ref) ref
func chain(s ref, t ref) bool
ghost CUR int
ghost ACQ int
axiom chain_refl: forall s ref, t ref :: {chain(s,t)} s == t ==> chain(s,t)
axiom chain_unfold: forall s ref, t ref :: {chain(s,t), sbase(s)} chain(s,t) == (s == t || (sbase(s) != 0 && chain(sbase(s),t)))

axiom sbase_lt: forall s ref :: {sbase(s)} 0 < s ==> 0 <= sbase(s) && sbase(s) < s
lemma chain_le induct s using sbase(s), chain(sbase(s),t): forall s ref, t ref :: {chain(s,t)} 0 < s && chain(s,t) ==> 0 < t && t <= s
axiom chain_up: forall s ref, t ref :: {chain(sbase(s),t)} sbase(s) != 0 && chain(sbase(s),t) ==> chain(s,t)
lemma chain_trans induct s using sbase(s), chain(sbase(s),t), chain(sbase(s),u): forall s ref, t ref, u ref :: {chain(s,t), chain(t,u)} 0 < s && chain(s,t) && chain(t,u) ==> chain(s,u)

// the chars of a text are code points, never the end-of-file value
func okText(t SI) bool
axiom okText_def: forall t SI, i int :: {okText(t), t[i]} okText(t) && 0 <= i && i < len(t) ==> 0 <= t[i]

def max(a int, b int) = if a < b then b else a

// the newline map agrees with the text: m chars have been registered
def registered(lines SI) = lines[len(lines)-1] + 1
def posmap(lines SI, t SI) =
     len(lines) >= 1 && 0 <= registered(lines) && registered(lines) <= len(t)
  && nl(t, registered(lines)) == len(lines) - 1
  && (forall j int :: {lines[j]} 0 <= j && j < len(lines) - 1 ==> 0 <= lines[j] && lines[j] < registered(lines) && t[lines[j]] == '\n' && nl(t, lines[j]) == j)

axiom runes_ok: forall s str :: {runesOf(s)} okText(runesOf(s))

// what holds of a single stream object
def rep(s ref) = s != 0 && okText(text(s)) && 0 <= CUR(s) && CUR(s) <= len(text(s))
  && (is(s, CharstreamString) || is(s, CharstreamPrepend))
  && (is(s, CharstreamString) ==> sbase(s) == 0 && CharstreamString(s).chars == text(s) && CharstreamString(s).cursor == CUR(s)
        && posmap(CharstreamString(s).positionMap.lines, text(s)) && CUR(s) <= registered(CharstreamString(s).positionMap.lines))
  && (is(s, CharstreamPrepend) ==> sbase(s) == CharstreamPrepend(s).charstream && sbase(s) != 0 && text(sbase(s)) == text(s)
        && len(CharstreamPrepend(s).prepend) > 0 && 0 <= CharstreamPrepend(s).cursor && CharstreamPrepend(s).cursor <= len(CharstreamPrepend(s).prepend)
        && CUR(s) == CUR(sbase(s)) - len(CharstreamPrepend(s).prepend) + CharstreamPrepend(s).cursor
        && len(CharstreamPrepend(s).prepend) <= CUR(sbase(s))
        && (forall i int :: {CharstreamPrepend(s).prepend[i]} CharstreamPrepend(s).cursor <= i && i < len(CharstreamPrepend(s).prepend)
              ==> CharstreamPrepend(s).prepend[i] == text(s)[CUR(sbase(s)) - len(CharstreamPrepend(s).prepend) + i]))
// what holds of a stream and all streams below it
def stream(s ref) = s != 0 && alloced(s) && chain(s,s) && (forall t ref :: {chain(s,t)} chain(s,t) ==> alloced(t) && rep(t) && text(t) == text(s))
  && (forall t ref, u ref :: {chain(s,t), chain(t,u)} chain(s,t) && chain(t,u) ==> CUR(t) <= CUR(u))
def unlocked(s ref) = chain(s,s) && forall t ref :: {chain(s,t)} chain(s,t) ==> (is(t, CharstreamString) ==> CharstreamString(t).lock == 0) && (is(t, CharstreamPrepend) ==> CharstreamPrepend(t).lock == 0)
// an operation on s has moved it to index x
def moved(s ref, x int) = forall t ref :: {CUR(t)} chain(s,t) ==> CUR(t) == max(old(CUR(t)), x)

guarded CharstreamString.cursor by CharstreamString.lock
guarded positionMap.lines by CharstreamString.lock
guarded CharstreamPrepend.cursor by CharstreamPrepend.lock

// ---- text without its white space
// nwp(t,k): the first k chars of t without white space; nows(t): all of them; nwc(t,k): how many
func nwp(t SI, k int) SI
def nows(t SI) = nwp(t, len(t))
def nwc(t SI, k int) = len(nwp(t,k))
axiom nwp_0: forall t SI :: {nwp(t,0)} nwp(t,0) == emptyI
axiom nwp_step: forall t SI, k int :: {nwp(t,k), t[k]} 0 <= k && k < len(t) ==> nwp(t,k+1) == (if isWS(t[k]) then nwp(t,k) else build(nwp(t,k), t[k]))
lemma nwp_len induct k using nwp(t,k-1), t[k-1]: forall t SI, k int :: {nwp(t,k)} 0 <= k && k <= len(t) ==> 0 <= len(nwp(t,k)) && len(nwp(t,k)) <= k
lemma nwp_sl induct k using nwp(t,a+k-1), t[a+k-1], nwp(t[a:b],k-1), t[a:b][k-1], nwp(t,a)++nwp(t[a:b],k-1): forall t SI, a int, b int, k int :: {nwp(t[a:b],k)} 0 <= a && a <= b && b <= len(t) && 0 <= k && k <= b - a ==> nwp(t,a+k) == nwp(t,a) ++ nwp(t[a:b],k)
lemma nwp_app1 induct k using nwp(x,k-1), x[k-1], nwp(x++y,k-1), (x++y)[k-1]: forall x SI, y SI, k int :: {nwp(x++y,k)} 0 <= k && k <= len(x) ==> nwp(x++y,k) == nwp(x,k)
lemma nwp_app2 induct m using nwp(y,m-1-len(x)), y[m-1-len(x)], nwp(x++y,m-1), (x++y)[m-1], nwp(x,len(x))++nwp(y,m-1-len(x)), nwp(x++y,len(x)), nwp(x,len(x)), nwp(y,0): forall x SI, y SI, m int :: {nwp(x++y,m)} len(x) <= m && m <= len(x) + len(y) ==> nwp(x++y,m) == nwp(x,len(x)) ++ nwp(y,m-len(x))
lemma nows_app using nwp(x++y,len(x)+len(y)), nwp(y,len(y)): forall x SI, y SI :: {nwp(x++y,len(x++y))} nwp(x++y,len(x++y)) == nwp(x,len(x)) ++ nwp(y,len(y))
lemma nwp_ws induct k using nwp(t,k-1), t[k-1]: forall t SI, p int, k int :: {nwp(t,k), wsEnd(t,p)} 0 <= p && p <= k && k <= wsEnd(t,p) && p <= len(t) ==> nwp(t,k) == nwp(t,p)
lemma nwp_part using nwp(t[0:len(t)],k), nwp(t,len(t)), nwp(t[k:len(t)],len(t)-k): forall t SI, k int :: {nwp(t,k), nwp(t,len(t))} 0 <= k && k <= len(t) ==> nwp(t,k) == nwp(t,len(t))[0:len(nwp(t,k))] && len(nwp(t,k)) <= len(nwp(t,len(t)))
lemma nwp_mid using nwp(t,b), nwp(t,a), nwp(t,len(t)), nwp(t[a:b],b-a): forall t SI, a int, b int :: {nwp(t[a:b],len(t[a:b]))} 0 <= a && a <= b && b <= len(t) ==> nwp(t[a:b],len(t[a:b])) == nwp(t,len(t))[len(nwp(t,a)):len(nwp(t,b))] && len(nwp(t,a)) <= len(nwp(t,b)) && len(nwp(t,b)) <= len(nwp(t,len(t)))
lemma nwc_mono induct b using nwp(t,b-1), t[b-1]: forall t SI, a int, b int :: {nwp(t,a), nwp(t,b)} 0 <= a && a <= b && b <= len(t) ==> len(nwp(t,a)) <= len(nwp(t,b))
lemma nwp_bld1 induct k using nwp(x,k-1), x[k-1], nwp(build(x,c),k-1), build(x,c)[k-1]: forall x SI, c int, k int :: {nwp(build(x,c),k)} 0 <= k && k <= len(x) ==> nwp(build(x,c),k) == nwp(x,k)
lemma nows_bld using nwp(build(x,c),len(x)), build(x,c)[len(x)]: forall x SI, c int, k int :: {nwp(build(x,c),k)} k == len(x) + 1 ==> nwp(build(x,c),k) == (if isWS(c) then nwp(x,len(x)) else build(nwp(x,len(x)),c))
// the text of a leaf: a char or a word in place, after white space
def spans(w SI, t SI, p int, e int) = nows(w) == nows(t)[nwc(t,p):nwc(t,e)]
lemma span_word using nwp(t,a), nwp(t,p), nwp(t[a:b],len(t[a:b])), nwp(t,b): forall t SI, p int, a int, b int :: {wsEnd(t,p), nwp(t[a:b],len(t[a:b]))} 0 <= p && p <= a && a <= wsEnd(t,p) && a <= b && b <= len(t) ==> spans(t[a:b],t,p,b)
lemma span_char using nwp(t,i), nwp(t,p), t[i], nwp(build(emptyI,t[i]),0), nwp(build(emptyI,t[i]),1), nwp(t,i+1), nwp(t,len(t)): forall t SI, p int, i int :: {wsEnd(t,p), nwp(build(emptyI,t[i]),1)} 0 <= p && p <= i && i <= wsEnd(t,p) && i < len(t) ==> spans(build(emptyI,t[i]),t,p,i+1)
