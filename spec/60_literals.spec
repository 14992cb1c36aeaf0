// The notation of literals, ranges and repetition specifications.
def isHex(c int) = (48 <= c && c <= 57) || (97 <= c && c <= 102) || (65 <= c && c <= 70)
def hexv(c int) = if c <= 57 then c - 48 else if c <= 70 then c - 55 else c - 87
// four hexadecimal digits stand in t at i; the value they have
def u4(t SI, i int) = i + 4 <= len(t) && isHex(t[i]) && isHex(t[i+1]) && isHex(t[i+2]) && isHex(t[i+3])
def uv(t SI, i int) = 4096 * hexv(t[i]) + 256 * hexv(t[i+1]) + 16 * hexv(t[i+2]) + hexv(t[i+3])
// a char of a literal closed by q stands in t at i, possibly escaped; the char it means; where it ends
def litOk(t SI, q int, i int) = i < len(t) && t[i] != q && (t[i] == 92 ==> i + 1 < len(t) && (t[i+1] == 117 ==> u4(t,i+2)))
def litC(t SI, i int) = if t[i] == 92 then (if t[i+1] == 117 then uv(t,i+2) else t[i+1]) else t[i]
def litE(t SI, i int) = if t[i] == 92 then (if t[i+1] == 117 then i + 6 else i + 2) else i + 1
// the literal whose first char stands at i: where its k-th char stands (lP), its first k chars (lT), whether there is a k-th (lM),
// whether there are k (lR), how many there are (lN)
func lP(t SI, q int, i int, k int) int
func lT(t SI, q int, i int, k int) SI
func lM(t SI, q int, i int, k int) bool
func lR(t SI, q int, i int, k int) bool
func lN(t SI, q int, i int) int
axiom l_0: forall t SI, q int, i int :: {lP(t,q,i,0)} {lT(t,q,i,0)} {lR(t,q,i,0)} lP(t,q,i,0) == i && lT(t,q,i,0) == emptyI && lR(t,q,i,0)
axiom l_step: forall t SI, q int, i int, k int :: {lM(t,q,i,k)} 0 <= k ==>
  lM(t,q,i,k) == litOk(t,q,lP(t,q,i,k)) && lP(t,q,i,k+1) == litE(t,lP(t,q,i,k)) && lT(t,q,i,k+1) == build(lT(t,q,i,k), litC(t,lP(t,q,i,k)))
  && lR(t,q,i,k+1) == (lR(t,q,i,k) && lM(t,q,i,k))
axiom l_N: forall t SI, q int, i int, k int :: {lR(t,q,i,k), lM(t,q,i,k)} 0 <= k && lR(t,q,i,k) && !lM(t,q,i,k) ==> lN(t,q,i) == k
// the literal closed by q whose first char stands at i: what it means, where it is closed
def litT(t SI, q int, i int) = lT(t,q,i,lN(t,q,i))
def litX(t SI, q int, i int) = lP(t,q,i,lN(t,q,i))
def closed(t SI, q int, i int) = litX(t,q,i) < len(t) && t[litX(t,q,i)] == q

// the k-th char is an escape that nothing follows
func doomed(t SI, q int, i int, k int) bool
axiom doomed_def: forall t SI, q int, i int, k int :: {doomed(t,q,i,k)} doomed(t,q,i,k) == (0 <= k && lR(t,q,i,k) && !lM(t,q,i,k) && lP(t,q,i,k) + 1 == len(t) && t[lP(t,q,i,k)] == 92)

// an operation has moved the stream forward
def fwd(s ref) = stream(s) && old(CUR(s)) <= CUR(s) && moved(s, CUR(s))

// converting ASCII text to a string and back changes nothing
axiom runes_ascii: forall t SI :: {strOf(t)} (forall j int :: {t[j]} 0 <= j && j < len(t) ==> 0 <= t[j] && t[j] < 128) ==> runesOf(strOf(t)) == t
func okBad(t SI) int
axiom okText_not: forall t SI :: {okText(t)} !okText(t) ==> 0 <= okBad(t) && okBad(t) < len(t) && t[okBad(t)] < 0

contract extern:strconv.ParseInt(s, base, bits) (v, err)
  ensures base == 16 && bits == 32 && len(runesOf(s)) == 4 && u4(runesOf(s),0) ==> err == nil && v == uv(runesOf(s),0)

contract parseUnicodeEscape(cs) (c, err)
  sem C22
  requires stream(cs)
  requires[lock] unlocked(cs)
  covers C27
  let T = text(cs)
  let p = CUR(cs)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  ensures fwd(cs)
  ensures (err == nil) == (p < len(T) && T[p] == 117 && u4(T,p+1))
  ensures err == nil ==> c == uv(T,p+1) && CUR(cs) == p + 5
loop parseUnicodeEscape#1
  inv fwd(cs) && unlocked(cs) && 0 <= i && i <= 4 && CUR(cs) == p + 1 + i && p < len(T) && T[p] == 117
  inv len(hexChars) == i && (i == 0 || i == 1 || i == 2 || i == 3 || i == 4)
  inv 0 < i ==> hexChars[0] == T[p+1] && isHex(T[p+1])
  inv 1 < i ==> hexChars[1] == T[p+2] && isHex(T[p+2])
  inv 2 < i ==> hexChars[2] == T[p+3] && isHex(T[p+3])
  inv 3 < i ==> hexChars[3] == T[p+4] && isHex(T[p+4])

// the end of a range: '-' stands at i, then a literal of one char or a bare escape; its value, where it ends
def rgQ(t SI, i int) = i + 2 < len(t) && t[i+1] == 39 && (t[i+2] == 92 ==> i + 3 < len(t) && (t[i+3] == 117 ==> u4(t,i+4))) && litE(t,i+2) < len(t) && t[litE(t,i+2)] == 39
def rgU(t SI, i int) = i + 2 < len(t) && t[i+1] == 92 && t[i+2] == 117 && u4(t,i+3)
def rgOk(t SI, i int) = t[i] == 45 && (rgQ(t,i) || rgU(t,i))
def rgC(t SI, i int) = if t[i+1] == 39 then litC(t,i+2) else uv(t,i+3)
def rgE(t SI, i int) = if t[i+1] == 39 then litE(t,i+2) + 1 else i + 7

contract inRange(cs, b, u) (rule, err)
  sem C22
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires 0 <= b
  covers C27
  let T = text(cs)
  let p = CUR(cs)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies VR where t :: false
  init sd(rule) = 0 when err == nil
  init rfs(rule) = emptyV when err == nil
  exit VR(rule) = true when err == nil
  ensures fwd(cs)
  ensures (err == nil) == (p < len(T) && rgOk(T,p))
  ensures err == nil ==> fresh(rule) && is(rule, TerminalRangeRule) && TerminalRangeRule(rule).begin == b && TerminalRangeRule(rule).end == rgC(T,p) && CUR(cs) == rgE(T,p)
  ensures[C27] RI() && (err == nil ==> VR(rule)) && (err != nil ==> rule == nil)
  ensures[C20] err == nil ==> rfs(rule) == emptyV

// what a char literal of one char before index e means: a char, or a range if '-' follows
def charOrRange(rule ref, t SI, c int, e int, cur int) =
  if e < len(t) && t[e] == 45 then is(rule, TerminalRangeRule) && TerminalRangeRule(rule).begin == c && TerminalRangeRule(rule).end == rgC(t,e) && cur == rgE(t,e)
  else is(rule, TerminalCharRule) && TerminalCharRule(rule).text == c && cur == e

contract inChar(cs) (rule, err)
  sem C22
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  covers C27
  let T = text(cs)
  let p = CUR(cs)
  let w = litT(T,39,p+1)
  let e = litX(T,39,p+1)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies VR where t :: false
  init sd(rule) = 0 when err == nil && !VR(rule)
  init rfs(rule) = emptyV when err == nil && !VR(rule)
  exit VR(rule) = true when err == nil
  ensures fwd(cs)
  ensures (err == nil) == (p < len(T) && T[p] == 39 && closed(T,39,p+1) && 0 < len(w) && (len(w) == 1 && e + 1 < len(T) && T[e+1] == 45 ==> rgOk(T,e+1)))
  ensures err == nil && 1 < len(w) ==> is(rule, TerminalCharsRule) && TerminalCharsRule(rule).text == w && CUR(cs) == e + 1
  ensures err == nil && len(w) == 1 ==> charOrRange(rule, T, w[0], e + 1, CUR(cs))
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] err == nil ==> rfs(rule) == emptyV
loop inChar#1
  let k = len(buf)
  inv fwd(cs) && unlocked(cs) && p < len(T) && T[p] == 39
  inv p < CUR(cs)
  inv doomed(T,39,p+1,k-1) ==> CUR(cs) == len(T) && 0 < k
  inv doomed(T,39,p+1,k-1) || CUR(cs) == lP(T,39,p+1,k)
  inv doomed(T,39,p+1,k-1) || buf == lT(T,39,p+1,k)
  inv doomed(T,39,p+1,k-1) || lR(T,39,p+1,k)
  inv !doomed(T,39,p+1,k-1) ==> forall j int :: {buf[j]} 0 <= j && j < k ==> 0 <= buf[j]
  using lM(T,39,p+1,k), lM(T,39,p+1,k-1)
  decreases len(T) - CUR(cs)

contract inUnicode(cs) (rule, err)
  sem C22
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  covers C27
  let T = text(cs)
  let p = CUR(cs)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies VR where t :: false
  init sd(rule) = 0 when err == nil && !VR(rule)
  init rfs(rule) = emptyV when err == nil && !VR(rule)
  exit VR(rule) = true when err == nil
  ensures fwd(cs)
  ensures (err == nil) == (p + 1 < len(T) && T[p] == 92 && T[p+1] == 117 && u4(T,p+2) && (p + 6 < len(T) && T[p+6] == 45 ==> rgOk(T,p+6)))
  ensures err == nil ==> charOrRange(rule, T, uv(T,p+2), p + 6, CUR(cs))
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] err == nil ==> rfs(rule) == emptyV

contract inString(name, cs) (rule, err)
  sem C22
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  covers C27
  let T = text(cs)
  let p = CUR(cs)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies VR where t :: false
  init sd(rule) = 0 when err == nil
  init rfs(rule) = emptyV when err == nil
  exit VR(rule) = true when err == nil
  ensures fwd(cs)
  ensures (err == nil) == (p < len(T) && T[p] == 34 && closed(T,34,p+1))
  ensures err == nil ==> is(rule, TerminalStringRule) && TerminalStringRule(rule).text == litT(T,34,p+1) && CUR(cs) == litX(T,34,p+1) + 1
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] err == nil ==> rfs(rule) == emptyV
loop inString#1
  let k = len(buf)
  inv fwd(cs) && unlocked(cs) && p < len(T) && T[p] == 34
  inv p < CUR(cs)
  inv doomed(T,34,p+1,k-1) ==> CUR(cs) == len(T) && 0 < k
  inv doomed(T,34,p+1,k-1) || CUR(cs) == lP(T,34,p+1,k)
  inv doomed(T,34,p+1,k-1) || buf == lT(T,34,p+1,k)
  inv doomed(T,34,p+1,k-1) || lR(T,34,p+1,k)
  inv !doomed(T,34,p+1,k-1) ==> forall j int :: {buf[j]} 0 <= j && j < k ==> 0 <= buf[j]
  using lM(T,34,p+1,k), lM(T,34,p+1,k-1)
  decreases len(T) - CUR(cs)

// ---- repetition specifications
// nE: where a number that may stand at i ends; nD: the digits between i and k
def specCh(c int) = c == 32 || c == 9 || c == 10 || (48 <= c && c <= 57)
func nE(t SI, i int) int
axiom nE_def: forall t SI, i int :: {nE(t,i)} 0 <= i && i <= len(t) ==> i <= nE(t,i) && nE(t,i) <= len(t) && (nE(t,i) < len(t) ==> !specCh(t[nE(t,i)]))
axiom nE_in: forall t SI, i int, j int :: {nE(t,i), t[j]} 0 <= i && i <= j && j < nE(t,i) && i <= len(t) ==> specCh(t[j])
func nD(t SI, i int, k int) SI
axiom nD_0: forall t SI, i int :: {nD(t,i,i)} nD(t,i,i) == emptyI
axiom nD_step: forall t SI, i int, k int :: {nD(t,i,k), t[k]} 0 <= i && i <= k && k < len(t) ==> nD(t,i,k+1) == (if 48 <= t[k] && t[k] <= 57 then build(nD(t,i,k), t[k]) else nD(t,i,k))
// the value of a sequence of decimal digits
func dec(d SI, k int) int
axiom dec_0: forall d SI :: {dec(d,0)} dec(d,0) == 0
axiom dec_step: forall d SI, k int :: {dec(d,k), d[k]} 0 <= k && k < len(d) ==> dec(d,k+1) == 10 * dec(d,k) + d[k] - 48
def numOf(d SI) = if len(d) == 0 then 0 else dec(d, len(d))

axiom slen_strOf: forall t SI :: {strOf(t)} (slen(strOf(t)) == 0) == (len(t) == 0)

contract extern:strconv.ParseUint(s, base, bits) (v, err)
  ensures base == 10 && bits == 32 && 0 < len(runesOf(s)) && (forall j int :: {runesOf(s)[j]} 0 <= j && j < len(runesOf(s)) ==> 48 <= runesOf(s)[j] && runesOf(s)[j] <= 57)
    ==> (err == nil) == (dec(runesOf(s), len(runesOf(s))) < 4294967296) && (err == nil ==> v == dec(runesOf(s), len(runesOf(s))))

// the same, for the specification whose '<' stands at i: where its minimum ends, the minimum and the maximum, whether it is one, where it ends
def spE(t SI, i int) = nE(t, wsEnd(t, i + 1))
def spMin(t SI, i int) = numOf(nD(t, wsEnd(t, i + 1), spE(t,i)))
def spB(t SI, i int) = numOf(nD(t, spE(t,i) + 1, nE(t, spE(t,i) + 1)))
def spMax(t SI, i int) = if t[spE(t,i)] == 44 then spB(t,i) else 0
def spEnd(t SI, i int) = if t[spE(t,i)] == 44 then nE(t, spE(t,i) + 1) + 1 else spE(t,i) + 1
def spOk(t SI, i int) = spE(t,i) < len(t) && spMin(t,i) < 4294967296
  && (t[spE(t,i)] == 62 || (t[spE(t,i)] == 44 && nE(t, spE(t,i) + 1) < len(t) && t[nE(t, spE(t,i) + 1)] == 62 && spB(t,i) < 4294967296 && (spB(t,i) == 0 || spMin(t,i) <= spB(t,i))))

contract inRepeatSpec(cs) (min, max, err)
  sem C23
  requires stream(cs)
  requires[lock] unlocked(cs)
  covers C27
  let T = text(cs)
  let p = CUR(cs)
  let i = wsEnd(T, p + 1)
  let e1 = nE(T, i)
  let a = numOf(nD(T, i, e1))
  let e2 = nE(T, e1 + 1)
  let b = numOf(nD(T, e1 + 1, e2))
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  ensures fwd(cs)
  ensures err == nil ==> p < len(T) && T[p] == 60 && e1 < len(T) && (T[e1] == 44 || T[e1] == 62)
  ensures err == nil && T[e1] == 44 ==> e2 < len(T) && T[e2] == 62 && CUR(cs) == e2 + 1
  ensures err == nil && T[e1] == 62 ==> CUR(cs) == e1 + 1
  ensures err == nil ==> min == a
  ensures err == nil ==> a < 4294967296
  ensures err == nil && T[e1] == 44 ==> max == b
  ensures err == nil && T[e1] == 62 ==> max == 0
  ensures err == nil && T[e1] == 44 ==> b < 4294967296
  ensures err == nil && T[e1] == 44 ==> b == 0 || a <= b
  ensures (err == nil) == (p < len(T) && T[p] == 60 && spOk(T,p))
  ensures err == nil ==> min == spMin(T,p) && max == spMax(T,p) && CUR(cs) == spEnd(T,p)
  ensures p < len(T) && T[p] == 60 && e1 < len(T) && T[e1] == 62 && a < 4294967296 ==> err == nil
  ensures p < len(T) && T[p] == 60 && e1 < len(T) && T[e1] == 44 && a < 4294967296 && e2 < len(T) && T[e2] == 62 && b < 4294967296 && (b == 0 || a <= b) ==> err == nil
loop inRepeatSpec#1
  inv fwd(cs) && unlocked(cs) && p < len(T) && T[p] == 60 && hasCommas
  inv i <= CUR(cs) && CUR(cs) <= e1 && buf == nD(T,i,CUR(cs))
  inv forall j int :: {buf[j]} 0 <= j && j < len(buf) ==> 48 <= buf[j] && buf[j] <= 57
  using T[CUR(cs)], T[e1], nD(T,i,i), wsEnd(T,p+1)
  decreases len(T) - CUR(cs)
loop inRepeatSpec#2
  inv fwd(cs) && unlocked(cs) && p < len(T) && T[p] == 60 && hasCommas && e1 < len(T) && T[e1] == 44 && min == a && a < 4294967296
  inv e1 + 1 <= CUR(cs) && CUR(cs) <= e2 && buf == nD(T,e1+1,CUR(cs))
  inv forall j int :: {buf[j]} 0 <= j && j < len(buf) ==> 48 <= buf[j] && buf[j] <= 57
  using T[CUR(cs)], T[e2], nD(T,e1+1,e1+1)
  decreases len(T) - CUR(cs)
