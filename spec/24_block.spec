// A block: what happens with the text from index q on, behind the open rule. esc (0 for none), ex, cl: the escape, exclude and close rules.
// bI: behind the escape, if it matches some chars here; bX: the block fails here; bD: the block ends here; bN: otherwise it goes on there;
// bC: where the close rule of the block that has got to q matches, -1 if it fails.
def bEsc(gr ref, t SI, esc ref, q int) = esc != 0 && M(gr,t,esc,q,NOT_SKIP) && 0 < U(gr,t,esc,q,NOT_SKIP)
func bI(gr ref, t SI, esc ref, q int) int
axiom bI_def: forall gr ref, t SI, esc ref, q int :: {bI(gr,t,esc,q)} bI(gr,t,esc,q) == (if bEsc(gr,t,esc,q) then q + U(gr,t,esc,q,NOT_SKIP) else q)
func bX(gr ref, t SI, esc ref, ex SI, cl ref, q int) bool
func bD(gr ref, t SI, esc ref, ex SI, cl ref, q int) bool
func bN(gr ref, t SI, esc ref, ex SI, cl ref, q int) int
func bC(gr ref, t SI, esc ref, ex SI, cl ref, q int) int
def bTie(gr ref, t SI, ex SI, i int) = 0 < len(ex) && tie(gr,t,ex,i,NOT_SKIP,len(ex))
def bEx(gr ref, t SI, ex SI, i int) = 0 < len(ex) && 0 < cnt(gr,t,ex,i,NOT_SKIP,len(ex)) && !tie(gr,t,ex,i,NOT_SKIP,len(ex))
axiom bX_def: forall gr ref, t SI, esc ref, ex SI, cl ref, q int :: {bX(gr,t,esc,ex,cl,q)} bX(gr,t,esc,ex,cl,q) ==
  (bTie(gr,t,ex,bI(gr,t,esc,q)) || (bEx(gr,t,ex,bI(gr,t,esc,q)) && !bEsc(gr,t,esc,q))
    || (!bEx(gr,t,ex,bI(gr,t,esc,q)) && !M(gr,t,cl,bI(gr,t,esc,q),NOT_SKIP) && len(t) <= bI(gr,t,esc,q)))
axiom bD_def: forall gr ref, t SI, esc ref, ex SI, cl ref, q int :: {bD(gr,t,esc,ex,cl,q)} bD(gr,t,esc,ex,cl,q) ==
  (!bTie(gr,t,ex,q) && !bEx(gr,t,ex,q) && !bEsc(gr,t,esc,q) && M(gr,t,cl,q,NOT_SKIP))
axiom bN_def: forall gr ref, t SI, esc ref, ex SI, cl ref, q int :: {bN(gr,t,esc,ex,cl,q)} bN(gr,t,esc,ex,cl,q) == bI(gr,t,esc,q) +
  (if bEx(gr,t,ex,bI(gr,t,esc,q)) then U(gr,t,ex[wi(gr,t,ex,bI(gr,t,esc,q),NOT_SKIP,len(ex))],bI(gr,t,esc,q),NOT_SKIP)
   else (if M(gr,t,cl,bI(gr,t,esc,q),NOT_SKIP) then U(gr,t,cl,bI(gr,t,esc,q),NOT_SKIP) else 1))
axiom bC_def: forall gr ref, t SI, esc ref, ex SI, cl ref, q int :: {bC(gr,t,esc,ex,cl,q), bX(gr,t,esc,ex,cl,q)} bC(gr,t,esc,ex,cl,q) ==
  (if bX(gr,t,esc,ex,cl,q) then 0-1 else (if bD(gr,t,esc,ex,cl,q) then q
   else (if q < bN(gr,t,esc,ex,cl,q) && bN(gr,t,esc,ex,cl,q) <= len(t) then bC(gr,t,esc,ex,cl,bN(gr,t,esc,ex,cl,q)) else 0-1)))

// the same, put in the terms an iteration deals with
lemma b_next: forall gr ref, t SI, esc ref, ex SI, cl ref, q int, i int :: {bX(gr,t,esc,ex,cl,q), bC(gr,t,esc,ex,cl,i)}
  i == bN(gr,t,esc,ex,cl,q) && q < i && i <= len(t) && !bX(gr,t,esc,ex,cl,q) && !bD(gr,t,esc,ex,cl,q) ==> bC(gr,t,esc,ex,cl,q) == bC(gr,t,esc,ex,cl,i)
lemma b_esc: forall gr ref, t SI, esc ref, ex SI, cl ref, q int, i int :: {bX(gr,t,esc,ex,cl,q), M(gr,t,esc,i,NOT_SKIP)}
  i == q ==> M(gr,t,esc,i,NOT_SKIP) == M(gr,t,esc,q,NOT_SKIP) && U(gr,t,esc,i,NOT_SKIP) == U(gr,t,esc,q,NOT_SKIP)
lemma b_at: forall gr ref, t SI, esc ref, ex SI, cl ref, q int, i int :: {bX(gr,t,esc,ex,cl,q), cnt(gr,t,ex,i,NOT_SKIP,len(ex))} {bX(gr,t,esc,ex,cl,q), M(gr,t,cl,i,NOT_SKIP)}
  i == bI(gr,t,esc,q) ==> bX(gr,t,esc,ex,cl,q) == (bTie(gr,t,ex,i) || (bEx(gr,t,ex,i) && !bEsc(gr,t,esc,q)) || (!bEx(gr,t,ex,i) && !M(gr,t,cl,i,NOT_SKIP) && len(t) <= i))
    && bD(gr,t,esc,ex,cl,q) == (!bTie(gr,t,ex,i) && !bEx(gr,t,ex,i) && !bEsc(gr,t,esc,q) && M(gr,t,cl,i,NOT_SKIP))
    && bN(gr,t,esc,ex,cl,q) == i + (if bEx(gr,t,ex,i) then U(gr,t,ex[wi(gr,t,ex,i,NOT_SKIP,len(ex))],i,NOT_SKIP) else (if M(gr,t,cl,i,NOT_SKIP) then U(gr,t,cl,i,NOT_SKIP) else 1))

contract charsGivenBack(cs, b) (r)
  covers C21
  requires stream(cs) && chain(cs,b)
  requires[lock] unlocked(cs)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  ensures r == text(cs)[old(CUR(cs)):old(CUR(b))]
  ensures moved(cs, old(CUR(b)))
  ensures stream(cs)
loop charsGivenBack#1
  inv stream(cs) && unlocked(cs) && stream(charstream) && unlocked(charstream)
  inv chars == text(cs)[old(CUR(cs)):CUR(cs)] && moved(cs, CUR(cs)) && CUR(cs) <= old(CUR(b))
  decreases CUR(charstream) - CUR(cs)

contract BlockRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C11
  let op = r.open
  let es = r.escape
  let ex = r.excludes
  let cl = r.close
  let o = p + U(gr,T,op,p,f)
  let c = bC(gr,T,es,ex,cl,o)
  define M(gr,T,r,p,f) == (M(gr,T,op,p,f) && 0 <= c)
  define U(gr,T,r,p,f) == (if r.virtualClose then c else c + U(gr,T,cl,c,NOT_SKIP)) - p
  define !S(gr,T,r,p,f) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == (if PS(gr,T,op,p,f) < 0 && o < len(T) then o else PS(gr,T,op,p,f))
  define NM(gr,r) == r.name && RT(gr,r) == TypeBlock && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  exit LO(res.Node.ChildNodes[1]) = res.Node.ChildNodes[1] when res.Node != nil
  exit HI(res.Node.ChildNodes[1]) = res.Node.ChildNodes[1] + 1 when res.Node != nil
  exit OP(res.Node.ChildNodes[1]) = false when res.Node != nil
  exit PA(res.Node.ChildNodes[1]) = res.Node when res.Node != nil
  exit PA(res.Node.ChildNodes[0]) = res.Node when res.Node != nil
  exit PA(res.Node.ChildNodes[2]) = res.Node when res.Node != nil && !r.virtualClose
  exit TX(res.Node.ChildNodes[1]) = noesc(r) when res.Node != nil
  exit TW(res.Node.ChildNodes[1]) = nows(T) when res.Node != nil
  exit TB(res.Node.ChildNodes[1]) = nwc(T,o) when res.Node != nil
  exit TE(res.Node.ChildNodes[1]) = nwc(T,c) when res.Node != nil
  exit VN(res.Node.ChildNodes[1]) = true when res.Node != nil
  hint[C06] CUR(cs) == p + nread(res) && p <= CUR(cs)
  hint[C06] moved(cs, CUR(cs))
  hint res.Node != nil ==> res.Node.ChildNodes[0] != res.Node && res.Node.ChildNodes[1] != res.Node && res.Node.ChildNodes[0] != res.Node.ChildNodes[1]
  hint res.Node != nil && !r.virtualClose ==> res.Node.ChildNodes[2] != res.Node && res.Node.ChildNodes[2] != res.Node.ChildNodes[1]
  hint[C15] res.Node != nil ==> tree(res.Node) && tree(res.Node.ChildNodes[1])
  hint[C15] forall n ref :: {VN(n)} VN(n) && (res.Node == nil || (n != res.Node && n != res.Node.ChildNodes[1])) ==> tree(n)
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node.ChildNodes[1])
  hint[C13] res.Node != nil && noesc(r) ==> txt(res.Node.ChildNodes[0], T, p, o)
  hint[C13] res.Node != nil && noesc(r) ==> txt(res.Node.ChildNodes[1], T, o, c)
  hint[C13] res.Node != nil && noesc(r) && !r.virtualClose ==> NQ(res.Node.ChildNodes[2]) == c
  hint[C13] res.Node != nil && noesc(r) && !r.virtualClose ==> txtm(gr, res.Node.ChildNodes[2], T, cl, NOT_SKIP)
  hint[C13] res.Node != nil && noesc(r) && !r.virtualClose ==> txt(res.Node.ChildNodes[2], T, c, p + nused(res))
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && (res.Node == nil || (n != res.Node && n != res.Node.ChildNodes[1])) ==> alloced(n) && (!OP(n) ==> texted(n))
  ensures[C11] res.Node != nil ==> len(res.Node.ChildNodes) == (if r.virtualClose then 2 else 3) && len(res.Node.Chars) == 0
  ensures[C11] res.Node != nil ==> made(gr, res.Node.ChildNodes[0], op, p, f)
  ensures[C11] res.Node != nil && !r.virtualClose ==> made(gr, res.Node.ChildNodes[2], cl, c, NOT_SKIP)
  ensures[C11] res.Node != nil ==> res.Node.ChildNodes[1].RuleType == TypeChars && len(res.Node.ChildNodes[1].ChildNodes) == 0
  ensures[C11] res.Node != nil && es == nil ==> res.Node.ChildNodes[1].Chars == T[o:c]
  ensures[C24] res.Node != nil ==> posIs(res.Node.ChildNodes[1].Position, T, if o < len(T) then o else 0-1)
loop BlockRule.Eval#1
  let q = p + len(charsUsed)
  inv stream(cs) && unlocked(cs) && text(cs) == T && chain(cs,charstream) && stream(charstream) && unlocked(charstream)
  inv forall t ref :: {chain(cs,t)} chain(cs,t) ==> fresh(t) || chain(charstream,t)
  inv moved(charstream, CUR(charstream)) && p <= CUR(charstream)
  inv o <= q && q <= len(T) && charsUsed == T[p:q]
  inv CUR(cs) == q + len(charsUnused) && charsUnused == T[q:CUR(cs)]
  inv evalResult.Node == nil && evalResult.Error == nil && len(evalResult.CharsUnused) == 0 && len(evalResult.CharsRead) == 0
  inv !VN(node) && !VN(content) && old(alloc) <= node && node < content && content < alloc
  inv[C15] NI()
  inv bC(gr,T,es,ex,cl,o) == bC(gr,T,es,ex,cl,q)
  inv len(node.ChildNodes) == 2 && len(node.Chars) == 0 && node.ChildNodes[1] == content && len(content.ChildNodes) == 0
  inv node.ChildNodes[0] != node && node.ChildNodes[0] != content
  inv made(gr, node.ChildNodes[0], op, p, f) && VN(node.ChildNodes[0]) && alloced(node.ChildNodes[0]) && old(alloc) <= LO(node.ChildNodes[0]) && HI(node.ChildNodes[0]) <= content && node < LO(node.ChildNodes[0])
  inv[C13] noesc(r) ==> txt(node.ChildNodes[0], T, p, o)
  inv[C13] !TX(node) && !TX(content)
  inv[C13] TI()
  inv posIs(content.Position, T, if o < len(T) then o else 0-1)
  inv posIs(node.Position, T, if PS(gr,T,op,p,f) < 0 && o < len(T) then o else PS(gr,T,op,p,f))
  inv es == nil ==> content.Chars == T[o:q]
  keep !VN(node) && !VN(content) && node != content
  keep node.ChildNodes[0] != node && node.ChildNodes[0] != content
  keep made(gr, node.ChildNodes[0], op, p, f) && VN(node.ChildNodes[0])
  keep stream(charstream) && unlocked(charstream)
  using bX(gr,T,es,ex,cl,q), bN(gr,T,es,ex,cl,q)
  decreases len(T) - q
