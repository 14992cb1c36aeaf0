// The first i rules of a concatenation: whether they match (kM), where they end (kP), the leading-space flag for the next (kF),
// whether all results are sticky (kS), the index of the first position (kPS).
func kM(gr ref, t SI, g SI, p int, f int, i int) bool
func kP(gr ref, t SI, g SI, p int, f int, i int) int
func kF(gr ref, t SI, g SI, p int, f int, i int) int
func kS(gr ref, t SI, g SI, p int, f int, i int) bool
func kPS(gr ref, t SI, g SI, p int, f int, i int) int
axiom concat_0: forall gr ref, t SI, g SI, p int, f int :: {kM(gr,t,g,p,f,0)} {kP(gr,t,g,p,f,0)} {kF(gr,t,g,p,f,0)} {kS(gr,t,g,p,f,0)} {kPS(gr,t,g,p,f,0)}
  kM(gr,t,g,p,f,0) && kP(gr,t,g,p,f,0) == p && kF(gr,t,g,p,f,0) == f && kS(gr,t,g,p,f,0) && kPS(gr,t,g,p,f,0) == 0-1
axiom concat_step: forall gr ref, t SI, g SI, p int, f int, i int :: {kM(gr,t,g,p,f,i), g[i]} 0 <= i && i < len(g) && kM(gr,t,g,p,f,i) ==>
  kM(gr,t,g,p,f,i+1) == M(gr,t,g[i],kP(gr,t,g,p,f,i),kF(gr,t,g,p,f,i))
  && kS(gr,t,g,p,f,i+1) == (kS(gr,t,g,p,f,i) && S(gr,t,g[i],kP(gr,t,g,p,f,i),kF(gr,t,g,p,f,i)))
axiom concat_next: forall gr ref, t SI, g SI, p int, f int, i int :: {kM(gr,t,g,p,f,i), g[i]} 0 <= i && i < len(g) && kM(gr,t,g,p,f,i+1) ==>
  kP(gr,t,g,p,f,i+1) == kP(gr,t,g,p,f,i) + U(gr,t,g[i],kP(gr,t,g,p,f,i),kF(gr,t,g,p,f,i))
  && kF(gr,t,g,p,f,i+1) == (if O(gr,t,g[i],kP(gr,t,g,p,f,i),kF(gr,t,g,p,f,i)) then kF(gr,t,g,p,f,i) else (if S(gr,t,g[i],kP(gr,t,g,p,f,i),kF(gr,t,g,p,f,i)) then 0 else 1))
  && kPS(gr,t,g,p,f,i+1) == (if kPS(gr,t,g,p,f,i) < 0 then PS(gr,t,g[i],kP(gr,t,g,p,f,i),kF(gr,t,g,p,f,i)) else kPS(gr,t,g,p,f,i))
axiom concat_stuck: forall gr ref, t SI, g SI, p int, f int, i int :: {kM(gr,t,g,p,f,i), g[i]} 0 <= i && i < len(g) && !kM(gr,t,g,p,f,i) ==> !kM(gr,t,g,p,f,i+1) && kS(gr,t,g,p,f,i+1) == kS(gr,t,g,p,f,i)
lemma concat_fail induct j using kM(gr,t,g,p,f,j-1), g[j-1]: forall gr ref, t SI, g SI, p int, f int, i int, j int :: {kM(gr,t,g,p,f,i), kM(gr,t,g,p,f,j)} 0 <= i && i <= j && j <= len(g) && !kM(gr,t,g,p,f,i) ==> !kM(gr,t,g,p,f,j) && kS(gr,t,g,p,f,j) == kS(gr,t,g,p,f,i)

lemma wsEnd_same using wsEnd(t,p), wsEnd(t,q), t[wsEnd(t,p)], t[wsEnd(t,q)]: forall t SI, p int, q int :: {wsEnd(t,p), wsEnd(t,q)} 0 <= p && p <= q && q <= wsEnd(t,p) && p <= len(t) ==> wsEnd(t,q) == wsEnd(t,p)

// where a part of the match ends, and where the match begins
def placed(t SI, p int, q int, ps int) = q <= (if ps < 0 then wsEnd(t,p) else len(t)) && (0 <= ps ==> p <= ps && ps <= wsEnd(t,p))

contract ConcatenateRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C10
  let g = r.rules
  let n = len(r.rules)
  let f0 = f
  define M(gr,T,r,p,f) == kM(gr,T,g,p,f,n)
  define U(gr,T,r,p,f) == kP(gr,T,g,p,f,n) - p
  define S(gr,T,r,p,f) == kS(gr,T,g,p,f,n) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == kPS(gr,T,g,p,f,n)
  define NM(gr,r) == r.name && RT(gr,r) == TypeConcatenate && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  ensures[C10] res.Node != nil ==> len(res.Node.ChildNodes) == n && len(res.Node.Chars) == 0
  ensures[C10] res.Node != nil ==> forall j int :: {res.Node.ChildNodes[j]} 0 <= j && j < n ==> made(gr, res.Node.ChildNodes[j], g[j], kP(gr,T,g,p,f,j), kF(gr,T,g,p,f,j))
loop ConcatenateRule.Eval#1
  let q = kP(gr,T,g,p,f0,_i)
  inv stream(charstream) && unlocked(charstream)
  inv p + nread(evalResult) <= len(T) && moved(charstream, p + nread(evalResult))
  inv evalResult.CharsRead == T[p:p+nread(evalResult)]
  inv p <= q && q <= p + nread(evalResult) && evalResult.CharsUnused == T[q:p+nread(evalResult)]
  inv evalResult.Node == nil
  inv[C15] NI()
  inv kM(gr,T,g,p,f0,_i) && flagLeadingSpaces == kF(gr,T,g,p,f0,_i) && evalResult.Sticky == kS(gr,T,g,p,f0,_i)
  inv q == p ==> nulto(g, _i)
  inv len(node.ChildNodes) == _i && len(node.Chars) == 0
  inv forall j int :: {node.ChildNodes[j]} 0 <= j && j < _i ==> alloced(node.ChildNodes[j]) && VN(node.ChildNodes[j]) && made(gr, node.ChildNodes[j], g[j], kP(gr,T,g,p,f0,j), kF(gr,T,g,p,f0,j))
  inv[C15] forall j int :: {node.ChildNodes[j]} 0 <= j && j < _i ==> PA(node.ChildNodes[j]) == node && node < LO(node.ChildNodes[j]) && HI(node.ChildNodes[j]) <= alloc
  inv[C15] forall i int, j int :: {node.ChildNodes[i], node.ChildNodes[j]} 0 <= i && i < j && j < _i ==> HI(node.ChildNodes[i]) <= LO(node.ChildNodes[j])
  inv[C13] forall j int :: {node.ChildNodes[j]} 0 <= j && j < _i ==> noesc(r) ==> txt(node.ChildNodes[j], T, kP(gr,T,g,p,f0,j), kP(gr,T,g,p,f0,j+1))
  inv[C13] TI()
  inv[C15] old(alloc) <= node
  end[C15] PA(node.ChildNodes[len(node.ChildNodes)-1]) = node
  inv posIs(node.Position, T, kPS(gr,T,g,p,f0,_i)) && placed(T, p, q, kPS(gr,T,g,p,f0,_i))
