// A repetition of rule q: where i matches in a row end (rP), whether their results are sticky (rS), the first position (rPS),
// whether it goes no further after i matches (halt), whether it gets there (reach), and the number of matches (rN).
func rP(gr ref, t SI, q ref, p int, f int, i int) int
func rS(gr ref, t SI, q ref, p int, f int, i int) bool
func rPS(gr ref, t SI, q ref, p int, f int, i int) int
axiom rep_0: forall gr ref, t SI, q ref, p int, f int :: {rP(gr,t,q,p,f,0)} {rS(gr,t,q,p,f,0)} {rPS(gr,t,q,p,f,0)}
  rP(gr,t,q,p,f,0) == p && rS(gr,t,q,p,f,0) && rPS(gr,t,q,p,f,0) == 0-1
axiom rep_step: forall gr ref, t SI, q ref, p int, f int, a int, b int, i int :: {halt(gr,t,q,p,f,a,b,i)} 0 <= i ==>
  rP(gr,t,q,p,f,i+1) == rP(gr,t,q,p,f,i) + U(gr,t,q,rP(gr,t,q,p,f,i),f)
  && rS(gr,t,q,p,f,i+1) == (rS(gr,t,q,p,f,i) && S(gr,t,q,rP(gr,t,q,p,f,i),f))
  && rPS(gr,t,q,p,f,i+1) == (if rPS(gr,t,q,p,f,i) < 0 then PS(gr,t,q,rP(gr,t,q,p,f,i),f) else rPS(gr,t,q,p,f,i))
// it has enough after i matches: the maximum, or an empty match, which would go on forever
func full(gr ref, t SI, q ref, p int, f int, a int, b int, i int) bool
axiom full_0: forall gr ref, t SI, q ref, p int, f int, a int, b int :: {full(gr,t,q,p,f,a,b,0)} !full(gr,t,q,p,f,a,b,0)
axiom full_step: forall gr ref, t SI, q ref, p int, f int, a int, b int, i int :: {halt(gr,t,q,p,f,a,b,i)} 0 <= i ==>
  full(gr,t,q,p,f,a,b,i+1) == ((0 < b && i + 1 == b) || (a <= i + 1 && U(gr,t,q,rP(gr,t,q,p,f,i),f) == 0))
func halt(gr ref, t SI, q ref, p int, f int, a int, b int, i int) bool
axiom halt_def: forall gr ref, t SI, q ref, p int, f int, a int, b int, i int :: {halt(gr,t,q,p,f,a,b,i)} 0 <= i ==> halt(gr,t,q,p,f,a,b,i) ==
  (full(gr,t,q,p,f,a,b,i) || len(t) <= rP(gr,t,q,p,f,i) || !M(gr,t,q,rP(gr,t,q,p,f,i),f))
func reach(gr ref, t SI, q ref, p int, f int, a int, b int, i int) bool
func rN(gr ref, t SI, q ref, p int, f int, a int, b int) int
axiom reach_0: forall gr ref, t SI, q ref, p int, f int, a int, b int :: {reach(gr,t,q,p,f,a,b,0)} reach(gr,t,q,p,f,a,b,0)
axiom reach_step: forall gr ref, t SI, q ref, p int, f int, a int, b int, i int :: {halt(gr,t,q,p,f,a,b,i)} 0 <= i ==>
  reach(gr,t,q,p,f,a,b,i+1) == (reach(gr,t,q,p,f,a,b,i) && !halt(gr,t,q,p,f,a,b,i))
axiom rN_is: forall gr ref, t SI, q ref, p int, f int, a int, b int, i int :: {reach(gr,t,q,p,f,a,b,i), halt(gr,t,q,p,f,a,b,i)}
  0 <= i && reach(gr,t,q,p,f,a,b,i) && halt(gr,t,q,p,f,a,b,i) ==> rN(gr,t,q,p,f,a,b) == i

contract RepetitionRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C09
  let q = r.rule
  let a = r.min
  let b = r.max
  let n = rN(gr,T,q,p,f,a,b)
  let e = rP(gr,T,q,p,f,n)
  define M(gr,T,r,p,f) == (a <= n)
  define U(gr,T,r,p,f) == e - p
  define S(gr,T,r,p,f) == (rS(gr,T,q,p,f,n) && (full(gr,T,q,p,f,a,b,n) || len(T) <= e || S(gr,T,q,e,f))) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == rPS(gr,T,q,p,f,n)
  define NM(gr,r) == r.name && RT(gr,r) == TypeRepetition && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit PA(res.Node.ChildNodes[len(res.Node.ChildNodes)-1]) = res.Node when res.Node != nil && 0 < len(res.Node.ChildNodes)
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil && noesc(r) && 0 < len(res.Node.ChildNodes) ==> NQ(res.Node.ChildNodes[len(res.Node.ChildNodes)-1]) == rP(gr,T,q,p,f,len(res.Node.ChildNodes)-1)
  hint[C13] res.Node != nil && noesc(r) && 0 < len(res.Node.ChildNodes) ==> rP(gr,T,q,p,f,len(res.Node.ChildNodes)) == rP(gr,T,q,p,f,len(res.Node.ChildNodes)-1) + U(gr,T,q,rP(gr,T,q,p,f,len(res.Node.ChildNodes)-1),f)
  hint[C13] res.Node != nil && noesc(r) && 0 < len(res.Node.ChildNodes) ==> txt(res.Node.ChildNodes[len(res.Node.ChildNodes)-1], T, rP(gr,T,q,p,f,len(res.Node.ChildNodes)-1), rP(gr,T,q,p,f,len(res.Node.ChildNodes)))
  hint[C13] res.Node != nil && noesc(r) ==> forall j int :: {res.Node.ChildNodes[j]} 0 <= j && j < len(res.Node.ChildNodes)-1 ==> txt(res.Node.ChildNodes[j], T, rP(gr,T,q,p,f,j), rP(gr,T,q,p,f,j+1))
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  hint[C15] res.Node != nil ==> tree(res.Node)
  hint[C15] forall n ref :: {VN(n)} VN(n) && n != res.Node ==> tree(n)
  ensures[C09] res.Node != nil ==> len(res.Node.ChildNodes) == n && len(res.Node.Chars) == 0 && a <= n && (0 < b ==> n <= b)
  ensures[C09] res.Node != nil ==> forall j int :: {res.Node.ChildNodes[j]} 0 <= j && j < n ==> made(gr, res.Node.ChildNodes[j], q, rP(gr,T,q,p,f,j), f)
loop RepetitionRule.Eval#1
  let k = len(nodes)
  let z = rP(gr,T,rule,p,f,len(nodes))
  inv stream(charstream) && unlocked(charstream)
  inv p + nread(evalResult) <= len(T) && moved(charstream, p + nread(evalResult))
  inv evalResult.CharsRead == T[p:p+nread(evalResult)]
  inv p <= z && z <= p + nread(evalResult) && evalResult.CharsUnused == T[z:p+nread(evalResult)]
  inv evalResult.Node == nil && node.ChildNodes == node.ChildNodes[0:0] && len(node.Chars) == 0
  inv[C15] NI() && !VN(node)
  inv reach(gr,T,rule,p,f,a,b,k) && !full(gr,T,rule,p,f,a,b,k) && evalResult.Sticky == rS(gr,T,rule,p,f,k)
  inv z == p ==> k == 0 || nul(rule)
  inv 0 < b ==> k < b
  inv forall j int :: {nodes[j]} 0 <= j && j < k ==> alloced(nodes[j]) && VN(nodes[j]) && made(gr, nodes[j], rule, rP(gr,T,rule,p,f,j), f)
  inv[C15] forall j int :: {nodes[j]} 0 <= j && j < k ==> PA(nodes[j]) == node && node < LO(nodes[j]) && HI(nodes[j]) <= alloc
  inv[C15] forall i int, j int :: {nodes[i], nodes[j]} 0 <= i && i < j && j < k ==> HI(nodes[i]) <= LO(nodes[j])
  inv[C13] forall j int :: {nodes[j]} 0 <= j && j < k ==> noesc(r) ==> txt(nodes[j], T, rP(gr,T,rule,p,f,j), rP(gr,T,rule,p,f,j+1))
  inv[C13] TI()
  inv[C15] old(alloc) <= node
  end[C15] PA(nodes[len(nodes)-1]) = node
  inv posIs(node.Position, T, rPS(gr,T,rule,p,f,k)) && placed(T, p, z, rPS(gr,T,rule,p,f,k))
  using halt(gr,T,rule,p,f,a,b,k), halt(gr,T,rule,p,f,a,b,k+1)
  decreases len(T) - z, a - k
