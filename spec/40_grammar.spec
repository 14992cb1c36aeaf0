// Parsing a text with the root rules of a grammar.
//
// d: the names of the root rules; RL(gr,n): the root rule of that name.
// Of the rules named in d that match at p: smx is the largest number of chars used, -1 if none matches; swit a name of a
// rule that uses as many; stie whether another one (st1, st2 are two of them) does, too.
func RL(gr ref, n str) ref
func smx(gr ref, t SI, d VS, p int, f int) int
func swit(gr ref, t SI, d VS, p int, f int) str
func stie(gr ref, t SI, d VS, p int, f int) bool
func st1(gr ref, t SI, d VS, p int, f int) str
func st2(gr ref, t SI, d VS, p int, f int) str
axiom smx_ub: forall gr ref, t SI, d VS, p int, f int, n str :: {smx(gr,t,d,p,f), d[n]} {smx(gr,t,d,p,f), M(gr,t,RL(gr,n),p,f)} d[n] && M(gr,t,RL(gr,n),p,f) ==> U(gr,t,RL(gr,n),p,f) <= smx(gr,t,d,p,f)
axiom smx_wit: forall gr ref, t SI, d VS, p int, f int :: {smx(gr,t,d,p,f)} smx(gr,t,d,p,f) == 0-1 || (d[swit(gr,t,d,p,f)] && M(gr,t,RL(gr,swit(gr,t,d,p,f)),p,f) && U(gr,t,RL(gr,swit(gr,t,d,p,f)),p,f) == smx(gr,t,d,p,f))
axiom stie_is: forall gr ref, t SI, d VS, p int, f int :: {stie(gr,t,d,p,f)} stie(gr,t,d,p,f) ==> st1(gr,t,d,p,f) != st2(gr,t,d,p,f)
  && d[st1(gr,t,d,p,f)] && M(gr,t,RL(gr,st1(gr,t,d,p,f)),p,f) && U(gr,t,RL(gr,st1(gr,t,d,p,f)),p,f) == smx(gr,t,d,p,f)
  && d[st2(gr,t,d,p,f)] && M(gr,t,RL(gr,st2(gr,t,d,p,f)),p,f) && U(gr,t,RL(gr,st2(gr,t,d,p,f)),p,f) == smx(gr,t,d,p,f)
axiom stie_not: forall gr ref, t SI, d VS, p int, f int, n str :: {stie(gr,t,d,p,f), d[n]} {stie(gr,t,d,p,f), M(gr,t,RL(gr,n),p,f)} !stie(gr,t,d,p,f) && d[n] && M(gr,t,RL(gr,n),p,f) && U(gr,t,RL(gr,n),p,f) == smx(gr,t,d,p,f) ==> n == swit(gr,t,d,p,f)

// exactly one root rule uses the most chars at p, and some at that
def goes(gr ref, t SI, d VS, p int, f int) = 0 < smx(gr,t,d,p,f) && !stie(gr,t,d,p,f)
// after a result the next rule may skip spaces unless it is sticky
def nextF(gr ref, t SI, r ref, p int, f int) = if S(gr,t,r,p,f) then SUGGEST_NOT_SKIP else SUGGEST_SKIP
// wR(i): the i-th top-level rule of the parse that starts at p; wP(i), wF(i): where and how it is evaluated
func wR(gr ref, t SI, d VS, p int, i int) ref
func wP(gr ref, t SI, d VS, p int, i int) int
func wF(gr ref, t SI, d VS, p int, i int) int
axiom w_0: forall gr ref, t SI, d VS, p int :: {wP(gr,t,d,p,0)} {wF(gr,t,d,p,0)} wP(gr,t,d,p,0) == p && wF(gr,t,d,p,0) == SUGGEST_SKIP
axiom w_step: forall gr ref, t SI, d VS, p int, i int :: {wR(gr,t,d,p,i)} 0 <= i ==>
  wR(gr,t,d,p,i) == RL(gr, swit(gr,t,d,wP(gr,t,d,p,i),wF(gr,t,d,p,i)))
  && wP(gr,t,d,p,i+1) == wP(gr,t,d,p,i) + U(gr,t,wR(gr,t,d,p,i),wP(gr,t,d,p,i),wF(gr,t,d,p,i))
  && wF(gr,t,d,p,i+1) == nextF(gr,t,wR(gr,t,d,p,i),wP(gr,t,d,p,i),wF(gr,t,d,p,i))
// the parse that has got to p goes on to the end of the text
func wok(gr ref, t SI, d VS, p int, f int) bool
axiom wok_def: forall gr ref, t SI, d VS, p int, f int :: {wok(gr,t,d,p,f), smx(gr,t,d,p,f)} wok(gr,t,d,p,f) ==
  (p == len(t) || (goes(gr,t,d,p,f) && p + smx(gr,t,d,p,f) <= len(t) && wok(gr,t,d,p+smx(gr,t,d,p,f),nextF(gr,t,RL(gr,swit(gr,t,d,p,f)),p,f))))

def rooted(gr *Grammar) = forall n str :: {has(gr.rootRules,n)} has(gr.rootRules,n) ==> gr.rootRules[n] != nil && alloced(gr.rootRules[n]) && VR(gr.rootRules[n].rule)

contract Grammar.desc(gr) (s)
  requires gr != nil && rooted(gr) && RI()
  pure
  covers C14, C15, C21

// the nodes of l are the top of a tree of o, which is no node
def forest(l SI, o ref) = (forall i int :: {l[i]} 0 <= i && i < len(l) ==> VN(l[i]) && PA(l[i]) == o)
  && (forall i int, j int :: {l[i], l[j]} 0 <= i && i < j && j < len(l) ==> apart(l[i], l[j]))
// no root rule has a block with an escape
def plain(gr *Grammar) = forall n str :: {has(gr.rootRules,n)} has(gr.rootRules,n) ==> noesc(gr.rootRules[n].rule)

contract Grammar.EvalRaw(gr, cs) (ast, err)
  sem C12
  covers C21
  requires GI(gr) && rooted(gr)
  requires[C15] NI()
  requires[C13] TI() && TV()
  requires stream(cs)
  requires[lock] unlocked(cs)
  let T = text(cs)
  let p = CUR(cs)
  let d = dom(gr.rootRules)
  define forall n str :: {RL(gr,n)} RL(gr,n) == gr.rootRules[n].rule
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies NR, NQ, NF, VN, LO, HI, PA, OP, TX, TW, TB, TE where t :: false
  exitall[C13] TX t :: TX(t) && VN(t)
  ensures (ast == nil) == (err != nil)
  ensures[C12,C16] (err == nil) == (p < len(T) && wok(gr,T,d,p,SUGGEST_SKIP))
  ensures[C12,C16] err == nil ==> fresh(ast) && 0 < len(ast.Nodes) && wP(gr,T,d,p,len(ast.Nodes)) == len(T)
  ensures[C12,C16] err == nil ==> forall j int :: {ast.Nodes[j]} 0 <= j && j < len(ast.Nodes) ==> made(gr, ast.Nodes[j], wR(gr,T,d,p,j), wP(gr,T,d,p,j), wF(gr,T,d,p,j))
  ensures[C12] err == nil ==> forall j int :: {ast.Nodes[j]} 0 <= j && j < len(ast.Nodes) ==> goes(gr,T,d,wP(gr,T,d,p,j),wF(gr,T,d,p,j))
  ensures[C15] err == nil ==> forest(ast.Nodes, ast)
  ensures[C15] NI()
  ensures[C13] TI() && TV()
  ensures[C13] err == nil && plain(gr) ==> forall j int :: {ast.Nodes[j]} 0 <= j && j < len(ast.Nodes) ==> txt(ast.Nodes[j], T, wP(gr,T,d,p,j), wP(gr,T,d,p,j+1))
loop Grammar.EvalRaw#1
  let i = len(ast.Nodes)
  let z = wP(gr,T,d,p,len(ast.Nodes))
  let fz = wF(gr,T,d,p,len(ast.Nodes))
  inv stream(charstream) && unlocked(charstream)
  inv cs == charstream && p < len(T)
  inv p <= z && CUR(charstream) == z + len(charsUnused) && charsUnused == T[z:CUR(charstream)] && moved(charstream, CUR(charstream))
  inv flagLeadingSpaces == fz
  inv wok(gr,T,d,p,SUGGEST_SKIP) == wok(gr,T,d,z,fz)
  inv[C15] NI()
  inv[C13] TI()
  inv[C15] old(alloc) <= ast && ast < alloc
  inv[C15] forall j int :: {ast.Nodes[j]} 0 <= j && j < i ==> PA(ast.Nodes[j]) == ast && HI(ast.Nodes[j]) <= alloc
  inv[C15] forall j int, m int :: {ast.Nodes[j], ast.Nodes[m]} 0 <= j && j < m && m < i ==> HI(ast.Nodes[j]) <= LO(ast.Nodes[m])
  inv[C13] forall j int :: {ast.Nodes[j]} 0 <= j && j < i && plain(gr) ==> txt(ast.Nodes[j], T, wP(gr,T,d,p,j), wP(gr,T,d,p,j+1))
  end[C15] PA(ast.Nodes[len(ast.Nodes)-1]) = ast
  inv forall j int :: {ast.Nodes[j]} 0 <= j && j < i ==> made(gr, ast.Nodes[j], wR(gr,T,d,p,j), wP(gr,T,d,p,j), wF(gr,T,d,p,j))
  inv forall j int :: {ast.Nodes[j]} 0 <= j && j < i ==> goes(gr,T,d,wP(gr,T,d,p,j),wF(gr,T,d,p,j))
  inv forall j int :: {ast.Nodes[j]} 0 <= j && j < i ==> alloced(ast.Nodes[j]) && VN(ast.Nodes[j])
  using wR(gr,T,d,p,i), smx(gr,T,d,z,fz)
  decreases len(T) - z
loop Grammar.EvalRaw#2
  let z = wP(gr,T,d,p,len(ast.Nodes))
  let fz = wF(gr,T,d,p,len(ast.Nodes))
  inv stream(charstream) && unlocked(charstream)
  inv CUR(charstream) == z + len(maxCharsRead) && maxCharsRead == T[z:CUR(charstream)] && len(charsUnused) <= len(maxCharsRead) && moved(charstream, CUR(charstream))
  inv[C15] NI()
  inv[C13] TI()
  inv[C15] forall n str, j int :: {resultsMatched[n], ast.Nodes[j]} has(resultsMatched,n) && 0 <= j && j < len(ast.Nodes) ==> HI(ast.Nodes[j]) <= LO(resultsMatched[n].Node)
  inv[C13] forall n str :: {resultsMatched[n]} {has(resultsMatched,n)} has(resultsMatched,n) ==> gotx(resultsMatched[n], gr, T, RL(gr,n), fz)
  inv forall n str :: {has(resultsMatched,n)} has(resultsMatched,n) == (_vis[n] && M(gr,T,RL(gr,n),z,fz))
  inv forall n str :: {resultsMatched[n]} {has(resultsMatched,n)} has(resultsMatched,n) ==> got(resultsMatched[n], gr, T, RL(gr,n), z, fz, len(maxCharsRead)) && resultsMatched[n].Sticky == S(gr,T,RL(gr,n),z,fz)
  inv smx(gr,T,_vis,z,fz) == smx(gr,T,dom(resultsMatched),z,fz)
  inv stie(gr,T,_vis,z,fz) == stie(gr,T,dom(resultsMatched),z,fz)
  inv 0 <= smx(gr,T,_vis,z,fz) && !stie(gr,T,_vis,z,fz) ==> swit(gr,T,_vis,z,fz) == swit(gr,T,dom(resultsMatched),z,fz)
  inv forall n str :: {resultsError[n]} has(resultsError,n) ==> resultsError[n] != nil
loop Grammar.EvalRaw#3
  let z = wP(gr,T,d,p,len(ast.Nodes))
  let fz = wF(gr,T,d,p,len(ast.Nodes))
loop Grammar.EvalRaw#4
  inv result == nil ==> _i == 0
  inv 0 < _i ==> exists n str :: has(resultsMatched,n) && resultsMatched[n] == result
loop Grammar.EvalRaw#5
  let z = wP(gr,T,d,p,len(ast.Nodes))
  let fz = wF(gr,T,d,p,len(ast.Nodes))
  inv exists n str :: has(resultsMatched,n) && M(gr,T,RL(gr,n),z,fz) && 0 <= U(gr,T,RL(gr,n),z,fz)
  inv 0 <= smx(gr,T,dom(resultsMatched),z,fz)
  inv smx(gr,T,_vis,z,fz) == (if maxResult == nil then 0-1 else maxCountCharsUsed)
  inv 0 <= maxCountCharsUsed && (maxResult == nil ==> maxCountCharsUsed == 0)
  inv (tiedResult != nil) == stie(gr,T,_vis,z,fz)
  inv maxResult != nil ==> alloced(maxResult) && alloced(maxResult.Node)
  inv maxResult != nil && tiedResult == nil ==> maxResult == resultsMatched[swit(gr,T,_vis,z,fz)]
  inv tiedResult != nil ==> maxResult != nil && alloced(tiedResult) && alloced(tiedResult.Node)
