// Embedded evaluation: the text is cut into matches of a rule and text in between.
// hit: the rule matches some text at z; nx(z): the next index after z where it does, or the end of the text
// eP(j): where the j-th part begins
def hit(gr ref, t SI, r ref, z int) = M(gr,t,r,z,NOT_SKIP) && 0 < U(gr,t,r,z,NOT_SKIP)
func nx(gr ref, t SI, r ref, z int) int
axiom nx_def: forall gr ref, t SI, r ref, z int :: {nx(gr,t,r,z)} 0 <= z && z < len(t) ==> z < nx(gr,t,r,z) && nx(gr,t,r,z) <= len(t) && (nx(gr,t,r,z) < len(t) ==> hit(gr,t,r,nx(gr,t,r,z)))
axiom nx_min: forall gr ref, t SI, r ref, z int, i int :: {nx(gr,t,r,z), M(gr,t,r,i,NOT_SKIP)} 0 <= z && z < i && i < nx(gr,t,r,z) && z < len(t) ==> !hit(gr,t,r,i)
func eP(gr ref, t SI, r ref, j int) int
func eG(gr ref, t SI, r ref, j int) bool
axiom eP_0: forall gr ref, t SI, r ref :: {eP(gr,t,r,0)} eP(gr,t,r,0) == 0
axiom eP_step: forall gr ref, t SI, r ref, j int :: {eG(gr,t,r,j)} 0 <= j ==>
  eG(gr,t,r,j) == hit(gr,t,r,eP(gr,t,r,j)) &&
  eP(gr,t,r,j+1) == (if eG(gr,t,r,j) then eP(gr,t,r,j) + U(gr,t,r,eP(gr,t,r,j),NOT_SKIP) else nx(gr,t,r,eP(gr,t,r,j)))

// every rule of the grammar is a rule
def defd(gr *Grammar) = forall n str :: {gr.ruleRecords[n]} gr.ruleRecords[n] != nil ==> alloced(gr.ruleRecords[n]) && VR(gr.ruleRecords[n].rule)
// what a part of the result of an embedded evaluation is
def isPart(gr ref, t SI, r ref, c *Node, j int) = if eG(gr,t,r,j) then made(gr, c, r, eP(gr,t,r,j), NOT_SKIP)
  else c.RuleType == TypeText && c.Chars == t[eP(gr,t,r,j):eP(gr,t,r,j+1)] && len(c.ChildNodes) == 0

contract Grammar.EvalEmbed(gr, name, s) (res)
  sem C25
  covers C14, C21
  requires GI(gr) && defd(gr)
  requires[C15] NI()
  requires[C13] TI()
  let T = runesOf(s)
  let rec = gr.ruleRecords[name]
  let q = gr.ruleRecords[name].rule
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: false
  modifies NR, NQ, NF, VN, LO, HI, PA, OP, TX, TW, TB, TE where t :: false
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit LO(res.Node.ChildNodes[len(res.Node.ChildNodes)-1]) = res.Node.ChildNodes[len(res.Node.ChildNodes)-1] when res.Node != nil && 0 < len(res.Node.ChildNodes) && !VN(res.Node.ChildNodes[len(res.Node.ChildNodes)-1])
  exit HI(res.Node.ChildNodes[len(res.Node.ChildNodes)-1]) = res.Node.ChildNodes[len(res.Node.ChildNodes)-1] + 1 when res.Node != nil && 0 < len(res.Node.ChildNodes) && !VN(res.Node.ChildNodes[len(res.Node.ChildNodes)-1])
  exit OP(res.Node.ChildNodes[len(res.Node.ChildNodes)-1]) = false when res.Node != nil && 0 < len(res.Node.ChildNodes) && !VN(res.Node.ChildNodes[len(res.Node.ChildNodes)-1])
  exit PA(res.Node.ChildNodes[len(res.Node.ChildNodes)-1]) = res.Node when res.Node != nil && 0 < len(res.Node.ChildNodes)
  exit VN(res.Node.ChildNodes[len(res.Node.ChildNodes)-1]) = true when res.Node != nil && 0 < len(res.Node.ChildNodes)
  exit VN(res.Node) = true when res.Node != nil
  hint[C15] res.Node != nil ==> tree(res.Node)
  ensures[C15] res.Node != nil ==> VN(res.Node)
  ensures fresh(res)
  ensures[C25] (rec == nil) == (res.Error != nil) && (rec == nil) == (res.Node == nil)
  ensures[C25] rec != nil ==> res.Node.RuleType == TypeEmbed && eP(gr,T,q,len(res.Node.ChildNodes)) == len(T)
  ensures[C25] rec != nil ==> forall j int :: {res.Node.ChildNodes[j]} 0 <= j && j < len(res.Node.ChildNodes) ==> isPart(gr,T,q,res.Node.ChildNodes[j],j) && eP(gr,T,q,j) < eP(gr,T,q,j+1)
  ensures[C15] NI()
  ensures[C13] TI()
loop Grammar.EvalEmbed#1
  let k = len(node.ChildNodes)
  let z = eP(gr,T,q,k)
  inv text(cs) == T && stream(cs) && unlocked(cs)
  inv forall t ref :: {chain(cs,t)} chain(cs,t) ==> fresh(t)
  inv evalResult.Error == nil && evalResult.Node == node && node.RuleType == TypeEmbed && !VN(node)
  inv[C15] NI()
  inv[C13] TI()
  inv[C15] old(alloc) <= node && node < alloc
  inv[C15] forall j int :: {node.ChildNodes[j]} 0 <= j && j < k ==> VN(node.ChildNodes[j]) && PA(node.ChildNodes[j]) == node && node < LO(node.ChildNodes[j]) && HI(node.ChildNodes[j]) <= alloc
  inv[C15] forall i int, j int :: {node.ChildNodes[i], node.ChildNodes[j]} 0 <= i && i < j && j < k ==> apart(node.ChildNodes[i], node.ChildNodes[j])
  end[C15] LO(node.ChildNodes[len(node.ChildNodes)-2]) = node.ChildNodes[len(node.ChildNodes)-2] when 1 < len(node.ChildNodes) && !VN(node.ChildNodes[len(node.ChildNodes)-2])
  end[C15] HI(node.ChildNodes[len(node.ChildNodes)-2]) = node.ChildNodes[len(node.ChildNodes)-2] + 1 when 1 < len(node.ChildNodes) && !VN(node.ChildNodes[len(node.ChildNodes)-2])
  end[C15] OP(node.ChildNodes[len(node.ChildNodes)-2]) = false when 1 < len(node.ChildNodes) && !VN(node.ChildNodes[len(node.ChildNodes)-2])
  end[C15] PA(node.ChildNodes[len(node.ChildNodes)-2]) = node when 1 < len(node.ChildNodes)
  end[C15] VN(node.ChildNodes[len(node.ChildNodes)-2]) = true when 1 < len(node.ChildNodes)
  end[C15] PA(node.ChildNodes[len(node.ChildNodes)-1]) = node when 0 < len(node.ChildNodes)
  inv 0 <= z && z <= CUR(cs) && text == T[z:CUR(cs)]
  inv forall i int :: {M(gr,T,q,i,NOT_SKIP)} z <= i && i < CUR(cs) ==> !hit(gr,T,q,i)
  inv forall j int :: {node.ChildNodes[j]} 0 <= j && j < k ==> alloced(node.ChildNodes[j]) && isPart(gr,T,q,node.ChildNodes[j],j)
  inv forall j int :: {node.ChildNodes[j]} 0 <= j && j < k ==> eP(gr,T,q,j) < eP(gr,T,q,j+1)
  using eG(gr,T,q,k), eG(gr,T,q,k+1), nx(gr,T,q,z), M(gr,T,q,z,NOT_SKIP)
  decreases len(T) - CUR(cs)

contract Grammar.EvalRule(gr, name, s) (res)
  sem C06
  requires GI(gr) && defd(gr)
  requires[C15] NI()
  requires[C13] TI()
  let T = runesOf(s)
  let rec = gr.ruleRecords[name]
  let q = gr.ruleRecords[name].rule
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: false
  modifies NR, NQ, NF, VN, LO, HI, PA, OP, TX, TW, TB, TE where t :: false
  covers C14, C21
  ensures fresh(res)
  ensures[C15] res.Node != nil ==> VN(res.Node)
  ensures[C06] rec == nil ==> res.Error != nil && res.Node == nil
  ensures[C06] rec != nil ==> (res.Node != nil) == M(gr,T,q,0,SUGGEST_SKIP) && 0 <= nused(res) && nread(res) <= len(T)
  ensures[C06] rec != nil && res.Node != nil ==> made(gr, res.Node, q, 0, SUGGEST_SKIP) && nused(res) == U(gr,T,q,0,SUGGEST_SKIP)
  ensures[C06] rec != nil ==> res.CharsRead == T[0:nread(res)] && res.CharsUnused == T[nused(res):nread(res)]
  ensures[C15] NI()
  ensures[C13] TI()
