// Merging sticky nodes.
// mg(i): what is left of the first i nodes of l when each one that is sticky and no token is joined to the one before if
// that is sticky and no token, too; s, k: the flags of every node before
def joins(s RB, k RB, a ref, b ref) = s[a] && !k[a] && s[b] && !k[b]
func mg(s RB, k RB, l SI, i int) SI
axiom mg_0: forall s RB, k RB, l SI :: {mg(s,k,l,0)} mg(s,k,l,0) == emptyI
axiom mg_step: forall s RB, k RB, l SI, i int :: {mg(s,k,l,i), l[i]} 0 <= i && i < len(l) ==> mg(s,k,l,i+1) == (if 0 < i && joins(s,k,l[i-1],l[i]) then mg(s,k,l,i) else build(mg(s,k,l,i), l[i]))
// the nodes of l are children of o, or of no node
def ring(l SI, o ref) = (forall i int :: {l[i]} 0 <= i && i < len(l) ==> VN(l[i]) && PA(l[i]) == o && (VN(o) ==> under(l[i],o)))
  && (forall i int, j int :: {l[i], l[j]} 0 <= i && i < j && j < len(l) ==> apart(l[i], l[j]))
// none of the nodes in the trees is being changed
def shut(l SI) = forall i int, t ref :: {l[i], VN(t)} 0 <= i && i < len(l) && VN(t) && in(t,l[i]) ==> !OP(t)

contract MergeStickyNodes(nodes) (r)
  sem C19
  covers C15, C21
  let o = PA(nodes[0])
  requires NIo() && TI() && TV() && ring(nodes,o) && shut(nodes)
  requires 0 < len(nodes) && VN(o) ==> OP(o)
  decreases (if 0 < len(nodes) && VN(o) then HI(o) - LO(o) else alloc), 0
  modifies Node.ChildNodes, Node.Chars, Node.Sticky, TX, TE, OP where t :: VN(t) && (VN(o) ==> in(t,o) && t != o)
  ensures forall t ref :: {OP(t)} OP(t) == old(OP(t))
  ensures NIo()
  ensures TI() && TV()
  ensures ring(r,o)
  ensures r == mg(old(heapof(Node.Sticky)), heapof(Node.Tokenized), nodes, len(nodes))
  ensures old(contig(nodes)) && 0 < len(nodes) ==> contig(r) && 0 < len(r) && TW(r[0]) == TW(nodes[0]) && TB(r[0]) == TB(nodes[0]) && TE(r[len(r)-1]) == old(TE(nodes[len(nodes)-1]))
loop MergeStickyNodes#1
  inv forall t ref :: {OP(t)} OP(t) == old(OP(t))
  inv NIo()
  inv ring(nodes,o)
  inv prevNode != nil && TX(prevNode) ==> nows(prevNode.Chars) == TW(prevNode)[TB(prevNode):TE(prevNode)] && 0 <= TB(prevNode) && TB(prevNode) <= TE(prevNode) && TE(prevNode) <= len(TW(prevNode))
  inv prevNode != nil && TX(prevNode) ==> texted(prevNode)
  inv forall n ref :: {TX(n)} TX(n) && n != prevNode ==> alloced(n) && (!OP(n) ==> texted(n))
  inv TI()
  inv TV()
  inv ring(children,o)
  inv children == mg(old(heapof(Node.Sticky)), heapof(Node.Tokenized), nodes, _i)
  inv forall j int :: {nodes[j]} _i <= j && j < len(nodes) ==> Node(nodes[j]).Sticky == old(Node(nodes[j]).Sticky) && TE(nodes[j]) == old(TE(nodes[j])) && TX(nodes[j]) == old(TX(nodes[j]))
  inv forall i int, j int :: {children[i], nodes[j]} 0 <= i && i < len(children) && _i <= j && j < len(nodes) ==> apart(children[i], nodes[j])
  inv prevNode != nil ==> 0 < _i && 0 < len(children) && prevNode == children[len(children)-1] && prevNode.Sticky && len(prevNode.ChildNodes) == 0 && !eofText(prevNode.Chars)
  inv prevNode != nil ==> old(Node(nodes[_i-1]).Sticky) && prevNode.Tokenized == Node(nodes[_i-1]).Tokenized
  inv prevNode == nil && 0 < _i ==> !old(Node(nodes[_i-1]).Sticky)
  inv 0 < _i ==> 0 < len(children)
  inv old(contig(nodes)) && 0 < _i ==> contig(children) && TW(children[0]) == TW(nodes[0])
  inv old(contig(nodes)) && 0 < _i ==> TB(children[0]) == TB(nodes[0])
  inv old(contig(nodes)) && 0 < _i ==> TE(children[len(children)-1]) == old(TE(nodes[_i-1]))
  end TX(prevNode) = false when prevNode != nil && prevNode != node && !(TX(node) && TW(node) == TW(prevNode) && TB(node) == TE(prevNode))
  end TE(prevNode) = TE(node) when prevNode != nil

contract Node.MergeStickyNodes(n) ()
  sem C19
  covers C15, C21
  requires NIo() && TI() && TV() && VN(n) && settled(n)
  decreases HI(n) - LO(n), 1
  modifies Node.ChildNodes, Node.Sticky, OP where t :: VN(t) && in(t,n)
  modifies Node.Chars, TX, TE where t :: VN(t) && in(t,n) && t != n
  entry OP(n) = true when n.RuleType != TypeBlock
  exit OP(n) = false
  ensures forall t ref :: {OP(t)} OP(t) == old(OP(t))
  hint TX(n) ==> texted(n)
  hint kids(Node(n).ChildNodes, n)
  ensures NIo()
  ensures TI() && TV()
  ensures n.ChildNodes == (if n.RuleType == TypeBlock then old(n.ChildNodes) else mg(old(heapof(Node.Sticky)), heapof(Node.Tokenized), old(n.ChildNodes), len(old(n.ChildNodes))))
loop Node.MergeStickyNodes#1
  inv n.RuleType == TypeBlock
  inv forall t ref :: {OP(t)} OP(t) == old(OP(t))
  inv NIo()
  inv TI()
  inv TV()
  inv inst.ChildNodes == old(n.ChildNodes)

contract AST.MergeStickyNodes(a) ()
  sem C19
  covers C15, C21
  requires NI() && TI() && TV() && (a != nil ==> forest(a.Nodes, a) && !VN(a))
  modifies Node.ChildNodes, Node.Chars, Node.Sticky, TX, TE, OP where t :: VN(t)
  modifies AST.Nodes where t :: t == a
  ensures NI()
  ensures TI() && TV()
  ensures a != nil ==> forest(a.Nodes, a)
  ensures a != nil ==> a.Nodes == mg(old(heapof(Node.Sticky)), heapof(Node.Tokenized), old(a.Nodes), len(old(a.Nodes)))
  ensures a != nil && old(contig(a.Nodes)) && 0 < len(old(a.Nodes)) ==> contig(a.Nodes) && 0 < len(a.Nodes) && TW(a.Nodes[0]) == old(TW(a.Nodes[0])) && TB(a.Nodes[0]) == old(TB(a.Nodes[0])) && TE(a.Nodes[len(a.Nodes)-1]) == old(TE(a.Nodes[len(a.Nodes)-1]))
