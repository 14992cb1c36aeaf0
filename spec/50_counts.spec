// Counting the nodes of a tree. kids: the children of every node, sticky: its flag.
// cn, ct, cs: number of nodes, leaves and sticky nodes of the tree rooted at a node; cns, cts, css: of the first i trees of a list
func cn(kids RS, n ref) int
func ct(kids RS, n ref) int
func cs(kids RS, sticky RB, n ref) int
func cns(kids RS, l SI, i int) int
func cts(kids RS, l SI, i int) int
func css(kids RS, sticky RB, l SI, i int) int
axiom cns_0: forall k RS, l SI :: {cns(k,l,0)} cns(k,l,0) == 0
axiom cts_0: forall k RS, l SI :: {cts(k,l,0)} cts(k,l,0) == 0
axiom css_0: forall k RS, s RB, l SI :: {css(k,s,l,0)} css(k,s,l,0) == 0
axiom cns_step: forall k RS, l SI, i int :: {cns(k,l,i), l[i]} 0 <= i && i < len(l) ==> cns(k,l,i+1) == cns(k,l,i) + cn(k,l[i])
axiom cts_step: forall k RS, l SI, i int :: {cts(k,l,i), l[i]} 0 <= i && i < len(l) ==> cts(k,l,i+1) == cts(k,l,i) + ct(k,l[i])
axiom css_step: forall k RS, s RB, l SI, i int :: {css(k,s,l,i), l[i]} 0 <= i && i < len(l) ==> css(k,s,l,i+1) == css(k,s,l,i) + cs(k,s,l[i])
// the nodes of a list are trees
def trees(l SI) = forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && VN(l[i])

contract Node.CountNodes(n) (c)
  sem C28
  requires NI() && (n != nil ==> VN(n))
  decreases HI(n) - LO(n)
  pure
  define n != nil ==> cn(heapof(Node.ChildNodes), n) == 1 + cns(heapof(Node.ChildNodes), n.ChildNodes, len(n.ChildNodes))
  define cn(heapof(Node.ChildNodes), nil) == 0
  ensures[C28] c == cn(heapof(Node.ChildNodes), n)
loop Node.CountNodes#1
  inv count == 1 + cns(heapof(Node.ChildNodes), inst.ChildNodes, _i)
contract Node.CountTokens(n) (c)
  sem C28
  requires NI() && (n != nil ==> VN(n))
  decreases HI(n) - LO(n)
  pure
  define n != nil ==> ct(heapof(Node.ChildNodes), n) == (if len(n.ChildNodes) == 0 then 1 else cts(heapof(Node.ChildNodes), n.ChildNodes, len(n.ChildNodes)))
  define ct(heapof(Node.ChildNodes), nil) == 0
  ensures[C28] c == ct(heapof(Node.ChildNodes), n)
loop Node.CountTokens#1
  inv count == cts(heapof(Node.ChildNodes), inst.ChildNodes, _i)
contract Node.CountStickyNodes(n) (c)
  sem C28
  requires NI() && (n != nil ==> VN(n))
  decreases HI(n) - LO(n)
  pure
  define n != nil ==> cs(heapof(Node.ChildNodes), heapof(Node.Sticky), n) == (if n.Sticky then 1 else 0) + css(heapof(Node.ChildNodes), heapof(Node.Sticky), n.ChildNodes, len(n.ChildNodes))
  define cs(heapof(Node.ChildNodes), heapof(Node.Sticky), nil) == 0
  ensures[C28] c == cs(heapof(Node.ChildNodes), heapof(Node.Sticky), n)
loop Node.CountStickyNodes#1
  inv count == (if inst.Sticky then 1 else 0) + css(heapof(Node.ChildNodes), heapof(Node.Sticky), inst.ChildNodes, _i)

contract AST.CountNodes(a) (c)
  sem C28
  requires NI() && (a != nil ==> trees(a.Nodes))
  pure
  ensures[C28] c == (if a == nil then 0 else cns(heapof(Node.ChildNodes), a.Nodes, len(a.Nodes)))
loop AST.CountNodes#1
  inv count == cns(heapof(Node.ChildNodes), inst.Nodes, _i)
contract AST.CountTokens(a) (c)
  sem C28
  requires NI() && (a != nil ==> trees(a.Nodes))
  pure
  ensures[C28] c == (if a == nil then 0 else cts(heapof(Node.ChildNodes), a.Nodes, len(a.Nodes)))
loop AST.CountTokens#1
  inv count == cts(heapof(Node.ChildNodes), inst.Nodes, _i)
contract AST.CountStickyNodes(a) (c)
  sem C28
  requires NI() && (a != nil ==> trees(a.Nodes))
  pure
  ensures[C28] c == (if a == nil then 0 else css(heapof(Node.ChildNodes), heapof(Node.Sticky), a.Nodes, len(a.Nodes)))
loop AST.CountStickyNodes#1
  inv count == css(heapof(Node.ChildNodes), heapof(Node.Sticky), inst.Nodes, _i)

// the trees of a list hold the text without a gap
def contig(l SI) = (forall i int :: {l[i]} 0 <= i && i < len(l) ==> TX(l[i]) && TW(l[i]) == TW(l[0]))
  && (forall i int, j int :: {l[i], l[j]} 0 <= i && j == i + 1 && j < len(l) ==> TE(l[i]) == TB(l[j]))
contract AST.Text(a) (r)
  requires NI() && (a != nil ==> trees(a.Nodes))
  requires[C13] TI()
  pure
  covers C13, C15, C19
  ensures[C13,C19] a != nil && contig(a.Nodes) ==> (if len(a.Nodes) == 0 then len(r) == 0 else nows(r) == TW(a.Nodes[0])[TB(a.Nodes[0]):TE(a.Nodes[len(a.Nodes)-1])])
loop AST.Text#1
  inv _i == 0 ==> len(text) == 0
  inv[C13,C19] contig(inst.Nodes) && 0 < _i ==> TX(inst.Nodes[_i-1]) && TW(inst.Nodes[_i-1]) == TW(inst.Nodes[0]) && TB(inst.Nodes[0]) <= TE(inst.Nodes[_i-1]) && TE(inst.Nodes[_i-1]) <= len(TW(inst.Nodes[0])) && 0 <= TB(inst.Nodes[0])
  inv[C13,C19] contig(inst.Nodes) && 0 < _i && _i < len(inst.Nodes) ==> TX(inst.Nodes[_i]) && TW(inst.Nodes[_i]) == TW(inst.Nodes[0]) && TB(inst.Nodes[_i]) == TE(inst.Nodes[_i-1])
  inv[C13,C19] contig(inst.Nodes) && 0 < _i ==> nows(text) == TW(inst.Nodes[0])[TB(inst.Nodes[0]):TE(inst.Nodes[_i-1])]
