// Removing the virtual nodes and the nodes that are no data: exactly those go, at every depth.

// ---- virtual nodes
// fV(k): what is left of the first k nodes of l when those marked are removed; mark: the mark of every node
func fV(mark RB, l SI, k int) SI
axiom fV_0: forall m RB, l SI :: {fV(m,l,0)} fV(m,l,0) == emptyI
axiom fV_step: forall m RB, l SI, k int :: {fV(m,l,k), l[k]} 0 <= k && k < len(l) ==> fV(m,l,k+1) == (if m[l[k]] then fV(m,l,k) else build(fV(m,l,k), l[k]))
lemma fV_none induct k using fV(m,l,k-1), l[k-1], l[0:k-1]: forall m RB, l SI, k int :: {fV(m,l,k)} 0 <= k && k <= len(l) && (forall i int :: {l[i]} 0 <= i && i < k ==> !m[l[i]]) ==> fV(m,l,k) == l[0:k]
// DV(n): no node below n is marked
ghost DV bool
def DVI() = forall n ref :: {DV(n)} DV(n) ==> VN(n) && (forall i int :: {Node(n).ChildNodes[i]} 0 <= i && i < len(Node(n).ChildNodes) ==> !Node(Node(n).ChildNodes[i]).Virtual && DV(Node(n).ChildNodes[i]))
contract Node.RemoveVirtualNodes(n) ()
  sem C18
  covers C15, C21
  requires NI() && VN(n) && DVI()
  decreases HI(n) - LO(n)
  modifies Node.ChildNodes, DV where t :: in(t,n) && VN(t)
  exit DV(n) = true
  ensures NI() && DVI() && DV(n)
  ensures forall t ref :: {VN(t)} VN(t) && in(t,n) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fV(heapof(Node.Virtual), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))
  ensures Node(n).ChildNodes == fV(heapof(Node.Virtual), old(Node(n).ChildNodes), len(old(Node(n).ChildNodes)))
loop Node.RemoveVirtualNodes#1
  let L = inst.ChildNodes
  inv NI() && DVI()
  inv inst.ChildNodes == old(n.ChildNodes)
  inv nonVirtual == fV(heapof(Node.Virtual), inst.ChildNodes, _i)
  inv forall i int :: {nonVirtual[i]} 0 <= i && i < len(nonVirtual) ==> VN(nonVirtual[i]) && PA(nonVirtual[i]) == inst && under(nonVirtual[i], inst) && !Node(nonVirtual[i]).Virtual && DV(nonVirtual[i])
  inv forall i int, j int :: {nonVirtual[i], inst.ChildNodes[j]} 0 <= i && i < len(nonVirtual) && _i <= j && j < len(inst.ChildNodes) ==> apart(nonVirtual[i], inst.ChildNodes[j])
  inv forall i int, j int :: {nonVirtual[i], nonVirtual[j]} 0 <= i && i < j && j < len(nonVirtual) ==> apart(nonVirtual[i], nonVirtual[j])
  inv forall t ref, j int :: {VN(t), inst.ChildNodes[j]} VN(t) && _i <= j && j < len(inst.ChildNodes) && in(t, inst.ChildNodes[j]) ==> Node(t).ChildNodes == old(Node(t).ChildNodes)
  inv forall t ref :: {VN(t)} VN(t) && in(t,n) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fV(heapof(Node.Virtual), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))

contract AST.RemoveVirtualNodes(a) ()
  sem C18
  covers C15, C21
  requires NI() && a != nil && forest(a.Nodes, a) && !VN(a)
  modifies Node.ChildNodes where t :: VN(t)
  modifies DV, TX where t :: true
  entryall DV t :: false
  exitall TX t :: false
  modifies AST.Nodes where t :: t == a
  ensures NI() && DVI() && forest(a.Nodes, a)
  ensures TI() && TV()
  ensures a.Nodes == fV(heapof(Node.Virtual), old(a.Nodes), len(old(a.Nodes)))
  ensures forall i int :: {a.Nodes[i]} 0 <= i && i < len(a.Nodes) ==> !Node(a.Nodes[i]).Virtual && DV(a.Nodes[i])
  ensures forall t ref :: {VN(t)} VN(t) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fV(heapof(Node.Virtual), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))
loop AST.RemoveVirtualNodes#1
  inv NI() && DVI()
  inv inst.Nodes == old(a.Nodes)
  inv nonVirtual == fV(heapof(Node.Virtual), inst.Nodes, _i)
  inv forall i int :: {nonVirtual[i]} 0 <= i && i < len(nonVirtual) ==> VN(nonVirtual[i]) && PA(nonVirtual[i]) == inst && !Node(nonVirtual[i]).Virtual && DV(nonVirtual[i])
  inv forall i int, j int :: {nonVirtual[i], inst.Nodes[j]} 0 <= i && i < len(nonVirtual) && _i <= j && j < len(inst.Nodes) ==> apart(nonVirtual[i], inst.Nodes[j])
  inv forall i int, j int :: {nonVirtual[i], nonVirtual[j]} 0 <= i && i < j && j < len(nonVirtual) ==> apart(nonVirtual[i], nonVirtual[j])
  inv forall t ref, j int :: {VN(t), inst.Nodes[j]} VN(t) && _i <= j && j < len(inst.Nodes) && in(t, inst.Nodes[j]) ==> Node(t).ChildNodes == old(Node(t).ChildNodes)
  inv forall t ref :: {VN(t)} VN(t) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fV(heapof(Node.Virtual), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))

// ---- nodes that are no data
// fD(k): what is left of the first k nodes of l when those marked are removed; mark: the mark of every node
func fD(mark RB, l SI, k int) SI
axiom fD_0: forall m RB, l SI :: {fD(m,l,0)} fD(m,l,0) == emptyI
axiom fD_step: forall m RB, l SI, k int :: {fD(m,l,k), l[k]} 0 <= k && k < len(l) ==> fD(m,l,k+1) == (if m[l[k]] then fD(m,l,k) else build(fD(m,l,k), l[k]))
lemma fD_none induct k using fD(m,l,k-1), l[k-1], l[0:k-1]: forall m RB, l SI, k int :: {fD(m,l,k)} 0 <= k && k <= len(l) && (forall i int :: {l[i]} 0 <= i && i < k ==> !m[l[i]]) ==> fD(m,l,k) == l[0:k]
// DD(n): no node below n is marked
ghost DD bool
def DDI() = forall n ref :: {DD(n)} DD(n) ==> VN(n) && (forall i int :: {Node(n).ChildNodes[i]} 0 <= i && i < len(Node(n).ChildNodes) ==> !Node(Node(n).ChildNodes[i]).NonData && DD(Node(n).ChildNodes[i]))
contract Node.RemoveNonDataNodes(n) ()
  sem C18
  covers C15, C21
  requires NI() && VN(n) && DDI()
  decreases HI(n) - LO(n)
  modifies Node.ChildNodes, DD where t :: in(t,n) && VN(t)
  exit DD(n) = true
  ensures NI() && DDI() && DD(n)
  ensures forall t ref :: {VN(t)} VN(t) && in(t,n) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fD(heapof(Node.NonData), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))
  ensures Node(n).ChildNodes == fD(heapof(Node.NonData), old(Node(n).ChildNodes), len(old(Node(n).ChildNodes)))
loop Node.RemoveNonDataNodes#1
  let L = inst.ChildNodes
  inv NI() && DDI()
  inv inst.ChildNodes == old(n.ChildNodes)
  inv dataNodes == fD(heapof(Node.NonData), inst.ChildNodes, _i)
  inv forall i int :: {dataNodes[i]} 0 <= i && i < len(dataNodes) ==> VN(dataNodes[i]) && PA(dataNodes[i]) == inst && under(dataNodes[i], inst) && !Node(dataNodes[i]).NonData && DD(dataNodes[i])
  inv forall i int, j int :: {dataNodes[i], inst.ChildNodes[j]} 0 <= i && i < len(dataNodes) && _i <= j && j < len(inst.ChildNodes) ==> apart(dataNodes[i], inst.ChildNodes[j])
  inv forall i int, j int :: {dataNodes[i], dataNodes[j]} 0 <= i && i < j && j < len(dataNodes) ==> apart(dataNodes[i], dataNodes[j])
  inv forall t ref, j int :: {VN(t), inst.ChildNodes[j]} VN(t) && _i <= j && j < len(inst.ChildNodes) && in(t, inst.ChildNodes[j]) ==> Node(t).ChildNodes == old(Node(t).ChildNodes)
  inv forall t ref :: {VN(t)} VN(t) && in(t,n) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fD(heapof(Node.NonData), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))

contract AST.RemoveNonDataNodes(a) ()
  sem C18
  covers C15, C21
  requires NI() && a != nil && forest(a.Nodes, a) && !VN(a)
  modifies Node.ChildNodes where t :: VN(t)
  modifies DD, TX where t :: true
  entryall DD t :: false
  exitall TX t :: false
  modifies AST.Nodes where t :: t == a
  ensures NI() && DDI() && forest(a.Nodes, a)
  ensures TI() && TV()
  ensures a.Nodes == fD(heapof(Node.NonData), old(a.Nodes), len(old(a.Nodes)))
  ensures forall i int :: {a.Nodes[i]} 0 <= i && i < len(a.Nodes) ==> !Node(a.Nodes[i]).NonData && DD(a.Nodes[i])
  ensures forall t ref :: {VN(t)} VN(t) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fD(heapof(Node.NonData), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))
loop AST.RemoveNonDataNodes#1
  inv NI() && DDI()
  inv inst.Nodes == old(a.Nodes)
  inv dataNodes == fD(heapof(Node.NonData), inst.Nodes, _i)
  inv forall i int :: {dataNodes[i]} 0 <= i && i < len(dataNodes) ==> VN(dataNodes[i]) && PA(dataNodes[i]) == inst && !Node(dataNodes[i]).NonData && DD(dataNodes[i])
  inv forall i int, j int :: {dataNodes[i], inst.Nodes[j]} 0 <= i && i < len(dataNodes) && _i <= j && j < len(inst.Nodes) ==> apart(dataNodes[i], inst.Nodes[j])
  inv forall i int, j int :: {dataNodes[i], dataNodes[j]} 0 <= i && i < j && j < len(dataNodes) ==> apart(dataNodes[i], dataNodes[j])
  inv forall t ref, j int :: {VN(t), inst.Nodes[j]} VN(t) && _i <= j && j < len(inst.Nodes) && in(t, inst.Nodes[j]) ==> Node(t).ChildNodes == old(Node(t).ChildNodes)
  inv forall t ref :: {VN(t)} VN(t) ==> Node(t).ChildNodes == old(Node(t).ChildNodes) || Node(t).ChildNodes == fD(heapof(Node.NonData), old(Node(t).ChildNodes), len(old(Node(t).ChildNodes)))
