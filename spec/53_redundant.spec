// Removing redundant nodes keeps the text: of a node whose children go up one level nothing is left in the tree.
contract Node.RemoveRedundantNodes(n) ()
  sem C19
  covers C15, C21
  requires NIo() && TI() && TV() && VN(n) && settled(n)
  decreases HI(n) - LO(n)
  modifies Node.ChildNodes, Node.Chars, OP where t :: VN(t) && in(t,n)
  modifies VN, PA, TX where t :: VN(t) && in(t,n) && t != n
  ensures forall t ref :: {OP(t)} OP(t) == old(OP(t))
  ensures forall t ref :: {VN(t)} VN(t) ==> old(VN(t))
  entry OP(n) = true
  exit OP(n) = false
  hint TX(n) ==> texted(n)
  hint kids(Node(n).ChildNodes, n)
  ensures NIo()
  ensures TI()
  ensures TV()
loop Node.RemoveRedundantNodes#1
  inv forall t ref :: {VN(t)} VN(t) ==> old(VN(t))
  inv NIo()
  inv TI()
  inv TV()
  inv inst.ChildNodes == old(n.ChildNodes) && inst.Chars == old(n.Chars)
  inv ring(inst.ChildNodes, inst)
  inv forall t ref :: {OP(t)} OP(t) == (t == n || old(OP(t)))
  inv TX(inst) ==> (0 < len(inst.ChildNodes) ==> len(inst.Chars) == 0) && 0 <= TB(inst) && TB(inst) <= TE(inst) && TE(inst) <= len(TW(inst)) && texts(inst.ChildNodes, TW(inst), TB(inst), TE(inst))
loop Node.RemoveRedundantNodes#2
  inv forall t ref :: {VN(t)} VN(t) ==> old(VN(t))
  inv NIo()
  inv TI()
  inv TV()
  inv VN(inst) && TX(inst) == old(TX(n))
  inv forall t ref :: {OP(t)} OP(t) == (t == n || old(OP(t)))
  inv forall j int :: {inst.ChildNodes[j]} _i <= j && j < len(inst.ChildNodes) ==> VN(inst.ChildNodes[j]) && under(inst.ChildNodes[j], inst)
  inv forall j int :: {inst.ChildNodes[j]} _i <= j && j < len(inst.ChildNodes) ==> PA(inst.ChildNodes[j]) == inst || (PA(PA(inst.ChildNodes[j])) == inst && under(inst.ChildNodes[j], PA(inst.ChildNodes[j])) && under(PA(inst.ChildNodes[j]), inst) && in(PA(inst.ChildNodes[j]), inst))
  inv forall j int, t ref :: {inst.ChildNodes[j], PA(t)} _i <= j && j < len(inst.ChildNodes) && t == PA(inst.ChildNodes[j]) ==> old(VN(t))
  inv forall i int, j int :: {inst.ChildNodes[i], inst.ChildNodes[j]} _i <= i && i < j && j < len(inst.ChildNodes) ==> PA(inst.ChildNodes[i]) == PA(inst.ChildNodes[j])
  inv forall i int, j int :: {inst.ChildNodes[i], inst.ChildNodes[j]} 0 <= i && i < j && j < len(inst.ChildNodes) ==> apart(inst.ChildNodes[i], inst.ChildNodes[j])
  inv forall i int :: {children[i]} 0 <= i && i < len(children) ==> VN(children[i]) && PA(children[i]) == inst && under(children[i], inst)
  inv forall i int, j int :: {children[i], inst.ChildNodes[j]} 0 <= i && i < len(children) && _i <= j && j < len(inst.ChildNodes) ==> apart(children[i], inst.ChildNodes[j])
  inv forall i int, j int :: {children[i], children[j]} 0 <= i && i < j && j < len(children) ==> apart(children[i], children[j])
  inv TX(inst) ==> 0 <= TB(inst) && TB(inst) <= TE(inst) && TE(inst) <= len(TW(inst))
  inv TX(inst) && len(inst.Chars) == 0 ==> forall j int :: {inst.ChildNodes[j]} _i <= j && j < len(inst.ChildNodes) ==> TX(inst.ChildNodes[j])
  inv TX(inst) && len(inst.Chars) == 0 ==> forall j int :: {inst.ChildNodes[j]} 0 <= j && j < len(inst.ChildNodes) ==> TW(inst.ChildNodes[j]) == TW(inst) && (j == 0 ==> TB(inst.ChildNodes[j]) == TB(inst)) && (j == len(inst.ChildNodes)-1 ==> TE(inst.ChildNodes[j]) == TE(inst))
  inv TX(inst) && len(inst.Chars) == 0 ==> forall i int, j int :: {inst.ChildNodes[i], inst.ChildNodes[j]} 0 <= i && j == i + 1 && j < len(inst.ChildNodes) ==> TE(inst.ChildNodes[i]) == TB(inst.ChildNodes[j])
  inv TX(inst) && len(inst.Chars) == 0 && len(inst.ChildNodes) == 0 ==> TB(inst) == TE(inst)
  inv TX(inst) && len(inst.Chars) == 0 ==> texts(children, TW(inst), TB(inst), (if _i == 0 then TB(inst) else TE(inst.ChildNodes[_i-1])))
  inv TX(inst) && 0 < len(inst.Chars) ==> len(inst.ChildNodes) == 0 && (if eofText(inst.Chars) then TB(inst) == TE(inst) else nows(inst.Chars) == TW(inst)[TB(inst):TE(inst)])
  inv len(inst.ChildNodes) == 0 ==> len(children) == 0
  end VN(PA(child)) = false when PA(child) != inst
  end TX(PA(child)) = false when PA(child) != inst
  end PA(child) = inst
  endall PA t :: if len(children) > 0 && child.RuleName == "" && len(child.ChildNodes) > 0 && children[len(children)-1] == child.ChildNodes[len(child.ChildNodes)-1] && VN(t) && in(t,child) && PA(t) == child then inst else PA(t)
  end TX(child) = false when len(children) > 0 && child.RuleName == "" && len(child.ChildNodes) > 0 && children[len(children)-1] == child.ChildNodes[len(child.ChildNodes)-1]
  end VN(child) = false when len(children) > 0 && child.RuleName == "" && len(child.ChildNodes) > 0 && children[len(children)-1] == child.ChildNodes[len(child.ChildNodes)-1]

contract AST.RemoveRedundantNodes(a) ()
  sem C19
  covers C15, C21
  requires NI() && TI() && TV() && a != nil && forest(a.Nodes, a)
  modifies Node.ChildNodes, Node.Chars, OP where t :: VN(t)
  modifies VN, PA, TX where t :: VN(t)
  ensures NI()
  ensures TI()
  ensures TV()
  ensures forest(a.Nodes, a)
  ensures old(contig(a.Nodes)) ==> contig(a.Nodes)
loop AST.RemoveRedundantNodes#1
  inv forall t ref :: {VN(t)} VN(t) ==> old(VN(t))
  inv NIo()
  inv TI()
  inv TV()
  inv forall t ref :: {OP(t)} OP(t) == old(OP(t))
  inv forest(inst.Nodes, inst)
  inv old(contig(a.Nodes)) ==> contig(inst.Nodes)
