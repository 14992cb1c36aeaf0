// Nodes of the tree.
// none of the nodes of the tree is being changed
def settled(n ref) = forall t ref :: {VN(t)} VN(t) && in(t,n) ==> !OP(t)
def NIo() = forall n ref :: {VN(n)} VN(n) ==> root(n) && (!OP(n) ==> kids(Node(n).ChildNodes, n))

contract Node.Text(n) (r)
  requires NIo() && n != nil && VN(n) && settled(n)
  requires[C13] TI()
  decreases HI(n) - LO(n)
  pure
  covers C13, C15, C19
  ensures[C13,C19] !eofText(r)
  ensures[C13,C19] TX(n) ==> nows(r) == TW(n)[TB(n):TE(n)]
loop Node.Text#1
  inv len(prevText) > 0 ==> prevNode != nil
  inv[C13,C19] TX(inst) && 0 < _i ==> TX(inst.ChildNodes[_i-1]) && TW(inst.ChildNodes[_i-1]) == TW(inst) && TB(inst) <= TE(inst.ChildNodes[_i-1]) && TE(inst.ChildNodes[_i-1]) <= len(TW(inst))
  inv[C13,C19] TX(inst) && _i < len(inst.ChildNodes) ==> TX(inst.ChildNodes[_i]) && TW(inst.ChildNodes[_i]) == TW(inst) && TB(inst.ChildNodes[_i]) == (if _i == 0 then TB(inst) else TE(inst.ChildNodes[_i-1]))
  inv[C13,C19] !eofText(text)
  inv[C13,C19] TX(inst) ==> nows(text) == TW(inst)[TB(inst):(if _i == 0 then TB(inst) else TE(inst.ChildNodes[_i-1]))]
