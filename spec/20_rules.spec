// Rules and their evaluation.
//
// A grammar and its rules do not change while they are evaluated (the frame of every Eval says so), so what a rule
// matches is a rigid function of the grammar, the text, the rule, the place and the leading-space flag:
//   M  it matches there         U  the number of chars it uses
//   S  its result is sticky     O  its node is an option without a match
//   PS the index in the text where its node begins, -1 for none
//   X  the chars it reads from the stream
// Each implementation of Eval defines them for its type of rule (define), and is proved to deliver them.
func M(gr ref, t SI, r ref, p int, f int) bool
func U(gr ref, t SI, r ref, p int, f int) int
func S(gr ref, t SI, r ref, p int, f int) bool
func O(gr ref, t SI, r ref, p int, f int) bool
func PS(gr ref, t SI, r ref, p int, f int) int
// what the node says about the rule: name, type, annotations; the rule that made it
func NM(gr ref, r ref) str
func RT(gr ref, r ref) str
func FT(gr ref, r ref) bool
func FV(gr ref, r ref) bool
func FD(gr ref, r ref) bool
func RR(gr ref, r ref) ref

// ---- well-formed rules
// VR(r): r is a rule of the grammar. rk: rank that shows the absence of left recursion; rkl: the same for lists of rules;
// sd: depth of a rule (references are not followed); nul(r): r may match without using chars; noesc(r): no block in reach has an escape
ghost VR bool
func rk(r ref) int
func rkl(g SI) int
func sd(r ref) int
func nul(r ref) bool
func nulto(g SI, k int) bool
func noesc(r ref) bool
axiom nulto_0: forall g SI :: {nulto(g,0)} nulto(g,0)
axiom nulto_step: forall g SI, k int :: {nulto(g,k+1)} {nulto(g,k), g[k]} 0 <= k && k < len(g) ==> nulto(g,k+1) == (nulto(g,k) && nul(g[k]))

// a part of a rule, evaluated where the rule began
def part(r ref, q ref) = rk(q) < rk(r) && (noesc(r) ==> noesc(q))
// a part of a rule, evaluated only after the rule used some chars
def later(r ref, q ref) = noesc(r) ==> noesc(q)
// a part of a rule
def sub(r ref, q ref) = VR(q) && sd(q) < sd(r)

def isRule(r ref) = is(r, TerminalCharRule) || is(r, TerminalCharsRule) || is(r, TerminalStringRule) || is(r, TerminalRangeRule) || is(r, EOFRule)
  || is(r, GroupRule) || is(r, OptionRule) || is(r, ReferenceRule) || is(r, ChoiceRule) || is(r, ConcatenateRule) || is(r, RepetitionRule) || is(r, BlockRule)

// the shape of a rule, whatever its references refer to
def wfs(r ref) = isRule(r) && 0 <= sd(r)
  && (is(r, TerminalCharRule) ==> 0 <= TerminalCharRule(r).text)
  && (is(r, TerminalCharsRule) ==> okText(TerminalCharsRule(r).text) && 0 < len(TerminalCharsRule(r).text))
  && (is(r, TerminalStringRule) ==> okText(TerminalStringRule(r).text))
  && (is(r, TerminalRangeRule) ==> 0 <= TerminalRangeRule(r).begin)
  && (is(r, GroupRule) ==> sub(r, GroupRule(r).rule))
  && (is(r, OptionRule) ==> sub(r, OptionRule(r).rule))
  && (is(r, ChoiceRule) ==> 0 < len(ChoiceRule(r).groups) && (forall i int :: {ChoiceRule(r).groups[i]} 0 <= i && i < len(ChoiceRule(r).groups) ==> 0 < len(ChoiceRule(r).groups[i])
        && (forall j int :: {ChoiceRule(r).groups[i][j]} 0 <= j && j < len(ChoiceRule(r).groups[i]) ==> sub(r, ChoiceRule(r).groups[i][j]))))
  && (is(r, ConcatenateRule) ==> 2 <= len(ConcatenateRule(r).rules)
        && (forall i int :: {ConcatenateRule(r).rules[i]} 0 <= i && i < len(ConcatenateRule(r).rules) ==> sub(r, ConcatenateRule(r).rules[i])))
  && (is(r, RepetitionRule) ==> sub(r, RepetitionRule(r).rule) && (RepetitionRule(r).max == 0 || RepetitionRule(r).min <= RepetitionRule(r).max))
  && (is(r, BlockRule) ==> sub(r, BlockRule(r).open) && sub(r, BlockRule(r).close) && (BlockRule(r).escape != nil ==> sub(r, BlockRule(r).escape))
        && (forall j int :: {BlockRule(r).excludes[j]} 0 <= j && j < len(BlockRule(r).excludes) ==> sub(r, BlockRule(r).excludes[j])))
// what the rank says about it: the grammar is not left-recursive
def wfr(gr *Grammar, r ref) = 0 <= rk(r)
  && (is(r, TerminalStringRule) && len(TerminalStringRule(r).text) == 0 ==> nul(r))
  && (is(r, EOFRule) ==> nul(r))
  && (is(r, GroupRule) ==> part(r, GroupRule(r).rule) && (nul(GroupRule(r).rule) ==> nul(r)))
  && (is(r, OptionRule) ==> part(r, OptionRule(r).rule) && nul(r))
  && (is(r, ReferenceRule) && gr.ruleRecords[ReferenceRule(r).refName] != nil
        ==> VR(gr.ruleRecords[ReferenceRule(r).refName].rule) && rk(gr.ruleRecords[ReferenceRule(r).refName].rule) < rk(r)
            && (noesc(r) ==> noesc(gr.ruleRecords[ReferenceRule(r).refName].rule)) && (nul(gr.ruleRecords[ReferenceRule(r).refName].rule) ==> nul(r)))
  && (is(r, ChoiceRule) ==> (forall i int :: {ChoiceRule(r).groups[i]} 0 <= i && i < len(ChoiceRule(r).groups) ==>
        (forall j int :: {ChoiceRule(r).groups[i][j]} 0 <= j && j < len(ChoiceRule(r).groups[i]) ==> part(r, ChoiceRule(r).groups[i][j]) && (nul(ChoiceRule(r).groups[i][j]) ==> nul(r)))))
  && (is(r, ConcatenateRule) ==> (nulto(ConcatenateRule(r).rules, len(ConcatenateRule(r).rules)) ==> nul(r))
        && (forall i int :: {ConcatenateRule(r).rules[i]} 0 <= i && i < len(ConcatenateRule(r).rules) ==> later(r, ConcatenateRule(r).rules[i])
              && (nulto(ConcatenateRule(r).rules, i) ==> rk(ConcatenateRule(r).rules[i]) < rk(r))))
  && (is(r, RepetitionRule) ==> part(r, RepetitionRule(r).rule) && (nul(RepetitionRule(r).rule) || RepetitionRule(r).min == 0 ==> nul(r)))
  && (is(r, BlockRule) ==> part(r, BlockRule(r).open) && later(r, BlockRule(r).close) && (BlockRule(r).escape != nil ==> later(r, BlockRule(r).escape))
        && (forall j int :: {BlockRule(r).excludes[j]} 0 <= j && j < len(BlockRule(r).excludes) ==> later(r, BlockRule(r).excludes[j]))
        && (nul(BlockRule(r).open) ==> rk(BlockRule(r).close) < rk(r) && (BlockRule(r).escape != nil ==> rk(BlockRule(r).escape) < rk(r))
              && (0 < len(BlockRule(r).excludes) ==> rkl(BlockRule(r).excludes) < rk(r)))
        && (nul(BlockRule(r).open) && (BlockRule(r).virtualClose || nul(BlockRule(r).close)) ==> nul(r))
        && (noesc(r) ==> BlockRule(r).escape == nil))
def RI() = (forall r ref :: {VR(r)} VR(r) ==> alloced(r)) && (forall r ref :: {VR(r)} VR(r) ==> wfs(r))
def GI(gr *Grammar) = gr != nil && RI() && (forall r ref :: {VR(r)} VR(r) ==> wfr(gr, r))

// ---- results
def posIs(q *Position, t SI, i int) = (q == nil) == (i < 0) && (q != nil ==> q.Line == nl(t,i) + 1 && q.Col == i - lastnl(t,i))
def nread(res *EvalResult) = len(res.CharsRead)
def nused(res *EvalResult) = len(res.CharsRead) - len(res.CharsUnused)

// the result of evaluating r on the text t at index p
ghost NR int
ghost NQ int
ghost NF int
def made(gr ref, n ref, r ref, p int, f int) = NR(n) == RR(gr,r) && NQ(n) == p && NF(n) == f

// ---- nodes
// VN(n): n is the root of a tree, of which all objects lie from LO(n) to HI(n) in the order of allocation; PA: the parent of a node
// OP: the children of the node are being changed
ghost VN bool
ghost LO int
ghost HI int
ghost PA ref
ghost OP bool
def in(t ref, n ref) = LO(n) <= t && t < HI(n)
def under(c ref, n ref) = LO(n) <= LO(c) && HI(c) <= HI(n) && !in(n, c)
def root(n ref) = alloced(n) && is(n, Node) && 0 < LO(n) && HI(n) <= alloc && in(n, n)
def apart(a ref, b ref) = HI(a) <= LO(b) || HI(b) <= LO(a)
// the nodes of l may be the children of n
def kids(l SI, n ref) = (forall i int :: {l[i]} 0 <= i && i < len(l) ==> VN(l[i]) && PA(l[i]) == n && under(l[i], n))
  && (forall i int, j int :: {l[i], l[j]} 0 <= i && i < j && j < len(l) ==> apart(l[i], l[j]))
def tree(n ref) = root(n) && kids(Node(n).ChildNodes, n)
def NI() = forall n ref :: {VN(n)} VN(n) ==> root(n) && !OP(n) && kids(Node(n).ChildNodes, n)
// TX(n): the text of the tree without its white space is TW(n)[TB(n):TE(n)]
ghost TX bool
ghost TW SI
ghost TB int
ghost TE int
def eofText(c SI) = len(c) == 1 && c[0] == 0-1
// the nodes of l hold the text from a to b
def texts(l SI, w SI, a int, b int) = (forall i int :: {l[i]} 0 <= i && i < len(l) ==> TX(l[i]) && TW(l[i]) == w && (i == 0 ==> TB(l[i]) == a) && (i == len(l)-1 ==> TE(l[i]) == b))
  && (forall i int, j int :: {l[i], l[j]} 0 <= i && j == i + 1 && j < len(l) ==> TE(l[i]) == TB(l[j]))
  && (len(l) == 0 ==> a == b)
def texted(n ref) = 0 <= TB(n) && TB(n) <= TE(n) && TE(n) <= len(TW(n))
  && (0 < len(Node(n).Chars) ==> len(Node(n).ChildNodes) == 0 && (if eofText(Node(n).Chars) then TB(n) == TE(n) else nows(Node(n).Chars) == TW(n)[TB(n):TE(n)]))
  && (len(Node(n).Chars) == 0 ==> texts(Node(n).ChildNodes, TW(n), TB(n), TE(n)))
def TI() = forall n ref :: {TX(n)} TX(n) ==> alloced(n) && (!OP(n) ==> texted(n))
def TV() = forall n ref :: {TX(n)} TX(n) ==> VN(n)
// n holds the text from a to b of T
// n holds what rule r matched, from where it was evaluated
def txtm(gr ref, n ref, T SI, r ref, f int) = TX(n) && TW(n) == nows(T) && TB(n) == nwc(T,NQ(n)) && TE(n) == nwc(T,NQ(n)+U(gr,T,r,NQ(n),f))
def txt(n ref, T SI, a int, b int) = TX(n) && TW(n) == nows(T) && TB(n) == nwc(T,a) && TE(n) == nwc(T,b)

contract IRule.Eval(r, gr, cs, f) (res)
  covers C21
  requires GI(gr) && VR(r)
  requires[C15] NI()
  requires[C13] TI()
  requires stream(cs)
  requires[lock] unlocked(cs)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, rk(r)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies NR, NQ, NF, VN, LO, HI, PA, OP, TX, TW, TB, TE where t :: false
  ensures fresh(res)
  ensures[C06] p + nread(res) <= len(T) && res.CharsRead == T[p:p+nread(res)]
  ensures[C06] moved(cs, p + nread(res))
  ensures[C06] 0 <= nused(res) && res.CharsUnused == T[p+nused(res):p+nread(res)]
  ensures[C06] res.Node == nil ==> nused(res) == 0
  ensures[C06] stream(cs)
  ensures[sem] (res.Node != nil) == M(gr,T,r,p,f)
  ensures[sem] res.Node != nil ==> nused(res) == U(gr,T,r,p,f)
  ensures[sem] res.Sticky == S(gr,T,r,p,f)
  ensures[sem] res.Node != nil ==> (res.Node.RuleType == TypeOption && len(res.Node.ChildNodes) == 0 && len(res.Node.Chars) == 0) == O(gr,T,r,p,f)
  ensures[C14] res.Node != nil && nused(res) == 0 ==> nul(r)
  ensures[C24] res.Node != nil ==> posIs(res.Node.Position, T, PS(gr,T,r,p,f)) && p + nused(res) <= (if PS(gr,T,r,p,f) < 0 then wsEnd(T,p) else len(T))
  ensures[C24] res.Node != nil && 0 <= PS(gr,T,r,p,f) ==> p <= PS(gr,T,r,p,f) && PS(gr,T,r,p,f) <= wsEnd(T,p)
  ensures[C15] res.Node != nil ==> fresh(res.Node) && VN(res.Node) && PA(res.Node) == nil && old(alloc) <= LO(res.Node) && HI(res.Node) <= alloc
  ensures[C15] NI()
  ensures[C13] res.Node != nil && noesc(r) ==> txtm(gr, res.Node, T, r, f)
  ensures[C13] TI()
  ensures[C17] res.Node != nil ==> res.Node.RuleName == NM(gr,r) && res.Node.RuleType == RT(gr,r)
  ensures[C17] res.Node != nil ==> res.Node.Tokenized == FT(gr,r) && res.Node.Virtual == FV(gr,r) && res.Node.NonData == FD(gr,r)
  ensures[sem] res.Node != nil ==> made(gr, res.Node, r, p, f)

// after these calls the keep clauses of loops are proved
keepat IRule.Eval, mostGreedy

// facts about these matter only to goals about them
slice NR, NQ, NF, RR
slice VN, LO, HI, PA
slice TX, TW, TB, TE, nwp
slice VR, rk, rkl, sd, nul, nulto
slice nl, lastnl, Position.Line, Position.Col
slice PS, kPS, rPS
slice NM, RT, FT, FV, FD
slice ACQ
slice CharstreamString.cursor, CharstreamString.chars, CharstreamString.lock, CharstreamPrepend.cursor, CharstreamPrepend.prepend, CharstreamPrepend.lock, positionMap.lines, sbase, registered

focus CUR, chain
focus EvalResult.CharsRead, EvalResult.CharsUnused
focus M, U

contract IRule.desc(r) (s)
  requires RI() && VR(r)
  decreases sd(r)
  pure
  covers C14, C15
loop ChoiceRule.desc#1
  inv forall j int :: {rules[j]} 0 <= j && j < len(rules) ==> VR(rules[j]) && sd(rules[j]) < sd(inst)
  inv 0 < _i ==> 0 < len(rules)
loop ChoiceRule.desc#2
  inv forall j int :: {rules[j]} 0 <= j && j < len(rules) ==> VR(rules[j]) && sd(rules[j]) < sd(inst)
  inv 0 < _i ==> 0 < len(rules)

// ---- terminals
func firstIdx(t SI, c int, a int, b int) int
axiom firstIdx_def: forall t SI, c int, a int, b int :: {firstIdx(t,c,a,b)} a <= b ==> a <= firstIdx(t,c,a,b) && firstIdx(t,c,a,b) <= b && (firstIdx(t,c,a,b) < b ==> t[firstIdx(t,c,a,b)] == c)
axiom firstIdx_min: forall t SI, c int, a int, b int, i int :: {firstIdx(t,c,a,b), t[i]} a <= i && i < firstIdx(t,c,a,b) && a <= b ==> t[i] != c

contract TerminalCharRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C07
  let e = if f == 1 then wsEnd(T,p) else p
  let sk = f == 1 && isWS(r.text) && p < e
  let i = if sk then firstIdx(T,r.text,p,e) else e
  define M(gr,T,r,p,f) == (i < (if sk then e else len(T)) && T[i] == r.text)
  define U(gr,T,r,p,f) == i + 1 - p
  define S(gr,T,r,p,f) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == i
  define NM(gr,r) == r.name && RT(gr,r) == TypeChar && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil ==> i < len(T) && res.Node.Chars == build(emptyI, T[i]) && i <= wsEnd(T,p) && p <= i && p + nused(res) == i + 1
  hint[C13] res.Node != nil ==> spans(res.Node.Chars, T, p, p + nused(res))
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  ensures[C07] res.Node != nil ==> res.Node.Chars == build(emptyI, r.text)
loop TerminalCharRule.Eval#1
  inv forall j int :: {T[j]} p <= j && j < p + _i ==> T[j] != inst.text

// w stands in t at index s
func hasAt(t SI, s int, w SI) bool
// where they differ
func mism(t SI, s int, w SI) int
axiom hasAt_is: forall t SI, s int, w SI :: {hasAt(t,s,w)} hasAt(t,s,w) ==> 0 <= s && s + len(w) <= len(t) && t[s:s+len(w)] == w
axiom hasAt_not: forall t SI, s int, w SI :: {hasAt(t,s,w)} 0 <= s && s + len(w) <= len(t) && !hasAt(t,s,w) ==> 0 <= mism(t,s,w) && mism(t,s,w) < len(w) && t[s+mism(t,s,w)] != w[mism(t,s,w)]

contract leadingWhiteSpace(input) (r)
  ensures r == input[0:wsEnd(input,0)]
loop leadingWhiteSpace#1
  inv _i <= wsEnd(input,0) && wspaces == input[0:_i]

contract TerminalCharsRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C07
  let w = r.text
  let at = if f == 1 then wsEnd(T,p) - wsEnd(w,0) else p
  define M(gr,T,r,p,f) == (p <= at && hasAt(T,at,w))
  define U(gr,T,r,p,f) == at + len(w) - p
  define S(gr,T,r,p,f) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == at
  define NM(gr,r) == r.name && RT(gr,r) == TypeChars && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil ==> p <= at && at <= wsEnd(T,p) && p + nused(res) == at + len(w) && at + len(w) <= len(T) && res.Node.Chars == T[at:at+len(w)]
  hint[C13] res.Node != nil ==> spans(res.Node.Chars, T, p, p + nused(res))
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  ensures[C07] res.Node != nil ==> res.Node.Chars == w
loop TerminalCharsRule.Eval#1
  inv forall j int :: {w[j]} {T[at+j]} 0 <= j && j < _i ==> T[at+j] == w[j]

contract TerminalStringRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C07
  let w = r.text
  let at = if f == 1 || f == 0 then wsEnd(T,p) - wsEnd(w,0) else p
  define M(gr,T,r,p,f) == (p < len(T) && p <= at && hasAt(T,at,w))
  define U(gr,T,r,p,f) == at + len(w) - p
  define !S(gr,T,r,p,f) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == (if len(w) > 0 then at else 0-1)
  define NM(gr,r) == r.name && RT(gr,r) == TypeString && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil ==> p <= at && at <= wsEnd(T,p) && p + nused(res) == at + len(w) && at + len(w) <= len(T) && res.Node.Chars == T[at:at+len(w)]
  hint[C13] res.Node != nil ==> spans(res.Node.Chars, T, p, p + nused(res))
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] res.Node != nil ==> (TX(res.Node) ==> noesc(r)) && alloced(res.Node)
  hint[C13] forall n ref :: {TX(n)} n != res.Node && old(alloced(n)) ==> TX(n) == old(TX(n)) && TW(n) == old(TW(n)) && TB(n) == old(TB(n)) && TE(n) == old(TE(n)) && OP(n) == old(OP(n))
  hint[C13] forall n ref :: {TX(n)} old(alloced(n)) ==> n != res.Node && Node(n).Chars == old(Node(n).Chars) && Node(n).ChildNodes == old(Node(n).ChildNodes)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> old(TX(n)) && old(alloced(n))
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  hint[C15] res.Node != nil ==> tree(res.Node)
  hint[C15] forall n ref :: {VN(n)} VN(n) && n != res.Node ==> tree(n)
  ensures[C07] res.Node != nil ==> res.Node.Chars == w
loop TerminalStringRule.Eval#1
  inv forall j int :: {w[j]} {T[at+j]} 0 <= j && j < _i ==> T[at+j] == w[j]

func firstIn(t SI, c int, d int, a int, b int) int
axiom firstIn_def: forall t SI, c int, d int, a int, b int :: {firstIn(t,c,d,a,b)} a <= b ==> a <= firstIn(t,c,d,a,b) && firstIn(t,c,d,a,b) <= b
  && (firstIn(t,c,d,a,b) < b ==> c <= t[firstIn(t,c,d,a,b)] && t[firstIn(t,c,d,a,b)] <= d)
axiom firstIn_min: forall t SI, c int, d int, a int, b int, i int :: {firstIn(t,c,d,a,b), t[i]} a <= i && i < firstIn(t,c,d,a,b) && a <= b ==> !(c <= t[i] && t[i] <= d)

contract TerminalRangeRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C07
  let i = if f == 1 then firstIn(T, r.begin, r.end, p, wsEnd(T,p)) else p
  define M(gr,T,r,p,f) == (i < len(T) && r.begin <= T[i] && T[i] <= r.end)
  define U(gr,T,r,p,f) == i + 1 - p
  define S(gr,T,r,p,f) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == i
  define NM(gr,r) == r.name && RT(gr,r) == TypeChars && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil ==> i < len(T) && res.Node.Chars == build(emptyI, T[i]) && i <= wsEnd(T,p) && p <= i && p + nused(res) == i + 1
  hint[C13] res.Node != nil ==> spans(res.Node.Chars, T, p, p + nused(res))
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  ensures[C07] res.Node != nil ==> res.Node.Chars == build(emptyI, T[i])
loop TerminalRangeRule.Eval#1
  inv forall j int :: {T[j]} p <= j && j < p + _i ==> !(inst.begin <= T[j] && T[j] <= inst.end)

contract EOFRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C07
  let e = if f == 1 then wsEnd(T,p) else p
  define M(gr,T,r,p,f) == (e == len(T))
  define U(gr,T,r,p,f) == e - p
  define S(gr,T,r,p,f) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == 0-1
  define NM(gr,r) == TypeEOF && RT(gr,r) == TypeEOF && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  ensures[C07] res.Node != nil ==> res.Node.Chars == build(emptyI, 0-1)

// ---- wrappers of one rule
contract GroupRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C08
  let q = r.rule
  define M(gr,T,r,p,f) == M(gr,T,q,p,f)
  define U(gr,T,r,p,f) == U(gr,T,q,p,f)
  define S(gr,T,r,p,f) == S(gr,T,q,p,f) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == PS(gr,T,q,p,f)
  define NM(gr,r) == r.name && RT(gr,r) == TypeGroup && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit PA(res.Node.ChildNodes[0]) = res.Node when res.Node != nil
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  hint[C15] res.Node != nil ==> tree(res.Node)
  hint[C15] forall n ref :: {VN(n)} VN(n) && n != res.Node ==> tree(n)
  ensures[C08] res.Node != nil ==> len(res.Node.ChildNodes) == 1 && made(gr, res.Node.ChildNodes[0], q, p, f) && len(res.Node.Chars) == 0

contract OptionRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C09
  let q = r.rule
  define M(gr,T,r,p,f)
  define U(gr,T,r,p,f) == (if M(gr,T,q,p,f) then U(gr,T,q,p,f) else 0)
  define S(gr,T,r,p,f) == S(gr,T,q,p,f) && O(gr,T,r,p,f) == !M(gr,T,q,p,f)
  define PS(gr,T,r,p,f) == (if M(gr,T,q,p,f) then PS(gr,T,q,p,f) else 0-1)
  define NM(gr,r) == r.name && RT(gr,r) == TypeOption && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit PA(res.Node.ChildNodes[0]) = res.Node when res.Node != nil && M(gr,T,q,p,f)
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  hint[C15] res.Node != nil ==> tree(res.Node)
  hint[C15] forall n ref :: {VN(n)} VN(n) && n != res.Node ==> tree(n)
  ensures[C09] len(res.Node.Chars) == 0 && (M(gr,T,q,p,f) ==> len(res.Node.ChildNodes) == 1 && made(gr, res.Node.ChildNodes[0], q, p, f))
  ensures[C09] !M(gr,T,q,p,f) ==> len(res.Node.ChildNodes) == 0

contract ReferenceRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C17
  let rec = gr.ruleRecords[r.refName]
  let q = gr.ruleRecords[r.refName].rule
  define M(gr,T,r,p,f) == (rec != nil && M(gr,T,q,p,f))
  define U(gr,T,r,p,f) == U(gr,T,q,p,f)
  define S(gr,T,r,p,f) == (rec != nil && S(gr,T,q,p,f)) && O(gr,T,r,p,f) == O(gr,T,q,p,f)
  define PS(gr,T,r,p,f) == PS(gr,T,q,p,f)
  define NM(gr,r) == NM(gr,q) && RT(gr,r) == RT(gr,q) && RR(gr,r) == RR(gr,q)
  define FT(gr,r) == (FT(gr,q) != r.tokenized) && FV(gr,r) == (FV(gr,q) != r.virtual) && FD(gr,r) == (FD(gr,q) != r.nondata)
  ensures[C15] rec == nil ==> res.Error != nil
