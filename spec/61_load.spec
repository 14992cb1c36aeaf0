// Loading a grammar: every rule that comes out of it is well-formed, and nonRoots records for every name the rules that refer to it.
// urg, sdg: as urf, sdl for a list of lists
func urg(g SQ) VS
func urgw(g SQ, n str) int
func sdg(g SQ) int
axiom urg_in: forall g SQ, i int, n str :: {urg(g)[n], g[i]} 0 <= i && i < len(g) && urf(g[i])[n] ==> urg(g)[n]
axiom urg_is: forall g SQ, n str :: {urg(g)[n]} urg(g)[n] ==> 0 <= urgw(g,n) && urgw(g,n) < len(g) && urf(g[urgw(g,n)])[n]
axiom sdg_is: forall g SQ, i int :: {sdg(g), g[i]} 0 <= i && i < len(g) ==> sdl(g[i]) <= sdg(g)
axiom sdg_pos: forall g SQ :: {sdg(g)} 0 <= sdg(g)

lemma urf_build using urf(l)[n], urf(build(l,c))[n], l[urw(l,n)], build(l,c)[urw(l,n)], build(l,c)[len(l)], build(l,c)[urw(build(l,c),n)], l[urw(build(l,c),n)]: forall l SI, c ref, n str :: {urf(build(l,c))[n]} urf(build(l,c))[n] == (urf(l)[n] || rfs(c)[n])
lemma urf_empty using urf(emptyI)[n]: forall n str :: {urf(emptyI)[n]} !urf(emptyI)[n]
lemma urf_upd using urf(l)[n], urf(upd(l,k,c))[n], l[urw(l,n)], upd(l,k,c)[urw(l,n)], upd(l,k,c)[k], upd(l,k,c)[urw(upd(l,k,c),n)], l[urw(upd(l,k,c),n)]: forall l SI, k int, c ref, n str :: {urf(upd(l,k,c))[n]} 0 <= k && k < len(l) && (rfs(l[k])[n] ==> rfs(c)[n])
  ==> urf(upd(l,k,c))[n] == (urf(l)[n] || rfs(c)[n])
lemma urg_build using urg(g)[n], urg(build(g,l))[n], g[urgw(g,n)], build(g,l)[urgw(g,n)], build(g,l)[len(g)], build(g,l)[urgw(build(g,l),n)], g[urgw(build(g,l),n)]: forall g SQ, l SI, n str :: {urg(build(g,l))[n]} urg(build(g,l))[n] == (urg(g)[n] || urf(l)[n])

// what AddUsage has recorded
def GN(gr *Grammar) = gr != nil && alloced(gr) && gr.nonRoots != nil && alloced(gr.nonRoots)
  && forall n str :: {has(gr.nonRoots,n)} {gr.nonRoots[n]} has(gr.nonRoots,n) == (0 < len(gr.nonRoots[n]))
// everything recorded meanwhile says name
def grown(gr *Grammar, name str) = gr.nonRoots == old(gr.nonRoots)
  && (forall n str :: {gr.nonRoots[n]} old(len(gr.nonRoots[n])) <= len(gr.nonRoots[n]))
  && (forall n str, j int :: {gr.nonRoots[n][j]} 0 <= j && j < old(len(gr.nonRoots[n])) ==> gr.nonRoots[n][j] == old(gr.nonRoots[n][j]))
  && (forall n str, j int :: {gr.nonRoots[n][j]} old(len(gr.nonRoots[n])) <= j && j < len(gr.nonRoots[n]) ==> gr.nonRoots[n][j] == name)
def grew(gr *Grammar, n str) = old(len(gr.nonRoots[n])) < len(gr.nonRoots[n])

contract IRule.setAnnotation(r, tok, nond, virt)
  requires r != nil
  modifies ruleBase.tokenized, ruleBase.nondata, ruleBase.virtual where t :: t == r
  ensures[C17] ruleBase(r).tokenized == tok && ruleBase(r).nondata == nond && ruleBase(r).virtual == virt
contract ruleBase.setAnnotation(r, tok, nond, virt)
  implements IRule.setAnnotation
contract IRule.setName(r, n)
  requires r != nil
  modifies ruleBase.name where t :: t == r
  ensures[C27] ruleBase(r).name == n
contract ruleBase.setName(r, n)
  implements IRule.setName

contract Grammar.AddUsage(gr, n, user)
  requires GN(gr)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  ensures[C20] GN(gr) && gr.nonRoots[n] == build(old(gr.nonRoots[n]), user)
  ensures[C20] forall m str :: {gr.nonRoots[m]} m != n ==> gr.nonRoots[m] == old(gr.nonRoots[m])

contract EOF() (rule)
  inline

contract inReference(gr, name, cs) (rule, err)
  sem C27
  covers C27, C20
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 0
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  init sd(rule) = 0 when err == nil
  init rfs(rule) = if is(rule, ReferenceRule) then upd(emptyV, ReferenceRule(rule).refName, true) else emptyV when err == nil
  exit VR(rule) = true when err == nil
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == grew(gr, n)
  ensures[C27] err == nil ==> is(rule, ReferenceRule) || is(rule, EOFRule)
loop inReference#1
  inv fwd(cs) && unlocked(cs) && p < CUR(cs)
  decreases len(T) - CUR(cs)

contract inGroup(gr, name, cs) (rule, err)
  sem C27
  covers C27, C20
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 0
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  init sd(rule) = sd(GroupRule(rule).rule) + 1 when err == nil
  init rfs(rule) = rfs(GroupRule(rule).rule) when err == nil
  exit VR(rule) = true when err == nil
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == grew(gr, n)
  ensures[C27] err == nil ==> is(rule, GroupRule)

contract inOption(gr, name, cs) (rule, err)
  sem C27
  covers C27, C20
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 0
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  init sd(rule) = sd(OptionRule(rule).rule) + 1 when err == nil
  init rfs(rule) = rfs(OptionRule(rule).rule) when err == nil
  exit VR(rule) = true when err == nil
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == grew(gr, n)
  ensures[C27] err == nil ==> is(rule, OptionRule)

// the specification of a repetition stands in t at i and ends at e
def repSpec(rule ref, t SI, i int, e int) =
  if i < len(t) && t[i] == 42 then RepetitionRule(rule).min == 0 && RepetitionRule(rule).max == 0 && e == i + 1
  else if i < len(t) && t[i] == 43 then RepetitionRule(rule).min == 1 && RepetitionRule(rule).max == 0 && e == i + 1
  else if i < len(t) && t[i] == 60 then spOk(t,i) && RepetitionRule(rule).min == spMin(t,i) && RepetitionRule(rule).max == spMax(t,i) && e == spEnd(t,i)
  else RepetitionRule(rule).min == 0 && RepetitionRule(rule).max == 0 && e == i
contract inRepetition(gr, name, cs) (rule, err)
  sem C27
  covers C27, C20, C23
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 0
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  init sd(rule) = sd(RepetitionRule(rule).rule) + 1 when err == nil
  init rfs(rule) = rfs(RepetitionRule(rule).rule) when err == nil
  exit VR(rule) = true when err == nil
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == grew(gr, n)
  ensures[C27] err == nil ==> is(rule, RepetitionRule)
  ensures[C23] err == nil ==> exists q int :: {T[q]} 0 < q && q <= len(T) && T[q-1] == 125 && repSpec(rule, T, q, CUR(cs))

contract inChoice(gr, name, first, cs) (rule, err)
  sem C27
  covers C27, C20
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  requires VR(first)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 0
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  init sd(rule) = sdg(ChoiceRule(rule).groups) + 1 when err == nil
  init rfs(rule) = urg(ChoiceRule(rule).groups) when err == nil
  exit VR(rule) = true when err == nil
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == (rfs(first)[n] || grew(gr, n))
  ensures[C27] err == nil ==> is(rule, ChoiceRule) && (1 < len(ChoiceRule(rule).groups) || 1 < len(ChoiceRule(rule).groups[0]))
loop inChoice#1
  inv fwd(cs) && unlocked(cs) && RI() && GN(gr) && grown(gr, name)
  inv 0 < len(rules) && forall j int :: {rules[j]} 0 <= j && j < len(rules) ==> VR(rules[j])
  inv forall i int :: {groups[i]} 0 <= i && i < len(groups) ==> 0 < len(groups[i])
  inv forall i int, j int :: {groups[i][j]} 0 <= i && i < len(groups) && 0 <= j && j < len(groups[i]) ==> VR(groups[i][j])
  inv forall n str :: {urg(groups)[n]} {urf(rules)[n]} {gr.nonRoots[n]} (urg(groups)[n] || urf(rules)[n]) == (rfs(first)[n] || grew(gr, n))
  inv 0 < len(groups) || 1 < len(rules) ==> p < CUR(cs)
  decreases len(T) - CUR(cs)

contract inBlock(gr, name, cs) (rule, err)
  sem C27
  covers C27, C20
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 0
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  init sd(rule) = sdl(build(build(if BlockRule(rule).escape != nil then build(BlockRule(rule).excludes, BlockRule(rule).escape) else BlockRule(rule).excludes, BlockRule(rule).open), BlockRule(rule).close)) + 1 when err == nil
  init rfs(rule) = urf(build(build(if BlockRule(rule).escape != nil then build(BlockRule(rule).excludes, BlockRule(rule).escape) else BlockRule(rule).excludes, BlockRule(rule).open), BlockRule(rule).close)) when err == nil
  exit VR(rule) = true when err == nil
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == grew(gr, n)
  ensures[C27] err == nil ==> is(rule, BlockRule)
loop inBlock#1
  inv fwd(cs) && unlocked(cs) && p < CUR(cs)
  inv forall r ref :: {VR(r)} VR(r) ==> alloced(r)
  inv forall r ref :: {VR(r)} VR(r) ==> wfs(r)
  inv GN(gr)
  inv grown(gr, name)
  inv block != nil && fresh(block) && !VR(block) && block.close == nil && VR(block.open) && (block.escape != nil ==> VR(block.escape))
  inv forall j int :: {block.excludes[j]} 0 <= j && j < len(block.excludes) ==> VR(block.excludes[j])
  inv forall n str :: {urf(block.excludes)[n]} {gr.nonRoots[n]} (urf(block.excludes)[n] || rfs(block.open)[n] || (block.escape != nil && rfs(block.escape)[n])) == grew(gr, n)
  decreases len(T) - CUR(cs)

contract Grammar.parseOne(gr, name, cs) (rule, err)
  sem C27
  covers C27, C20
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 1
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == grew(gr, n)

loop Grammar.parseOne#1
  inv fwd(cs) && unlocked(cs) && RI() && GN(gr)
  inv forall n str :: {gr.nonRoots[n]} gr.nonRoots[n] == old(gr.nonRoots[n])
  decreases len(T) - CUR(cs)

contract Grammar.parse(gr, name, cs, terms) (rule, err)
  sem C27
  covers C27, C20
  requires stream(cs) && RI()
  requires[lock] unlocked(cs)
  requires GN(gr)
  let T = text(cs)
  let p = CUR(cs)
  decreases len(T) - p, 1
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies VR where t :: false
  init sd(rule) = sdl(ConcatenateRule(rule).rules) + 1 when err == nil && !VR(rule)
  init rfs(rule) = urf(ConcatenateRule(rule).rules) when err == nil && !VR(rule)
  exit VR(rule) = true when err == nil
  ensures[C27] fwd(cs)
  ensures[C27] RI()
  ensures[C27] err == nil ==> VR(rule) && fresh(rule)
  ensures[C27] err != nil ==> rule == nil
  ensures[C27] err == nil ==> p < CUR(cs)
  ensures[C20] GN(gr)
  ensures[C20] grown(gr, name)
  ensures[C20] err == nil ==> forall n str :: {rfs(rule)[n]} {gr.nonRoots[n]} rfs(rule)[n] == grew(gr, n)

loop Grammar.parse#1
  inv fwd(cs) && unlocked(cs) && RI() && GN(gr) && grown(gr, name)
  inv forall j int :: {rules[j]} 0 <= j && j < len(rules) ==> VR(rules[j]) && fresh(rules[j])
  inv forall n str :: {urf(rules)[n]} {gr.nonRoots[n]} urf(rules)[n] == grew(gr, n)
  inv 0 < len(rules) ==> p < CUR(cs)
  decreases len(T) - CUR(cs)
loop Grammar.parse#2
  inv fwd(cs) && unlocked(cs) && RI() && GN(gr) && grown(gr, name)
loop Grammar.parse#3
  inv fwd(cs) && unlocked(cs) && RI() && GN(gr) && grown(gr, name)
  inv 0 < len(rules) ==> p < CUR(cs)
  decreases len(T) - CUR(cs)
