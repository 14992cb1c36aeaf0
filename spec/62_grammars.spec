// Grammars: their rules, who uses whom, validation.
def letter(c int) = (97 <= c && c <= 122) || (65 <= c && c <= 90)
def nameCh(c int) = letter(c) || c == 95 || (48 <= c && c <= 57)
// a valid name of a rule: a letter, then letters, digits and underscores
def okName(s str) = 0 < len(runesOf(s)) && letter(runesOf(s)[0]) && (forall i int :: {runesOf(s)[i]} 0 < i && i < len(runesOf(s)) ==> nameCh(runesOf(s)[i]))
// UTF-8: a string is empty when it has no code points; one that begins with an ASCII char has it as its first byte, and the code points after it are those of the rest
axiom utf8_empty: forall s str :: {runesOf(s)} {slen(s)} (slen(s) == 0) == (len(runesOf(s)) == 0)
axiom utf8_first: forall s str :: {sbyte(s,0)} 0 < slen(s) ==> (runesOf(s)[0] < 128 ==> sbyte(s,0) == runesOf(s)[0]) && (sbyte(s,0) < 128 ==> runesOf(s)[0] == sbyte(s,0))
axiom utf8_rest: forall s str, e int :: {ssub(s,1,e)} 0 < slen(s) && e == slen(s) && sbyte(s,0) < 128 ==> runesOf(ssub(s,1,e)) == runesOf(s)[1:len(runesOf(s))]

contract validateRuleName(s) (n, err)
  pure
  covers C27, C20
  ensures[C27] (err == nil) == okName(s)
  ensures[C27] err == nil ==> n == s
loop validateRuleName#1
  inv forall j int :: {runesOf(s)[j]} 0 < j && j < _i + 1 ==> nameCh(runesOf(s)[j])
  using runesOf(s)[_i + 1], runesOf(s)[0], sbyte(s,0)

// u is one of the users l
func uses(l SS, u str) bool
func useAt(l SS, u str) int
axiom uses_is: forall l SS, u str :: {uses(l,u)} uses(l,u) ==> 0 <= useAt(l,u) && useAt(l,u) < len(l) && l[useAt(l,u)] == u
axiom uses_in: forall l SS, u str, j int :: {uses(l,u), l[j]} 0 <= j && j < len(l) && l[j] == u ==> uses(l,u)
// the users among the first k of l other than u
func flt(l SS, u str, k int) SS
axiom flt_0: forall l SS, u str :: {flt(l,u,0)} len(flt(l,u,0)) == 0
axiom flt_step: forall l SS, u str, k int :: {flt(l,u,k), l[k]} 0 <= k && k < len(l) ==> flt(l,u,k+1) == (if l[k] == u then flt(l,u,k) else build(flt(l,u,k), l[k]))
lemma flt_pre induct k using flt(l,u,k-1), l[k-1], flt(l,u,0): forall l SS, u str, k int :: {flt(l,u,k)} 0 <= k && k <= len(l) && (forall j int :: {l[j]} 0 <= j && j < k ==> l[j] != u) ==> flt(l,u,k) == l[0:k]
lemma flt_post induct k using flt(l,u,k-1), l[k-1], flt(l,u,m): forall l SS, u str, m int, k int :: {flt(l,u,k), flt(l,u,m)} 0 <= m && m <= k && k <= len(l) && (forall j int :: {l[j]} m <= j && j < k ==> l[j] == u) ==> flt(l,u,k) == flt(l,u,m)
lemma flt_back using flt(l,u,len(o)), flt(l,u,len(l)): forall l SS, u str, k int, o SS :: {flt(l,u,k), len(o)} k == len(l) && len(o) <= len(l) && (forall j int :: {o[j]} {l[j]} 0 <= j && j < len(o) ==> l[j] == o[j] && o[j] != u)
  && (forall j int :: {l[j]} len(o) <= j && j < len(l) ==> l[j] == u) ==> flt(l,u,k) == o

contract Grammar.removeUsages(gr, u)
  requires GN(gr)
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  covers C20
  ensures[C20] GN(gr) && gr.nonRoots == old(gr.nonRoots)
  ensures[C20] forall n str :: {gr.nonRoots[n]} gr.nonRoots[n] == flt(old(gr.nonRoots[n]), u, old(len(gr.nonRoots[n])))
loop Grammar.removeUsages#1
  inv GN(gr)
  inv forall n str :: {_vis[n]} _vis[n] ==> old(has(gr.nonRoots,n))
  inv forall n str :: {gr.nonRoots[n]} !_vis[n] ==> gr.nonRoots[n] == old(gr.nonRoots[n])
  inv forall n str :: {gr.nonRoots[n]} _vis[n] ==> gr.nonRoots[n] == flt(old(gr.nonRoots[n]), u, old(len(gr.nonRoots[n])))
loop Grammar.removeUsages#2
  inv others == flt(users, u, _i)

// the rules of a grammar are known by their names; nonRoots holds for every name the accepted rules that refer to it
def GR(gr *Grammar) = gr != nil && alloced(gr) && gr.ruleRecords != nil && alloced(gr.ruleRecords)
  && (forall n str :: {gr.ruleRecords[n]} {has(gr.ruleRecords,n)} has(gr.ruleRecords,n) == (gr.ruleRecords[n] != nil))
  && (forall n str :: {gr.ruleRecords[n]} {has(gr.ruleRecords,n)} has(gr.ruleRecords,n) ==> alloced(gr.ruleRecords[n]) && gr.ruleRecords[n].name == n && okName(n)
        && VR(gr.ruleRecords[n].rule) && ruleBase(gr.ruleRecords[n].rule).name == n)
def GU(gr *Grammar) = GU1(gr) && GU2(gr)
def GU1(gr *Grammar) = (forall n str, j int :: {gr.nonRoots[n][j]} 0 <= j && j < len(gr.nonRoots[n]) ==> has(gr.ruleRecords, gr.nonRoots[n][j]) && rfs(gr.ruleRecords[gr.nonRoots[n][j]].rule)[n])
def GU2(gr *Grammar) = (forall u str, n str :: {rfs(gr.ruleRecords[u].rule)[n]} {has(gr.ruleRecords,u), gr.nonRoots[n]} has(gr.ruleRecords,u) && rfs(gr.ruleRecords[u].rule)[n] ==> uses(gr.nonRoots[n], u))

contract NewGrammar() (gr)
  covers C27, C20
  ensures[C27] fresh(gr.ruleRecords) && fresh(gr.nonRoots)
  ensures[C27] GR(gr) && fresh(gr) && forall n str :: {has(gr.ruleRecords,n)} !has(gr.ruleRecords,n)
  ensures[C20] GN(gr)
  ensures[C20] GU(gr)

contract Grammar.ParseRule(gr, name, s) (rule, err)
  sem C27
  covers C27, C20
  requires RI() && GR(gr) && GN(gr) && GU(gr)
  modifies map(Grammar.ruleRecords) where t :: t == gr.ruleRecords
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies Grammar.maxLine where t :: t == gr
  modifies VR where t :: false
  ensures[C27] RI()
  ensures[C27] GR(gr)
  ensures[C20] GN(gr)
  hint[C20] err == nil ==> forall n str :: {gr.nonRoots[n]} old(len(gr.nonRoots[n])) < len(gr.nonRoots[n]) ==> gr.nonRoots[n][old(len(gr.nonRoots[n]))] == name
  hint[C20] err == nil ==> forall n str :: {gr.nonRoots[n]} {rfs(rule)[n]} rfs(rule)[n] ==> uses(gr.nonRoots[n], name)
  hint[C20] err == nil ==> forall n str, u str :: {uses(gr.nonRoots[n],u)} {uses(old(gr.nonRoots[n]),u)} uses(old(gr.nonRoots[n]),u) ==> gr.nonRoots[n][useAt(old(gr.nonRoots[n]),u)] == u
  hint[C20] err == nil ==> forall n str, u str :: {uses(gr.nonRoots[n],u)} {uses(old(gr.nonRoots[n]),u)} uses(old(gr.nonRoots[n]),u) ==> uses(gr.nonRoots[n],u)
  hint[C20] err != nil ==> forall n str :: {has(gr.nonRoots,n)} {gr.nonRoots[n]} has(gr.nonRoots,n) == old(has(gr.nonRoots,n)) && gr.nonRoots[n] == old(gr.nonRoots[n])
  ensures[C20] GU1(gr)
  ensures[C20] GU2(gr)
  ensures[C27] err == nil ==> okName(name) && !old(has(gr.ruleRecords,name))
  ensures[C27] (err == nil) == (rule != nil)
  ensures[C27] err == nil ==> has(gr.ruleRecords,name) && gr.ruleRecords[name].rule == rule && VR(rule)
  ensures[C27,C20] forall n str :: {has(gr.ruleRecords,n)} {gr.ruleRecords[n]} n != name || err != nil ==> has(gr.ruleRecords,n) == old(has(gr.ruleRecords,n)) && gr.ruleRecords[n] == old(gr.ruleRecords[n])
  ensures[C20] err != nil ==> forall n str :: {has(gr.nonRoots,n)} {gr.nonRoots[n]} has(gr.nonRoots,n) == old(has(gr.nonRoots,n)) && gr.nonRoots[n] == old(gr.nonRoots[n])
  ensures[C20] err != nil ==> gr.maxLine == old(gr.maxLine)

contract Grammar.AddRule(gr, s) (rule, err)
  sem C27
  covers C27, C20
  requires RI() && GR(gr) && GN(gr) && GU(gr)
  modifies map(Grammar.ruleRecords) where t :: t == gr.ruleRecords
  modifies map(Grammar.nonRoots) where t :: t == gr.nonRoots
  modifies Grammar.maxLine where t :: t == gr
  modifies VR where t :: false
  ensures[C27] RI()
  ensures[C27] GR(gr)
  ensures[C20] GN(gr)
  ensures[C20] GU(gr)
  ensures[C27] (err == nil) == (rule != nil)
  ensures[C20] err != nil ==> forall n str :: {has(gr.ruleRecords,n)} {gr.ruleRecords[n]} has(gr.ruleRecords,n) == old(has(gr.ruleRecords,n)) && gr.ruleRecords[n] == old(gr.ruleRecords[n])
  ensures[C20] err != nil ==> forall n str :: {has(gr.nonRoots,n)} {gr.nonRoots[n]} has(gr.nonRoots,n) == old(has(gr.nonRoots,n)) && gr.nonRoots[n] == old(gr.nonRoots[n])
  ensures[C20] err != nil ==> gr.maxLine == old(gr.maxLine)

func some(d VS) bool
func someOf(d VS) str
axiom some_is: forall d VS :: {some(d)} some(d) ==> d[someOf(d)]
axiom some_in: forall d VS, n str :: {some(d), d[n]} d[n] ==> some(d)
def undef(gr *Grammar, n str) = has(gr.nonRoots,n) && !has(gr.ruleRecords,n)
def isTerminal(gr *Grammar, n str) = has(gr.ruleRecords,n) && !some(rfs(gr.ruleRecords[n].rule))

contract Grammar.Validate(gr) (err)
  covers C27, C20
  requires RI() && GR(gr) && GN(gr) && GU(gr)
  modifies Grammar.terminals, Grammar.rootRules where t :: t == gr
  ensures[C20] (err == nil) == (forall n str :: {has(gr.nonRoots,n)} !undef(gr,n))
  ensures[C20] err == nil ==> forall n str :: {has(gr.rootRules,n)} {has(gr.ruleRecords,n)} has(gr.rootRules,n) == (has(gr.ruleRecords,n) && !has(gr.nonRoots,n))
  ensures[C20] err == nil ==> forall n str, u str :: {has(gr.rootRules,n), has(gr.ruleRecords,u)} has(gr.rootRules,n) && has(gr.ruleRecords,u) ==> !rfs(gr.ruleRecords[u].rule)[n]
  ensures[C20] err == nil ==> forall n str :: {has(gr.ruleRecords,n)} has(gr.ruleRecords,n) && !has(gr.rootRules,n) ==> has(gr.ruleRecords, gr.nonRoots[n][0]) && rfs(gr.ruleRecords[gr.nonRoots[n][0]].rule)[n]
  ensures[C20] err == nil ==> forall n str :: {has(gr.rootRules,n)} {gr.rootRules[n]} has(gr.rootRules,n) ==> gr.rootRules[n] == gr.ruleRecords[n]
  ensures[C20] err == nil ==> forall n str :: {has(gr.terminals,n)} {has(gr.ruleRecords,n)} has(gr.terminals,n) == isTerminal(gr,n)
  ensures[C20] err == nil ==> forall n str :: {has(gr.terminals,n)} {gr.terminals[n]} has(gr.terminals,n) ==> gr.terminals[n] == gr.ruleRecords[n]
  ensures[C27] err == nil ==> rooted(gr)
loop Grammar.Validate#1
  inv forall n str :: {_vis[n]} _vis[n] ==> has(gr.ruleRecords,n)
  inv forall u str :: {has(nonTerminals,u)} has(nonTerminals,u) ==> has(gr.ruleRecords,u) && some(rfs(gr.ruleRecords[u].rule))
  inv forall n str, j int :: {_vis[n], gr.nonRoots[n][j]} _vis[n] && 0 <= j && j < len(gr.nonRoots[n]) ==> has(nonTerminals, gr.nonRoots[n][j])
loop Grammar.Validate#2
  inv forall u str :: {has(nonTerminals,u)} has(nonTerminals,u) ==> has(gr.ruleRecords,u) && some(rfs(gr.ruleRecords[u].rule))
  inv forall n str, j int :: {_vis[n], gr.nonRoots[n][j]} _vis[n] && 0 <= j && j < len(gr.nonRoots[n]) ==> has(nonTerminals, gr.nonRoots[n][j])
  inv forall j int :: {children[j]} 0 <= j && j < _i ==> has(nonTerminals, children[j])
loop Grammar.Validate#3
  inv forall n str :: {_vis[n]} _vis[n] ==> has(gr.ruleRecords,n)
  inv forall n str :: {_vis[n]} {has(gr.terminals,n)} has(gr.terminals,n) == (_vis[n] && !has(nonTerminals,n))
  inv forall n str :: {has(gr.terminals,n)} {gr.terminals[n]} has(gr.terminals,n) ==> gr.terminals[n] == gr.ruleRecords[n]
loop Grammar.Validate#4
  inv forall n str :: {_vis[n]} _vis[n] ==> has(gr.ruleRecords,n)
  inv forall n str :: {has(gr.terminals,n)} has(gr.terminals,n) ==> has(gr.ruleRecords,n)
  inv forall n str :: {has(gr.terminals,n)} has(gr.terminals,n) ==> !some(rfs(gr.ruleRecords[n].rule))
  inv forall n str :: {has(gr.terminals,n)} isTerminal(gr,n) ==> has(gr.terminals,n)
  inv forall n str :: {has(gr.terminals,n)} {gr.terminals[n]} has(gr.terminals,n) ==> gr.terminals[n] == gr.ruleRecords[n]
  inv forall n str :: {_vis[n]} {has(gr.rootRules,n)} has(gr.rootRules,n) == (_vis[n] && !has(gr.nonRoots,n))
  inv forall n str :: {has(gr.rootRules,n)} {gr.rootRules[n]} has(gr.rootRules,n) ==> gr.rootRules[n] == gr.ruleRecords[n]

contract NewGrammarFromString(s) (gr, err)
  sem C27
  covers C27, C20
  requires RI()
  modifies VR where t :: false
  modifies map(Grammar.ruleRecords), map(Grammar.nonRoots) where t :: false
  ensures[C27] RI()
  ensures[C27] (err == nil) == (gr != nil)
  ensures[C27] err == nil ==> GR(gr) && fresh(gr)
  ensures[C27] err == nil ==> rooted(gr)
  ensures[C20] err == nil ==> GN(gr)
  ensures[C20] err == nil ==> GU(gr)
loop NewGrammarFromString#1
  inv RI()
  inv fresh(grammar.ruleRecords) && fresh(grammar.nonRoots)
  inv GR(grammar) && fresh(grammar) && GN(grammar) && GU(grammar)
