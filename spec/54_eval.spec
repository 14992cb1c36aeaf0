// Parsing and simplifying, and the printed form of a tree.
contract Grammar.Eval(gr, cs, level) (ast, err)
  covers C12, C13, C14, C15, C16, C18, C19, C21
  requires GI(gr) && rooted(gr)
  requires NI()
  requires[C13,C19] TI() && TV()
  requires stream(cs)
  requires[lock] unlocked(cs)
  let T = text(cs)
  let p = CUR(cs)
  let d = dom(gr.rootRules)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies Node.ChildNodes, Node.Chars, Node.Sticky, VN, PA, OP where t :: VN(t)
  modifies NR, NQ, NF, LO, HI, TW, TB where t :: false
  modifies TX, TE, DV, DD where t :: true
  ensures (ast == nil) == (err != nil)
  ensures[C12,C16] (err == nil) == (p < len(T) && wok(gr,T,d,p,SUGGEST_SKIP))
  ensures[C15] NI()
  ensures[C15] err == nil ==> forest(ast.Nodes, ast)
  ensures[C13,C19] TI()
  ensures[C13,C19] err == nil && plain(gr) && level != LevelNoVertual && level != LevelDataOnly ==> contig(ast.Nodes) && 0 < len(ast.Nodes) && TW(ast.Nodes[0]) == nows(T) && TB(ast.Nodes[0]) == nwc(T,p) && TE(ast.Nodes[len(ast.Nodes)-1]) == len(nows(T))

contract DefaultNodeTreeConfig() (c)
  ensures fresh(c)
contract Node.header(n, config) (s)
  requires n != nil && config != nil
  pure
  covers C15
contract Node.StringTree(n, config) (s)
  requires NI() && VN(n)
  requires[C13,C19] TI()
  decreases HI(n) - LO(n)
  pure
  covers C15
contract AST.StringTree(a, config) (s)
  requires NI() && (a != nil ==> trees(a.Nodes))
  requires[C13,C19] TI()
  pure
  covers C15
