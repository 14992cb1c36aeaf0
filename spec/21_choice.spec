// The alternatives of a choice, and other lists of rules of which the longest match counts.
// Among the first k rules of the list g: how many match (cnt), the most chars used by one that matches (mx, -1 for none),
// the first one that uses as many (wi), another one that uses as many (tied), whether there is one (tie); slist: all are sticky.
func cnt(gr ref, t SI, g SI, p int, f int, k int) int
func mx(gr ref, t SI, g SI, p int, f int, k int) int
func wi(gr ref, t SI, g SI, p int, f int, k int) int
func tie(gr ref, t SI, g SI, p int, f int, k int) bool
func tied(gr ref, t SI, g SI, p int, f int, k int) int
func slist(gr ref, t SI, g SI, p int, f int, k int) bool
axiom list_0: forall gr ref, t SI, g SI, p int, f int :: {cnt(gr,t,g,p,f,0)} {mx(gr,t,g,p,f,0)} {wi(gr,t,g,p,f,0)} {tie(gr,t,g,p,f,0)} {slist(gr,t,g,p,f,0)}
  cnt(gr,t,g,p,f,0) == 0 && mx(gr,t,g,p,f,0) == 0-1 && wi(gr,t,g,p,f,0) == 0-1 && !tie(gr,t,g,p,f,0) && tied(gr,t,g,p,f,0) == 0-1 && slist(gr,t,g,p,f,0)
axiom cnt_step: forall gr ref, t SI, g SI, p int, f int, k int :: {cnt(gr,t,g,p,f,k), g[k]} 0 <= k && k < len(g) ==> cnt(gr,t,g,p,f,k+1) == cnt(gr,t,g,p,f,k) + (if M(gr,t,g[k],p,f) then 1 else 0)
axiom win_step: forall gr ref, t SI, g SI, p int, f int, k int :: {mx(gr,t,g,p,f,k), g[k]} {wi(gr,t,g,p,f,k), g[k]} {tie(gr,t,g,p,f,k), g[k]} 0 <= k && k < len(g) ==>
  (if M(gr,t,g[k],p,f) && mx(gr,t,g,p,f,k) < U(gr,t,g[k],p,f) then mx(gr,t,g,p,f,k+1) == U(gr,t,g[k],p,f) && wi(gr,t,g,p,f,k+1) == k && !tie(gr,t,g,p,f,k+1) && tied(gr,t,g,p,f,k+1) == 0-1
   else (mx(gr,t,g,p,f,k+1) == mx(gr,t,g,p,f,k) && wi(gr,t,g,p,f,k+1) == wi(gr,t,g,p,f,k)
     && (if M(gr,t,g[k],p,f) && mx(gr,t,g,p,f,k) == U(gr,t,g[k],p,f) then tie(gr,t,g,p,f,k+1) && tied(gr,t,g,p,f,k+1) == k
         else tie(gr,t,g,p,f,k+1) == tie(gr,t,g,p,f,k) && tied(gr,t,g,p,f,k+1) == tied(gr,t,g,p,f,k))))
axiom slist_step: forall gr ref, t SI, g SI, p int, f int, k int :: {slist(gr,t,g,p,f,k), g[k]} 0 <= k && k < len(g) ==> slist(gr,t,g,p,f,k+1) == (slist(gr,t,g,p,f,k) && S(gr,t,g[k],p,f))

// what they mean, whatever the order of g
lemma[C08,C11,C12] win_most induct k using mx(gr,t,g,p,f,k-1), g[k-1]: forall gr ref, t SI, g SI, p int, f int, k int, j int :: {mx(gr,t,g,p,f,k), g[j]} 0 <= j && j < k && k <= len(g) && M(gr,t,g[j],p,f) ==> U(gr,t,g[j],p,f) <= mx(gr,t,g,p,f,k)
lemma[C08,C11,C12] win_is induct k using mx(gr,t,g,p,f,k-1), g[k-1], mx(gr,t,g,p,f,0): forall gr ref, t SI, g SI, p int, f int, k int :: {wi(gr,t,g,p,f,k)} {mx(gr,t,g,p,f,k)} 0 <= k && k <= len(g) ==>
  0-1 <= wi(gr,t,g,p,f,k) && wi(gr,t,g,p,f,k) < k && 0-1 <= mx(gr,t,g,p,f,k)
  && (if wi(gr,t,g,p,f,k) < 0 then mx(gr,t,g,p,f,k) == 0-1 else M(gr,t,g[wi(gr,t,g,p,f,k)],p,f) && U(gr,t,g[wi(gr,t,g,p,f,k)],p,f) == mx(gr,t,g,p,f,k) && 0 <= mx(gr,t,g,p,f,k))
lemma[C08,C11,C12] win_tied induct k using mx(gr,t,g,p,f,k-1), g[k-1], mx(gr,t,g,p,f,0), wi(gr,t,g,p,f,k-1): forall gr ref, t SI, g SI, p int, f int, k int :: {tie(gr,t,g,p,f,k)} 0 <= k && k <= len(g) && tie(gr,t,g,p,f,k) ==>
  0 <= tied(gr,t,g,p,f,k) && tied(gr,t,g,p,f,k) < k && tied(gr,t,g,p,f,k) != wi(gr,t,g,p,f,k) && M(gr,t,g[tied(gr,t,g,p,f,k)],p,f) && U(gr,t,g[tied(gr,t,g,p,f,k)],p,f) == mx(gr,t,g,p,f,k)
lemma[C08,C11,C12] win_only induct k using mx(gr,t,g,p,f,k-1), g[k-1], wi(gr,t,g,p,f,k-1): forall gr ref, t SI, g SI, p int, f int, k int, j int :: {wi(gr,t,g,p,f,k), g[j]} 0 <= j && j < k && k <= len(g) && M(gr,t,g[j],p,f) && !tie(gr,t,g,p,f,k) && j != wi(gr,t,g,p,f,k) ==> U(gr,t,g[j],p,f) < mx(gr,t,g,p,f,k)

// sel(y): the y-th rule of g that matches
func sel(gr ref, t SI, g SI, p int, f int, y int) int
axiom sel_def: forall gr ref, t SI, g SI, p int, f int, k int :: {cnt(gr,t,g,p,f,k), g[k]} 0 <= k && k < len(g) && M(gr,t,g[k],p,f) ==> sel(gr,t,g,p,f,cnt(gr,t,g,p,f,k)) == k
lemma cnt_mono induct b using cnt(gr,t,g,p,f,b-1), g[b-1]: forall gr ref, t SI, g SI, p int, f int, a int, b int :: {cnt(gr,t,g,p,f,a), cnt(gr,t,g,p,f,b)} 0 <= a && a <= b && b <= len(g) ==> cnt(gr,t,g,p,f,a) <= cnt(gr,t,g,p,f,b)
lemma cnt_pos induct b using cnt(gr,t,g,p,f,b-1), g[b-1], cnt(gr,t,g,p,f,0): forall gr ref, t SI, g SI, p int, f int, b int :: {cnt(gr,t,g,p,f,b)} 0 <= b && b <= len(g) ==> 0 <= cnt(gr,t,g,p,f,b) && cnt(gr,t,g,p,f,b) <= b
lemma sel_in induct k using cnt(gr,t,g,p,f,k-1), g[k-1], cnt(gr,t,g,p,f,0): forall gr ref, t SI, g SI, p int, f int, k int, y int :: {cnt(gr,t,g,p,f,k), sel(gr,t,g,p,f,y)} 0 <= y && y < cnt(gr,t,g,p,f,k) && 0 <= k && k <= len(g)
  ==> 0 <= sel(gr,t,g,p,f,y) && sel(gr,t,g,p,f,y) < k && M(gr,t,g[sel(gr,t,g,p,f,y)],p,f) && cnt(gr,t,g,p,f,sel(gr,t,g,p,f,y)) == y
lemma cnt_same induct b using cnt(gr,t,g,p,f,b-1), g[b-1], mx(gr,t,g,p,f,b-1), cnt(gr,t,g,p,f,a): forall gr ref, t SI, g SI, p int, f int, a int, b int :: {mx(gr,t,g,p,f,a), mx(gr,t,g,p,f,b)} 0 <= a && a <= b && b <= len(g) && cnt(gr,t,g,p,f,a) == cnt(gr,t,g,p,f,b)
  ==> mx(gr,t,g,p,f,a) == mx(gr,t,g,p,f,b) && wi(gr,t,g,p,f,a) == wi(gr,t,g,p,f,b) && tie(gr,t,g,p,f,a) == tie(gr,t,g,p,f,b)
lemma win_one using mx(gr,t,g,p,f,0), mx(gr,t,g,p,f,sel(gr,t,g,p,f,0)), mx(gr,t,g,p,f,sel(gr,t,g,p,f,0)+1), mx(gr,t,g,p,f,k), cnt(gr,t,g,p,f,sel(gr,t,g,p,f,0)), g[sel(gr,t,g,p,f,0)], cnt(gr,t,g,p,f,sel(gr,t,g,p,f,0)+1), cnt(gr,t,g,p,f,0):
  forall gr ref, t SI, g SI, p int, f int, k int :: {cnt(gr,t,g,p,f,k), sel(gr,t,g,p,f,0)} 0 < k && k <= len(g) && cnt(gr,t,g,p,f,k) == 1 && 0 <= U(gr,t,g[sel(gr,t,g,p,f,0)],p,f)
  ==> wi(gr,t,g,p,f,k) == sel(gr,t,g,p,f,0) && !tie(gr,t,g,p,f,k) && mx(gr,t,g,p,f,k) == U(gr,t,g[sel(gr,t,g,p,f,0)],p,f)

// the first of the ordered groups gs that has a match
func fg(gr ref, t SI, gs SQ, p int, f int) int
axiom fg_in: forall gr ref, t SI, gs SQ, p int, f int :: {fg(gr,t,gs,p,f)} 0 <= fg(gr,t,gs,p,f) && fg(gr,t,gs,p,f) <= len(gs) && (fg(gr,t,gs,p,f) < len(gs) ==> 0 < cnt(gr,t,gs[fg(gr,t,gs,p,f)],p,f,len(gs[fg(gr,t,gs,p,f)])))
axiom fg_min: forall gr ref, t SI, gs SQ, p int, f int, i int :: {fg(gr,t,gs,p,f), gs[i]} 0 <= i && i < fg(gr,t,gs,p,f) ==> cnt(gr,t,gs[i],p,f,len(gs[i])) == 0
func sgrp(gr ref, t SI, gs SQ, p int, f int, i int) bool
axiom sgrp_0: forall gr ref, t SI, gs SQ, p int, f int :: {sgrp(gr,t,gs,p,f,0)} sgrp(gr,t,gs,p,f,0)
axiom sgrp_step: forall gr ref, t SI, gs SQ, p int, f int, i int :: {sgrp(gr,t,gs,p,f,i), gs[i]} 0 <= i && i < len(gs) ==> sgrp(gr,t,gs,p,f,i+1) == (sgrp(gr,t,gs,p,f,i) && slist(gr,t,gs[i],p,f,len(gs[i])))

// the result of a rule that matched
def got(res *EvalResult, gr ref, T SI, r ref, p int, f int, lim int) = alloced(res) && is(res, EvalResult) && alloced(res.Node) && is(res.Node, Node) && VN(res.Node)
  && nread(res) <= lim && nused(res) == U(gr,T,r,p,f) && 0 <= nused(res)
  && (nused(res) == 0 ==> nul(r)) && p + nused(res) <= (if PS(gr,T,r,p,f) < 0 then wsEnd(T,p) else len(T))
  && (0 <= PS(gr,T,r,p,f) ==> p <= PS(gr,T,r,p,f) && PS(gr,T,r,p,f) <= wsEnd(T,p))
  && made(gr, res.Node, r, p, f) && posIs(res.Node.Position, T, PS(gr,T,r,p,f)) && PA(res.Node) == nil && old(alloc) <= LO(res.Node) && HI(res.Node) <= alloc
def gotx(res *EvalResult, gr ref, T SI, r ref, f int) = noesc(r) ==> txtm(gr, res.Node, T, r, f)

contract ChoiceRule.Eval(r, gr, cs, f) (res)
  implements IRule.Eval
  sem C08
  let gs = r.groups
  let w = fg(gr,T,gs,p,f)
  let g = gs[w]
  let win = wi(gr,T,g,p,f,len(g))
  define M(gr,T,r,p,f) == (w < len(gs) && !tie(gr,T,g,p,f,len(g)))
  define U(gr,T,r,p,f) == U(gr,T,g[win],p,f)
  define S(gr,T,r,p,f) == (if w < len(gs) then !tie(gr,T,g,p,f,len(g)) && sgrp(gr,T,gs,p,f,w+1) else sgrp(gr,T,gs,p,f,w)) && !O(gr,T,r,p,f)
  define PS(gr,T,r,p,f) == PS(gr,T,g[win],p,f)
  define NM(gr,r) == r.name && RT(gr,r) == TypeChoice && FT(gr,r) == r.tokenized && FV(gr,r) == r.virtual && FD(gr,r) == r.nondata && RR(gr,r) == r
  exit PA(res.Node.ChildNodes[0]) = res.Node when res.Node != nil
  exit NR(res.Node) = r when res.Node != nil
  exit NQ(res.Node) = p when res.Node != nil
  exit NF(res.Node) = f when res.Node != nil
  exit LO(res.Node) = old(alloc) when res.Node != nil
  exit HI(res.Node) = alloc when res.Node != nil
  exit VN(res.Node) = true when res.Node != nil
  exit PA(res.Node) = nil when res.Node != nil
  exit OP(res.Node) = false when res.Node != nil
  exit TX(res.Node) = noesc(r) when res.Node != nil
  exit TW(res.Node) = nows(T) when res.Node != nil
  exit TB(res.Node) = nwc(T,p) when res.Node != nil
  exit TE(res.Node) = nwc(T,p+nused(res)) when res.Node != nil
  hint[C13] res.Node != nil && noesc(r) ==> texted(res.Node)
  hint[C13] forall n ref :: {TX(n)} TX(n) && n != res.Node ==> alloced(n) && (!OP(n) ==> texted(n))
  hint[C15] res.Node != nil ==> tree(res.Node)
  hint[C15] forall n ref :: {VN(n)} VN(n) && n != res.Node ==> tree(n)
  ensures[C08] res.Node != nil ==> len(res.Node.ChildNodes) == 1 && made(gr, res.Node.ChildNodes[0], g[win], p, f) && len(res.Node.Chars) == 0
loop ChoiceRule.Eval#1
  inv stream(charstream) && unlocked(charstream)
  inv p + nread(evalResult) <= len(T) && evalResult.CharsRead == T[p:p+nread(evalResult)] && moved(charstream, p + nread(evalResult))
  inv evalResult.Node == nil && len(evalResult.CharsUnused) == 0
  inv[C15] NI()
  inv[C13] TI()
  inv _i <= w && resultFound == nil
  inv sticky == sgrp(gr,T,gs,p,f,_i)
loop ChoiceRule.Eval#2
  inv stream(charstream) && unlocked(charstream)
  inv p + nread(evalResult) <= len(T) && evalResult.CharsRead == T[p:p+nread(evalResult)] && moved(charstream, p + nread(evalResult))
  inv evalResult.Node == nil && len(evalResult.CharsUnused) == 0
  inv[C15] NI()
  inv[C13] TI()
  inv len(resultsMatched) == cnt(gr,T,group,p,f,_i)
  inv forall y int :: {resultsMatched[y]} 0 <= y && y < len(resultsMatched) ==> got(resultsMatched[y], gr, T, group[sel(gr,T,group,p,f,y)], p, f, nread(evalResult)) && resultsMatched[y] != evalResult
  inv[C15] forall y int :: {resultsMatched[y]} 0 <= y && y < len(resultsMatched) ==> node < LO(resultsMatched[y].Node)
  inv[C13] forall y int :: {resultsMatched[y]} 0 <= y && y < len(resultsMatched) ==> gotx(resultsMatched[y], gr, T, group[sel(gr,T,group,p,f,y)], f)
  inv sticky == (sgrp(gr,T,gs,p,f,_o) && slist(gr,T,group,p,f,_i))
loop ChoiceRule.Eval#3
  let k = if _i < cnt(gr,T,group,p,f,len(group)) then sel(gr,T,group,p,f,_i) else len(group)
  inv mx(gr,T,group,p,f,k) == (if resultFound == nil then 0-1 else maxUsed)
  inv 0 <= maxUsed && (resultFound == nil ==> maxUsed == 0)
  inv resultFound != nil ==> got(resultFound, gr, T, group[wi(gr,T,group,p,f,k)], p, f, nread(evalResult)) && resultFound != evalResult
  inv[C15] resultFound != nil ==> node < LO(resultFound.Node)
  inv[C13] resultFound != nil ==> gotx(resultFound, gr, T, group[wi(gr,T,group,p,f,k)], f)
  inv (resultTied != nil) == tie(gr,T,group,p,f,k)
  inv resultTied != nil ==> resultFound != nil && alloced(resultTied) && alloced(resultTied.Node) && VN(resultTied.Node)

func rkl(g SI) int
axiom rkl_pos: forall g SI :: {rkl(g)} 0 <= rkl(g)
axiom rkl_up: forall g SI, j int :: {rkl(g), g[j]} 0 <= j && j < len(g) ==> rk(g[j]) < rkl(g)

contract mostGreedy(gr, cs, f, g) (res)
  covers C21
  requires GI(gr)
  requires[C15] NI()
  requires[C13] TI()
  requires forall j int :: {g[j]} 0 <= j && j < len(g) ==> VR(g[j])
  requires stream(cs)
  requires[lock] unlocked(cs)
  let T = text(cs)
  let p = CUR(cs)
  let n = len(g)
  let w = wi(gr,T,g,p,f,n)
  decreases len(T) - p, rkl(g)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(cs,t)
  modifies NR, NQ, NF, VN, LO, HI, PA, OP, TX, TW, TB, TE where t :: false
  ensures fresh(res)
  ensures[C06,C08,C11,C12] p + nread(res) <= len(T) && res.CharsRead == T[p:p+nread(res)]
  ensures[C06,C08,C11,C12] moved(cs, p + nread(res))
  ensures[C06,C08,C11,C12] 0 <= nused(res) && res.CharsUnused == T[p+nused(res):p+nread(res)]
  ensures[C06,C08,C11,C12] res.Node == nil ==> nused(res) == 0
  ensures[C06,C08,C11,C12] stream(cs)
  ensures[C15] NI()
  ensures[C13] TI()
  ensures[C13] res.Node != nil ==> gotx(res, gr, T, g[w], f)
  ensures[C08,C11,C12] (res.Node != nil) == (0 < cnt(gr,T,g,p,f,n) && !tie(gr,T,g,p,f,n))
  ensures[C08,C11,C12] (res.Error != nil) == tie(gr,T,g,p,f,n)
  ensures[C08,C11,C12] res.Node != nil ==> got(res, gr, T, g[w], p, f, len(T)-p) && res.Sticky == S(gr,T,g[w],p,f) && fresh(res.Node)
loop mostGreedy#1
  let m = len(maxCharsRead)
  inv stream(cs) && unlocked(cs)
  inv p + m <= len(T) && maxCharsRead == T[p:p+m] && moved(cs, p + m)
  inv[C15] NI()
  inv[C13] TI()
  inv len(resultsMatched) == cnt(gr,T,g,p,f,_i)
  inv forall y int :: {resultsMatched[y]} 0 <= y && y < len(resultsMatched) ==> got(resultsMatched[y], gr, T, g[sel(gr,T,g,p,f,y)], p, f, m) && resultsMatched[y].Sticky == S(gr,T,g[sel(gr,T,g,p,f,y)],p,f) && resultsMatched[y] != evalResult && fresh(resultsMatched[y].Node)
  inv[C13] forall y int :: {resultsMatched[y]} 0 <= y && y < len(resultsMatched) ==> gotx(resultsMatched[y], gr, T, g[sel(gr,T,g,p,f,y)], f)
loop mostGreedy#2
  let k = if _i < cnt(gr,T,g,p,f,n) then sel(gr,T,g,p,f,_i) else n
  inv mx(gr,T,g,p,f,k) == (if maxResult == nil then 0-1 else maxUsed)
  inv 0 <= maxUsed && (maxResult == nil ==> maxUsed == 0)
  inv maxResult != nil ==> got(maxResult, gr, T, g[wi(gr,T,g,p,f,k)], p, f, len(maxCharsRead)) && maxResult.Sticky == S(gr,T,g[wi(gr,T,g,p,f,k)],p,f) && maxResult != evalResult && fresh(maxResult.Node)
  inv[C13] maxResult != nil ==> gotx(maxResult, gr, T, g[wi(gr,T,g,p,f,k)], f)
  inv (tiedResult != nil) == tie(gr,T,g,p,f,k)
  inv tiedResult != nil ==> maxResult != nil && alloced(tiedResult) && alloced(tiedResult.Node) && VN(tiedResult.Node)
