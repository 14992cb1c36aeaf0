// rfs(r): the names rule r refers to; urf(l): those the rules of a list refer to; sdl(l): a depth none of them exceeds
func rfs(r ref) VS
func urf(l SI) VS
func urw(l SI, n str) int
func sdl(l SI) int
axiom urf_in: forall l SI, j int, n str :: {urf(l)[n], l[j]} 0 <= j && j < len(l) && rfs(l[j])[n] ==> urf(l)[n]
axiom urf_is: forall l SI, n str :: {urf(l)[n]} urf(l)[n] ==> 0 <= urw(l,n) && urw(l,n) < len(l) && rfs(l[urw(l,n)])[n]
axiom sdl_is: forall l SI, j int :: {sdl(l), l[j]} 0 <= j && j < len(l) ==> sd(l[j]) <= sdl(l)
axiom sdl_pos: forall l SI :: {sdl(l)} 0 <= sdl(l)
slice rfs, urf, urw, urg, urgw, map.map_string___string.dom, map.map_string___string.val
