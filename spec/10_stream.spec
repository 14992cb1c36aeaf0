contract IsWhiteSpace(c) (r)
  covers C21
  define isWS(c) == unicodeWS(c)
  ensures[C26] r == isWS(c)
  pure

// ---------------------------------------------------------------- interface
contract ICharstream.Next(s) (c)
  covers C21
  decreases s
  requires stream(s)
  requires[lock] unlocked(s)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(s,t)
  ensures[C01,C04] old(CUR(s)) < len(text(s)) ==> c == text(s)[old(CUR(s))]
  ensures[C01,C04] old(CUR(s)) == len(text(s)) ==> c == 0-1
  ensures[C01,C04] moved(s, if old(CUR(s)) < len(text(s)) then old(CUR(s)) + 1 else old(CUR(s)))
  ensures[C01,C03,C04] stream(s)

contract ICharstream.Peek(s) (c)
  covers C21
  decreases s
  requires stream(s)
  requires[lock] unlocked(s)
  modifies ACQ where t :: chain(s,t)
  ensures[C01,C04] CUR(s) < len(text(s)) ==> c == text(s)[CUR(s)]
  ensures[C01,C04] CUR(s) == len(text(s)) ==> c == 0-1

contract ICharstream.Match(s, w) (r, ok)
  covers C21
  decreases s
  requires stream(s)
  requires[lock] unlocked(s)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(s,t)
  let p = CUR(s)
  let T = text(s)
  ensures[C02,C04] ok ==> p + len(w) <= len(T) && r == w
  ensures[C02,C04] ok ==> forall i int :: {T[p+i]} {w[i]} 0 <= i && i < len(w) ==> T[p+i] == w[i]
  ensures[C02,C04] !ok ==> len(r) <= len(w) && p + len(r) <= len(T)
  ensures[C02,C04] !ok && len(r) > 0 ==> forall i int :: {T[p+i]} {w[i]} 0 <= i && i < len(r) - 1 ==> T[p+i] == w[i]
  ensures[C02,C04] !ok && p + len(r) < len(T) ==> len(r) > 0 && T[p+len(r)-1] != w[len(r)-1]
  ensures[C02,C04] !ok && p + len(r) == len(T) && len(r) == len(w) ==> len(r) > 0 && T[p+len(r)-1] != w[len(r)-1]
  ensures[C01,C02,C04] r == T[p:p+len(r)]
  ensures[C01,C02,C04] moved(s, p + len(r))
  ensures[C01,C02,C03,C04] stream(s)

contract ICharstream.SkipSpaces(s) (r)
  covers C21
  decreases s
  requires stream(s)
  requires[lock] unlocked(s)
  modifies CharstreamString.cursor, positionMap.lines, CharstreamPrepend.cursor, CUR, ACQ where t :: chain(s,t)
  ensures[C01,C02,C04] r == text(s)[old(CUR(s)):wsEnd(text(s), old(CUR(s)))]
  ensures[C01,C02,C04] moved(s, wsEnd(text(s), old(CUR(s))))
  ensures[C01,C02,C03,C04] stream(s)

contract ICharstream.Position(s) (r)
  covers C21
  decreases s
  requires stream(s)
  requires[lock] unlocked(s)
  modifies ACQ, positionMap.lines where t :: chain(s,t)
  ensures[C03,C04] (r == nil) == (CUR(s) == len(text(s)))
  ensures[C03,C04] r != nil ==> fresh(r) && r.Line == nl(text(s), CUR(s)) + 1 && r.Col == CUR(s) - lastnl(text(s), CUR(s))
  ensures[C01,C03,C04] stream(s)

contract ICharstream.PositionLookup(s, i) (r)
  covers C21
  decreases s
  requires stream(s)
  requires[lock] unlocked(s)
  modifies ACQ where t :: chain(s,t)
  ensures[C03,C04] (r == nil) == (i != 0 && (i < 0 || CUR(s) <= i))
  ensures[C03,C04] r != nil ==> fresh(r) && r.Line == nl(text(s), i) + 1 && r.Col == i - lastnl(text(s), i)

contract ICharstream.Cursor(s) (r)
  covers C21
  decreases s
  requires stream(s)
  requires[lock] unlocked(s)
  modifies ACQ where t :: chain(s,t)
  ensures[C01,C04] r == CUR(s)

// ---------------------------------------------------------------- string stream
contract CharstreamString.Next(s) (c)
  implements ICharstream.Next
  exit CUR(s) = s.cursor
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamString.Peek(s) (c)
  implements ICharstream.Peek
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamString.Match(s, w) (r, ok)
  implements ICharstream.Match
  exit CUR(s) = s.cursor
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamString.SkipSpaces(s) (r)
  implements ICharstream.SkipSpaces
  exit CUR(s) = s.cursor
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamString.Position(s) (r)
  implements ICharstream.Position
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamString.PositionLookup(s, i) (r)
  implements ICharstream.PositionLookup
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamString.Cursor(s) (r)
  implements ICharstream.Cursor
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract NewCharstreamFromString(input) (r)
  exit CUR(r) = 0
  init text(r) = CharstreamString(r).chars
  init sbase(r) = 0
  ensures fresh(r)
  ensures[C01] text(r) == runesOf(input) && CUR(r) == 0
  ensures[C01,C03] stream(r)
  ensures is(r, CharstreamString) && sbase(r) == 0
  ensures[lock] unlocked(r)

// ---------------------------------------------------------------- stream over given-back chars
contract CharstreamPrepend.Next(s) (c)
  implements ICharstream.Next
  using chain(s, s.charstream), sbase(s)
  exit CUR(s) = CUR(s.charstream) - len(s.prepend) + s.cursor
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamPrepend.Peek(s) (c)
  implements ICharstream.Peek
  using chain(s, s.charstream), sbase(s)
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamPrepend.Match(s, w) (r, ok)
  implements ICharstream.Match
  using chain(s, s.charstream), sbase(s)
  exit CUR(s) = CUR(s.charstream) - len(s.prepend) + s.cursor
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamPrepend.SkipSpaces(s) (r)
  implements ICharstream.SkipSpaces
  using chain(s, s.charstream), sbase(s)
  exit CUR(s) = CUR(s.charstream) - len(s.prepend) + s.cursor
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamPrepend.Position(s) (r)
  implements ICharstream.Position
  using chain(s, s.charstream), sbase(s)
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract CharstreamPrepend.PositionLookup(s, i) (r)
  implements ICharstream.PositionLookup
  using chain(s, s.charstream), sbase(s)
  ensures[C05] ACQ(s) <= old(ACQ(s)) + 1

contract CharstreamPrepend.Cursor(s) (r)
  implements ICharstream.Cursor
  using chain(s, s.charstream), sbase(s)
  ensures[C05] ACQ(s) == old(ACQ(s)) + 1

contract newCharstreamPrepend(b, w) (r)
  covers C21
  requires stream(b)
  requires[lock] unlocked(b)
  ensures[lock] unlocked(r)
  requires len(w) <= CUR(b) && w == text(b)[CUR(b)-len(w):CUR(b)]
  exit CUR(r) = CUR(b) - len(w) when len(w) > 0
  init text(r) = text(b) when len(w) > 0
  init sbase(r) = b when len(w) > 0
  ensures[C04] text(r) == text(b) && CUR(r) == CUR(b) - len(w)
  ensures[C04] forall t ref :: {chain(r,t)} chain(r,t) == (t == r || chain(b,t))
  ensures r == b || fresh(r)
  ensures[C04] stream(r)

// ---------------------------------------------------------------- newline map
contract positionMap.update(m, idx, chars) ()
  covers C21
  requires m != nil
  requires[lock] CharstreamString(m).lock == 2
  requires[C03] posmap(m.lines, text(m))
  requires[C03] 0 <= idx && idx <= registered(m.lines) && idx + len(chars) <= len(text(m))
  requires[C03] forall i int :: {chars[i]} 0 <= i && i < len(chars) ==> chars[i] == text(m)[idx+i]
  modifies positionMap.lines where t :: t == m
  ensures[C03] posmap(m.lines, text(m))
  ensures[C03] registered(m.lines) == max(old(registered(m.lines)), idx + len(chars))
loop positionMap.update#1
  inv posmap(m.lines, text(m))
  inv idx == old(idx) + _i
  inv registered(m.lines) == max(old(registered(m.lines)), idx)

contract positionMap.lookup(m, idx) (r)
  covers C21
  using nl(text(m),idx), lastnl(text(m),idx), lastnl(text(m),0)
  requires m != nil
  requires[lock] 1 <= CharstreamString(m).lock
  requires[C03] posmap(m.lines, text(m))
  ensures[C03] (r == nil) == (idx < 0 || registered(m.lines) <= idx)
  ensures[C03] r != nil ==> fresh(r) && r.Line == nl(text(m), idx) + 1 && r.Col == idx - lastnl(text(m), idx)
loop positionMap.lookup#1
  inv 0-1 <= i && i <= maxLineIdx
  inv lineIdx == 0-1
  inv i < maxLineIdx ==> idx < m.lines[i+1]

loop CharstreamPrepend.SkipSpaces#1
  inv stream(s.charstream)
  inv 0 <= s.cursor && s.cursor <= len(s.prepend)
  inv charsRead == text(s)[old(CUR(s)):CUR(s.charstream) - len(s.prepend) + s.cursor]
  inv old(CUR(s)) <= CUR(s.charstream) - len(s.prepend) + s.cursor && CUR(s.charstream) - len(s.prepend) + s.cursor <= wsEnd(text(s), old(CUR(s)))
  inv s.cursor < len(s.prepend) ==> CUR(s.charstream) == old(CUR(s.charstream))
  inv forall t ref :: {CUR(t)} chain(s.charstream,t) ==> CUR(t) == max(old(CUR(t)), CUR(s.charstream))
  inv ACQ(s) == old(ACQ(s)) + 1
  decreases len(text(s)) - (CUR(s.charstream) - len(s.prepend) + s.cursor)

loop CharstreamPrepend.Match#1
  inv stream(s.charstream)
  inv 0 <= s.cursor && s.cursor <= len(s.prepend)
  inv result == text(s)[old(CUR(s)):CUR(s.charstream) - len(s.prepend) + s.cursor]
  inv CUR(s.charstream) - len(s.prepend) + s.cursor == old(CUR(s)) + _i && old(CUR(s)) + _i <= len(text(s))
  inv s.cursor < len(s.prepend) ==> CUR(s.charstream) == old(CUR(s.charstream))
  inv forall t ref :: {CUR(t)} chain(s.charstream,t) ==> CUR(t) == max(old(CUR(t)), CUR(s.charstream))
  inv forall k int :: {w[k]} {text(s)[old(CUR(s))+k]} 0 <= k && k < _i ==> text(s)[old(CUR(s))+k] == w[k]
  inv ACQ(s) == old(ACQ(s)) + 1

loop CharstreamString.SkipSpaces#1
  inv beginCur == old(s.cursor) && beginCur <= s.cursor && s.cursor <= wsEnd(text(s), beginCur)

loop CharstreamString.Match#1
  inv posmap(s.positionMap.lines, text(s)) && s.cursor <= registered(s.positionMap.lines)
  inv s.cursor == old(CUR(s)) + _i && s.cursor <= len(text(s))
  inv result == text(s)[old(CUR(s)):s.cursor]
  inv forall k int :: {w[k]} {text(s)[old(CUR(s))+k]} 0 <= k && k < _i ==> text(s)[old(CUR(s))+k] == w[k]
