-------------------------------- MODULE Lang ---------------------------------
(* Two further meanings of the regex trees of module Regex, for trees without *)
(* scoped flags: the set of positions a match from i can end at, and all      *)
(* matches in order of preference.  The matcher must agree with both.         *)
EXTENDS Regex

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), Closure(_, _, _)
EndsSeq(a, j, x, is) == IF j > Len(a) THEN is ELSE EndsSeq(a, j + 1, x, UNION {Ends(a[j], x, i) : i \in is})
Closure(n, x, is) == LET more == is \cup UNION {Ends(n, x, i) : i \in is} IN IF more = is THEN is ELSE Closure(n, x, more)
Ends(n, x, i) ==
  CASE n.k = "lit" -> IF At(x, i, n.s) THEN {i + Len(n.s)} ELSE {}
    [] n.k = "cls" -> IF i <= Len(x) /\ InCls(x[i], n) THEN {i + 1} ELSE {}
    [] n.k = "cat" -> EndsSeq(n.a, 1, x, {i})
    [] n.k = "alt" -> UNION {Ends(n.a[j], x, i) : j \in 1..Len(n.a)}
    [] n.k = "lab" -> Ends(n.a[1], x, i)
    [] n.k \in Looks -> IF LookAt(n.k, x, i) THEN {i} ELSE {}
    [] n.k = "rep" ->
         LET RECURSIVE Times(_, _)
             Times(m, is) == IF m = 0 THEN is ELSE Times(m - 1, UNION {Ends(n.a[1], x, j) : j \in is})
             base == Times(n.lo, {i})
             RECURSIVE Upto(_, _)
             Upto(m, is) == IF m = 0 THEN is ELSE is \cup Upto(m - 1, UNION {Ends(n.a[1], x, j) : j \in is})
         IN IF n.hi = -1 THEN Closure(n.a[1], x, base) ELSE Upto(n.hi - n.lo, base)
InLang(n, x) == Len(x) + 1 \in Ends(n, x, 1)

\* all matches from i in order of preference: <<end, captures>>, the latest capture first
RECURSIVE Matches(_, _, _, _), MatchesSeq(_, _, _, _, _)
MatchesSeq(a, j, x, i, c) ==
  IF j > Len(a) THEN <<<<i, c>>>>
  ELSE Flatten(MapSeq(LAMBDA m : MatchesSeq(a, j + 1, x, m[1], m[2]), Matches(a[j], x, i, c)))
Matches(n, x, i, c) ==
  CASE n.k = "lit" -> IF At(x, i, n.s) THEN <<<<i + Len(n.s), c>>>> ELSE <<>>
    [] n.k = "cls" -> IF i <= Len(x) /\ InCls(x[i], n) THEN <<<<i + 1, c>>>> ELSE <<>>
    [] n.k = "cat" -> MatchesSeq(n.a, 1, x, i, c)
    [] n.k = "alt" -> Flatten(MapSeq(LAMBDA y : Matches(y, x, i, c), n.a))
    [] n.k = "lab" -> MapSeq(LAMBDA m : <<m[1], <<<<n.f, n.p, i, m[1]>>>> \o m[2]>>, Matches(n.a[1], x, i, c))
    [] n.k \in Looks -> IF LookAt(n.k, x, i) THEN <<<<i, c>>>> ELSE <<>>
    [] n.k = "rep" ->
         LET less == [n EXCEPT !.lo = IF @ > 0 THEN @ - 1 ELSE 0, !.hi = IF @ > 0 THEN @ - 1 ELSE @]
             once(min) == SelectSeq(Matches(n.a[1], x, i, c), LAMBDA m : n.lo > 0 \/ m[1] > i)
             more == Flatten(MapSeq(LAMBDA m : Matches(less, x, m[1], m[2]), once(0)))
             stop == <<<<i, c>>>>
         IN IF n.lo > 0 THEN more ELSE IF n.hi = 0 THEN stop ELSE IF n.g THEN more \o stop ELSE stop \o more
\* the preferred match of the whole text: <<>> or <<captures>>
Preferred(n, x) ==
  LET whole == SelectSeq(Matches(n, x, 1, <<>>), LAMBDA m : m[1] = Len(x) + 1)
  IN IF whole = <<>> THEN <<>> ELSE <<whole[1][2]>>
=============================================================================
