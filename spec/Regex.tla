------------------------------- MODULE Regex --------------------------------
(* Regular expressions as trees, matched leftmost-first against a whole text, *)
(* with captures.  Nodes:                                                     *)
(*   [k |-> "lit", s]            literal text                                 *)
(*   [k |-> "cls", neg, r]       character class, r a sequence of ranges      *)
(*   [k |-> "any"]               dot: any character but a line feed           *)
(*   [k |-> "cat", a] [k |-> "alt", a]   sequences of nodes                   *)
(*   [k |-> "rep", lo, hi, g, a] repetition (hi = -1: unbounded; g: greedy)   *)
(*   [k |-> "cap", n, a]         named group; the name is a field path text   *)
(*   [k |-> "grp", a]            unnamed group                                *)
(*   [k |-> "ci", a] [k |-> "dotall", a]   scoped flags                       *)
(*   [k |-> "nci", a] [k |-> "nds", a]   the same flags, off                  *)
(*   [k |-> "bos"] [k |-> "eos"] ^ and $; "mbos" and "meos" are those of lines *)
(*   [k |-> "wb"] [k |-> "nwb"]  a word begins or ends here, or does not      *)
(* a is always a sequence of nodes (one node for the unary kinds).            *)
EXTENDS Text

Lit(s) == [k |-> "lit", s |-> s]
Cls(r) == [k |-> "cls", neg |-> FALSE, r |-> r]
Cat(a) == [k |-> "cat", a |-> a]
Alt(a) == [k |-> "alt", a |-> a]
Rep(lo, hi, g, x) == [k |-> "rep", lo |-> lo, hi |-> hi, g |-> g, a |-> <<x>>]
AnyChar == Cls(<<<<0, 1114111>>>>)
LazyAny == Rep(0, -1, FALSE, AnyChar)
Star(x) == Rep(0, -1, TRUE, x)
Plus(x) == Rep(1, -1, TRUE, x)
Opt(x) == Rep(0, 1, TRUE, x)
DigitCls == Cls(<<<<48, 57>>>>)
\* capture, labelled with a field index and the path of a nested field
Cap(f, p, x) == [k |-> "lab", f |-> f, p |-> p, a |-> <<x>>]

InCls(c, n) == LET in == \E i \in 1..Len(n.r) : n.r[i][1] <= c /\ c <= n.r[i][2]
               IN IF n.neg THEN ~in ELSE in

\* the scoped flags pushed down to literals and classes
\* the other case of a cased character (ASCII and Latin-1), or the character itself
OtherCase(c) == IF IsUpper(c) THEN c + 32 ELSE IF IsLower(c) THEN c - 32
                ELSE IF c \in 192..222 /\ c # 215 THEN c + 32 ELSE IF c \in 224..254 /\ c # 247 THEN c - 32 ELSE c
RECURSIVE Norm(_, _, _)
Norm(n, ci, ds) ==
  LET Sub == MapSeq(LAMBDA x : Norm(x, ci, ds), n.a)
      CiRanges(r) == Flatten(MapSeq(LAMBDA p :
          LET lo == IF p[1] < 97 THEN 97 ELSE p[1]   hi == IF p[2] > 122 THEN 122 ELSE p[2]
              ulo == IF p[1] < 65 THEN 65 ELSE p[1]  uhi == IF p[2] > 90 THEN 90 ELSE p[2]
          IN <<p>> \o (IF lo <= hi THEN <<<<lo - 32, hi - 32>>>> ELSE <<>>)
                   \o (IF ulo <= uhi THEN <<<<ulo + 32, uhi + 32>>>> ELSE <<>>), r))
  IN CASE n.k = "lit" -> IF ~ci THEN n
                         ELSE Cat(MapSeq(LAMBDA c : Cls(<<<<c, c>>, <<OtherCase(c), OtherCase(c)>>>>), n.s))
       [] n.k = "cls" -> IF ~ci THEN n ELSE [n EXCEPT !.r = CiRanges(n.r)]
       [] n.k = "any" -> IF ds THEN AnyChar ELSE [k |-> "cls", neg |-> TRUE, r |-> <<<<NL, NL>>>>]
       [] n.k \in {"cat", "alt", "rep", "cap", "lab"} -> [n EXCEPT !.a = Sub]
       [] n.k = "grp" -> Sub[1]
       [] n.k = "ci" -> Norm(n.a[1], TRUE, ds)
       [] n.k = "dotall" -> Norm(n.a[1], ci, TRUE)
       [] n.k = "nci" -> Norm(n.a[1], FALSE, ds)
       [] n.k = "nds" -> Norm(n.a[1], ci, FALSE)
       [] OTHER -> n

\* the letters, digits, marks and connectors among the characters in use
WordCls == Cls(<<<<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<170, 170>>, <<181, 181>>, <<186, 186>>, <<192, 214>>, <<216, 246>>, <<248, 591>>, <<768, 879>>, <<913, 929>>, <<931, 937>>,
                 <<945, 969>>, <<19968, 40959>>>>)
\* what holds at a position, of the kinds "bos" ... "nwb"
Looks == {"bos", "eos", "mbos", "meos", "wb", "nwb"}
LookAt(k, x, i) ==
  LET before == i > 1 /\ InCls(x[i - 1], WordCls)
      after == i <= Len(x) /\ InCls(x[i], WordCls)
  IN CASE k = "bos" -> i = 1
       [] k = "eos" -> i = Len(x) + 1
       [] k = "mbos" -> i = 1 \/ x[i - 1] = NL
       [] k = "meos" -> i = Len(x) + 1 \/ x[i] = NL
       [] k = "wb" -> before # after
       [] k = "nwb" -> before = after

RECURSIVE Strip(_)
\* the tree without labels
Strip(n) == CASE n.k = "lab" -> Strip(n.a[1])
              [] n.k \in {"cat", "alt", "rep"} -> [n EXCEPT !.a = MapSeq(LAMBDA x : Strip(x), n.a)]
              [] OTHER -> n

RECURSIVE CapNames(_)
\* names of the named groups, in order
CapNames(n) == CASE n.k = "cap" -> <<n.n>> \o CapNames(n.a[1])
                 [] n.k \in {"cat", "alt", "rep", "grp", "ci", "dotall", "nci", "nds", "lab"} -> Flatten(MapSeq(LAMBDA x : CapNames(x), n.a))
                 [] OTHER -> <<>>
RECURSIVE Labels(_)
Labels(n) == CASE n.k = "lab" -> <<<<n.f, n.p>>>> \o Labels(n.a[1])
               [] n.k \in {"cat", "alt", "rep"} -> Flatten(MapSeq(LAMBDA x : Labels(x), n.a))
               [] OTHER -> <<>>

\* Backtracking matcher: st is the stack of things still to match, i the next
\* position, c the captures <<f, p, begin, end>> recorded so far (later wins).
\* Result: <<>> or <<captures>>.
RECURSIVE Run(_, _, _, _)
Run(st, s, i, c) ==
  IF st = <<>> THEN (IF i = Len(s) + 1 THEN <<c>> ELSE <<>>)
  ELSE
    LET n == Head(st)
        t == Tail(st)
    IN CASE n.k = "lit" -> IF At(s, i, n.s) THEN Run(t, s, i + Len(n.s), c) ELSE <<>>
         [] n.k = "cls" -> IF i <= Len(s) /\ InCls(s[i], n) THEN Run(t, s, i + 1, c) ELSE <<>>
         [] n.k = "cat" -> Run(n.a \o t, s, i, c)
         [] n.k = "alt" ->
              LET RECURSIVE F(_)
                  F(j) == IF j > Len(n.a) THEN <<>>
                          ELSE LET r == Run(<<n.a[j]>> \o t, s, i, c) IN IF r # <<>> THEN r ELSE F(j + 1)
              IN F(1)
         [] n.k = "rep" ->
              LET more == [n EXCEPT !.lo = IF @ > 0 THEN @ - 1 ELSE 0, !.hi = IF @ > 0 THEN @ - 1 ELSE @]
                  Again == Run(n.a \o <<[k |-> "prog", i |-> i], more>> \o t, s, i, c)
                  Leave == Run(t, s, i, c)
              IN IF n.lo > 0 THEN Run(n.a \o <<more>> \o t, s, i, c)
                 ELSE IF n.hi = 0 THEN Leave
                 ELSE IF n.g THEN (LET r == Again IN IF r # <<>> THEN r ELSE Leave)
                 ELSE (LET r == Leave IN IF r # <<>> THEN r ELSE Again)
         [] n.k = "prog" -> IF i > n.i THEN Run(t, s, i, c) ELSE <<>>
         [] n.k = "lab" -> Run(n.a \o <<[k |-> "end", f |-> n.f, p |-> n.p, i |-> i]>> \o t, s, i, c)
         [] n.k = "end" -> Run(t, s, i, <<<<n.f, n.p, n.i, i>>>> \o c)
         [] n.k \in Looks -> IF LookAt(n.k, s, i) THEN Run(t, s, i, c) ELSE <<>>

\* <<>> or <<captures>> of a sequence of nodes matched against the whole text
MatchAll(nodes, s) == Run(nodes, s, 1, <<>>)
\* the text captured under a label: <<>> or <<text>>
CapText(caps, f, p, s) ==
  LET RECURSIVE F(_)
      F(j) == IF j > Len(caps) THEN <<>>
              ELSE IF caps[j][1] = f /\ caps[j][2] = p THEN <<SubSeq(s, caps[j][3], caps[j][4] - 1)>>
              ELSE F(j + 1)
  IN F(1)
=============================================================================
