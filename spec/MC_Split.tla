------------------------------ MODULE MC_Split ------------------------------
(* C03.  A text is accepted exactly if it can be cut into the literal pieces  *)
(* of the format and one piece per field, and of all the ways to cut it the   *)
(* one with the shortest first piece (then second, ...) is taken.             *)
EXTENDS Scope

L(seq) == MapSeq(LAMBDA x : T(x), seq)
Br(k) == T("{") \o T(k) \o T("}")
Str == Sc("str")
AB == T("-xa")
\* two fields, in either order
Two == MapSeq(LAMBDA p :
         LET swap == Len(p[1]) = 1 /\ p[3] = <<>>
             f == IF swap THEN p[1] \o Br("b") \o p[2] \o Br("a") \o p[3] ELSE p[1] \o Br("a") \o p[2] \o Br("b") \o p[3]
         IN Entry(<<Struct("X", <<Fmt(f)>>, <<Fld("a", Str, <<>>), Fld("b", Str, <<>>)>>)>>, AB, Pick(4, 6)),
         Prod3(L(<<"", "x">>), L(<<"", "-", "--", "x-">>), L(<<"", "-", "x">>)))
Three == MapSeq(LAMBDA p :
         Entry(<<Struct("X", <<Fmt(Br("0") \o p[1] \o Br("1") \o p[2] \o Br("2"))>>, <<Fld("0", Str, <<>>), Fld("1", Str, <<>>), Fld("2", Str, <<>>)>>)>>, T("-x"), Pick(6, 8)),
         Prod2(L(<<"-", "x", "--">>), L(<<"-", "x", "-x">>)))
\* fields of nested types
Inner(f) == Struct("I", <<Fmt(f)>>, <<Fld("x", Str, <<>>), Fld("y", Str, <<>>)>>)
Nested == MapSeq(LAMBDA p :
         Entry(<<Inner(Br("x") \o p[1] \o Br("y")), Struct("X", <<Fmt(Br("l") \o p[2] \o Br("r"))>>, <<Fld("l", Ref(1), <<>>), Fld("r", Ref(1), <<>>)>>)>>, T("-x"), Pick(6, 8)),
         Prod2(L(<<"-", "x", "x-">>), L(<<"-", "--", "x">>)))
\* nested paths
DefaultI == [Struct("I", <<>>, <<Fld("x", Str, <<>>), Fld("y", Str, <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("dx"), T("dy")>>>>]
Deep == MapSeq(LAMBDA p :
         Entry(<<DefaultI, Struct("X", <<Fmt(p[1] \o Br("a.x") \o p[2] \o Br("a.y") \o p[3] \o Br("b"))>>,
                                 <<Fld("a", Ref(1), <<Dflt>>), Fld("b", Str, <<>>)>>)>>, AB, Pick(4, 6)),
         Prod3(L(<<"", "x">>), L(<<"-", "x", "--">>), L(<<"-", "x">>)))
\* a plain field, then nested paths, then a plain field
Mixed == MapSeq(LAMBDA p :
         Entry(<<DefaultI, Struct("X", <<Fmt(Br("b") \o p[1] \o Br("a.y") \o p[2] \o Br("c"))>>,
                                 <<Fld("a", Ref(1), <<Dflt>>), Fld("b", Str, <<>>), Fld("c", Str, <<>>)>>)>>, T("-x"), Pick(5, 7)),
         Prod2(L(<<"-", "x", "--">>), L(<<"-", "x">>)))
\* field formats, with nested paths or not
FieldFmt == MapSeq(LAMBDA p :
         Entry(<<DefaultI, Struct("X", <<Fmt(Br("a") \o p[2] \o Br("b"))>>, <<Fld("a", Str, <<Fmt(p[1])>>), Fld("b", Str, <<>>)>>)>>, T("-x"), Pick(5, 7)),
         Prod2(L(<<"-{}", "{}-", "x{}-x", "{}x">>), L(<<"", "-", "x">>)))
FieldDeep == MapSeq(LAMBDA p :
         Entry(<<DefaultI, Struct("X", <<Fmt(Br("a") \o p[2] \o Br("b"))>>, <<Fld("a", Ref(1), <<Fmt(p[1]), Dflt>>), Fld("b", Str, <<>>)>>)>>, T("-x"), Pick(5, 7)),
         Prod2(L(<<"{x}-{y}", "{y}x{x}", "-{x}">>), L(<<"", "-", "x">>)))
\* conversions fail without another cut being tried
Conv == MapSeq(LAMBDA p :
         Entry(<<Struct("X", <<Fmt(Br("a") \o p[2] \o Br("b"))>>, <<Fld("a", Sc(p[1]), <<>>), Fld("b", Str, <<>>)>>)>>, T("1-a"), Pick(4, 6)),
         Prod2(<<"u8", "i8", "char", "bool">>, L(<<"", "-", "1">>)))
\* every character that means something in a regex, as text; and line ends
Meta == MapSeq(LAMBDA c :
         Entry(<<Struct("X", <<Fmt(Br("a") \o (IF c \in {123, 125} THEN <<c, c>> ELSE <<c>>) \o Br("b"))>>, <<Fld("a", Str, <<>>), Fld("b", Str, <<>>)>>)>>, <<c, 97, NL>>, Pick(3, 5)),
         T(".*+?()[]{}^$|\\#&~ /-,:=<>!%'\"@_;`") \o <<NL, TAB, CR, 233, 26085, 128512, 769>>)
Pair == MapSeq(LAMBDA p :
         Entry(<<Struct("X", <<Fmt(p[1] \o Br("a") \o p[2])>>, <<Fld("a", Str, <<>>)>>)>>, T("\\.*"), Pick(4, 6)),
         Prod2(L(<<"\\.", ".*", "\\", "">>), L(<<".", "*", "\\\\", "\\*">>)))

ASSUME Load(Two \o Three \o Nested \o Deep \o Mixed \o FieldFmt \o FieldDeep \o Conv \o Meta \o Pair) /\ AllValid

\* all the ways to cut x into the nodes, as sequences of the lengths of the captured pieces
Cuts(nodes, x) ==
  LET RECURSIVE F(_, _)
      F(i, p) == IF i > Len(nodes) THEN (IF p = Len(x) + 1 THEN {<<>>} ELSE {})
                 ELSE IF nodes[i].k = "lit" THEN (IF At(x, p, nodes[i].s) THEN F(i + 1, p + Len(nodes[i].s)) ELSE {})
                 ELSE UNION {{<<n>> \o r : r \in F(i + 1, p + n)} : n \in 0..(Len(x) + 1 - p)}
  IN F(1, 1)
Less(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Shortest(S) == CHOOSE a \in S : \A b \in S : a = b \/ Less(a, b)
\* the captured pieces of the shortest cut: <<field, path, begin, end>>, the last one first
Pieces(nodes, lens) ==
  LET RECURSIVE F(_, _, _, _)
      F(i, j, p, out) == IF i > Len(nodes) THEN out
                         ELSE IF nodes[i].k = "lit" THEN F(i + 1, j, p + Len(nodes[i].s), out)
                         ELSE F(i + 1, j + 1, p + lens[j], <<<<nodes[i].f, nodes[i].p, p, p + lens[j]>>>> \o out)
  IN F(1, 1, 1, <<>>)
Nodes == Pat(fi)[Fam[fi].root][1].nodes
SplitIsShortest ==
  OnTexts(LET cuts == Cuts(Nodes, s)
              m == MatchAll(Nodes, s)
          IN IF cuts = {} THEN m = <<>> ELSE m = <<Pieces(Nodes, Shortest(cuts))>>)
\* accepted: there is a cut, and every piece of the shortest one converts
Conversions ==
  OnTexts(LET cuts == Cuts(Nodes, s)
              ps == Pieces(Nodes, Shortest(cuts))
              fty(p) == TypeAt(D, D.types[Fam[fi].root].vs[1].fs[p[1]].ty, p[2])[1]
              okay == cuts # {} /\ \A i \in 1..Len(ps) : ParseTy(D, Pat(fi), fty(ps[i]), SubSeq(s, ps[i][3], ps[i][4] - 1)).ok
          IN ParseOf(s).ok = okay)
=============================================================================
