------------------------------ MODULE MC_Regex ------------------------------
(* C08 (and C09): regexes on types, variants and fields, with groups for      *)
(* fields, for the field itself and for the variant name.                     *)
EXTENDS Scope, Lang

Str == Sc("str")
La == Lit(T("a"))
Lb == Lit(T("b"))
Cab == Rng("a", "b")
NotA == [k |-> "cls", neg |-> TRUE, r |-> <<<<97, 97>>>>]
R(lo, hi, g, x) == Rep(lo, hi, g, x)
Grp(x) == [k |-> "grp", a |-> <<x>>]
Ci(x) == [k |-> "ci", a |-> <<x>>]
Ds(x) == [k |-> "dotall", a |-> <<x>>]
Atoms == <<La, Lit(T("ab")), Cab, NotA, Dot>>
Reps == <<R(0, -1, TRUE, La), R(1, -1, TRUE, Cab), R(0, -1, FALSE, Dot), R(0, 1, TRUE, La), R(0, 1, FALSE, Lb), R(2, 2, TRUE, Cab), R(1, 2, FALSE, Dot), R(0, 2, TRUE, Lb)>>
Alts == <<Alt(<<La, Lit(T("ab"))>>), Alt(<<Lit(T("ab")), La, Lit(<<>>)>>), Alt(<<R(0, -1, TRUE, La), Lb>>), Grp(Alt(<<Lb, Lit(T("ba"))>>)), R(1, -1, TRUE, Grp(Alt(<<La, Lit(T("ba"))>>)))>>
Flags == <<Ci(La), Ds(R(0, -1, TRUE, Dot)), Cat(<<Ci(Rng("a", "b")), Lb>>), Ds(Cat(<<Dot, La>>))>>
Look(k) == [k |-> k]
Off(k, x) == [k |-> k, a |-> <<x>>]
Lines == <<Cat(<<Look("mbos"), R(0, -1, TRUE, Cab)>>), Cat(<<R(0, -1, FALSE, NotA), Look("meos")>>), Cat(<<R(0, -1, FALSE, La), Look("wb"), R(0, -1, FALSE, Dot)>>), Cat(<<La, Look("nwb"), R(0, -1, TRUE, Cab)>>),
           Ds(Cat(<<R(0, -1, TRUE, Dot), Look("mbos")>>)), R(0, -1, TRUE, Cat(<<Cab, Look("wb")>>)), Alt(<<Look("bos"), La>>), Cat(<<NotA, Look("eos")>>)>>
Inner == <<Ci(Cat(<<La, Off("nci", Lb)>>)), Ds(Cat(<<Off("nds", Dot), Dot>>)), Ci(Ds(R(1, 2, FALSE, Dot))), Ci(Off("nci", Ci(La)))>>
Pool == Atoms \o Reps \o Alts \o Flags \o Lines \o Inner
ABN == <<97, 98, NL>>
ABU == <<97, 98, 65>>
Two(types, x) == Entry(Append(types, FStruct("X", <<Rx(x)>>, <<Fld("p", Str, <<>>), Fld("q", Str, <<>>)>>)), ABN, Pick(3, 5))
OnType == MapSeq(LAMBDA p : Two(<<>>, Cat(<<Named(T("p"), p[1]), Named(T("q"), p[2])>>)), Prod2(Pool, Pick(Reps, Pool)))
\* groups that do not take part in the match, nested in other groups or repeated
Odd == MapSeq(LAMBDA x : Two(<<>>, x),
  <<Alt(<<Named(T("p"), R(1, -1, TRUE, La)), Named(T("q"), R(1, -1, TRUE, Lb))>>),
    Cat(<<R(0, 1, TRUE, Named(T("p"), La)), Named(T("q"), R(0, -1, TRUE, Dot))>>),
    Cat(<<R(0, 1, FALSE, Named(T("p"), La)), Named(T("q"), R(0, -1, TRUE, Dot))>>),
    Named(T("p"), Cat(<<La, Named(T("q"), R(0, -1, TRUE, Lb)), La>>)),
    Cat(<<R(1, -1, TRUE, Named(T("p"), Cab)), Named(T("q"), Dot)>>),
    R(1, 2, TRUE, Alt(<<Named(T("p"), La), Named(T("q"), Lb)>>)),
    Cat(<<[k |-> "bos"], Named(T("q"), Cab), Named(T("p"), R(0, -1, TRUE, La)), [k |-> "eos"]>>),
    Cat(<<Lb, Alt(<<Cat(<<Named(T("q"), La), Named(T("p"), La)>>), Cat(<<Lb, La>>)>>)>>),
    Ci(Cat(<<Named(T("p"), R(1, -1, TRUE, La)), Lb, Named(T("q"), R(0, -1, TRUE, NotA))>>)),
    Ds(Cat(<<Named(T("p"), Dot), Lb, Named(T("q"), R(0, -1, FALSE, Dot))>>))>>)
\* nested fields
DI == [Struct("I", <<>>, <<Fld("x", Str, <<>>), Fld("y", Str, <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("dx"), T("dy")>>>>]
DeepS(x) == Entry(<<DI, FStruct("X", <<Rx(x)>>, <<Fld("p", Ref(1), <<Dflt>>), Fld("q", Str, <<Dflt>>)>>)>>, ABN, Pick(3, 5))
Deep == MapSeq(LAMBDA x : DeepS(x),
  <<Cat(<<Named(T("p.x"), Cab), Named(T("q"), R(0, -1, TRUE, Dot))>>),
    Alt(<<Named(T("p.x"), R(1, -1, TRUE, La)), Named(T("p.y"), R(1, -1, TRUE, Lb))>>),
    Cat(<<R(0, 1, TRUE, Named(T("p.y"), La)), Named(T("p.x"), R(0, -1, TRUE, Lb))>>),
    Alt(<<Named(T("q"), La), Cat(<<Lb, Named(T("p.y"), R(0, -1, TRUE, Cab))>>)>>)>>)
\* of a field: alone, with a format, with an empty-named group, optional
FieldS(attrs, t) == Entry(<<Struct("X", <<Fmt(T("{p}{q}"))>>, <<Fld("p", t, attrs), Fld("q", Str, <<>>)>>)>>, ABN, Pick(4, 5))
OnField == MapSeq(LAMBDA x : FieldS(<<Rx(x)>>, Str), Pool)
           \o MapSeq(LAMBDA x : FieldS(<<Rx(x), Fmt(T("a{}b"))>>, Str), Reps \o Alts \o Lines)
           \o MapSeq(LAMBDA x : FieldS(<<Rx(Cat(<<La, Named(<<>>, x), R(0, 1, TRUE, Lb)>>))>>, Str), Reps \o Alts)
           \o MapSeq(LAMBDA x : FieldS(<<Rx(x), OptA>>, OptTy(Str)), Reps \o Alts)
           \o MapSeq(LAMBDA x : FieldS(<<Rx(Cat(<<La, Named(<<>>, x)>>)), OptA, Fmt(T("b{}"))>>, OptTy(Str)), Reps)
\* of enums and variants, with the name
En(tattrs, vs, alpha) == [Entry(<<FEnum("X", tattrs, vs)>>, alpha, Pick(4, 5)) EXCEPT !.rx = TRUE]
Nm == Named(<<>>, La)
OnVariant ==
  <<En(<<>>, <<Vr("A", <<Rx(Cat(<<Nm, Named(T("0"), R(0, -1, TRUE, Dot))>>))>>, <<Fld("0", Str, <<>>)>>), Vr("B", <<Rx(R(1, -1, TRUE, Lb))>>, <<>>)>>, ABU),
    En(<<>>, <<Vr("b", <<Rx(Ci(Cat(<<La, Nm>>)))>>, <<>>), Vr("a", <<Rx(Cat(<<Nm, R(0, 1, TRUE, La)>>))>>, <<>>)>>, ABU),
    En(<<Rx(Cat(<<R(0, 1, TRUE, La), Named(<<>>, Lit(<<>>)), Lb>>))>>, <<Vr("a", <<>>, <<>>), Vr("b", <<>>, <<>>), Vr("ab", <<Fmt(T("a{}a"))>>, <<>>)>>, ABU),
    En(<<Rx(Ci(Cat(<<Named(<<>>, Lb), R(0, -1, FALSE, Rng("b", "b"))>>)))>>, <<Vr("a", <<>>, <<>>), Vr("B", <<[DA EXCEPT !.style = <<"lowercase">>]>>, <<>>)>>, ABU),
    En(<<Rx(Cat(<<Named(<<>>, Lit(<<>>)), Named(T("0"), R(1, -1, FALSE, Dot))>>))>>, <<Vr("a", <<>>, <<Fld("0", Str, <<>>)>>), Vr("Ab", <<>>, <<Fld("0", Str, <<Rx(Lb)>>)>>)>>, ABU)>>
WithRx(f) == MapSeq(LAMBDA e : [e EXCEPT !.rx = TRUE], f)

ASSUME Load(OnType \o WithRx(Odd) \o Deep \o WithRx(OnField) \o OnVariant) /\ AllValid

\* the matcher agrees with the language and with the order of preference
Node(v) == Cat(Pat(fi)[Fam[fi].root][v].nodes)
Variants == 1..Len(Pat(fi)[Fam[fi].root])
Denotation == OnTexts(\A v \in Variants : (MatchAll(<<Node(v)>>, s) # <<>>) = InLang(Node(v), s))
Preference == OnTexts(\A v \in Variants : MatchAll(<<Node(v)>>, s) = Preferred(Node(v), s))
\* what a group captured is in the language of the group
RECURSIVE LabNodes(_)
LabNodes(n) == CASE n.k = "lab" -> {n} \cup LabNodes(n.a[1])
                 [] n.k \in {"cat", "alt", "rep"} -> UNION {LabNodes(n.a[i]) : i \in 1..Len(n.a)}
                 [] OTHER -> {}
Captures == OnTexts(\A v \in Variants :
              LET m == MatchAll(<<Node(v)>>, s)
              IN m # <<>> => \A i \in 1..Len(m[1]) : \E n \in LabNodes(Node(v)) :
                                n.f = m[1][i][1] /\ n.p = m[1][i][2] /\ m[1][i][4] \in Ends(n.a[1], s, m[1][i][3]))
\* the reported regex accepts exactly the shapes of the variants
Reported == OnTexts(RegexAccepts(D, Root, s) = (\E v \in Variants : InLang(Node(v), s)))
AcceptedIsReported == OnTexts(ParseOf(s).ok => RegexAccepts(D, Root, s))
=============================================================================
