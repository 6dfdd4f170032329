------------------------------ MODULE MC_Infer -------------------------------
(* C09.  The reported regex of a type is the union of the shapes of its       *)
(* variants; every accepted text is matched; what Display writes for a        *)
(* built-in type is matched; with regex_infer a field is delimited by the     *)
(* regex of its type and nothing else changes.                                *)
EXTENDS Scope, Lang

Str == Sc("str")
L(seq) == MapSeq(LAMBDA x : T(x), seq)
U8 == Sc("u8")
Ign == [FA EXCEPT !.ign = TRUE]
F0(t) == <<Fld("0", t, <<>>)>>
InferAt(p) == IF p THEN <<Infer>> ELSE <<>>

\* inner types: declarations (the last is the one meant), characters
En(vs) == FEnum("I", <<>>, vs)
St(fmt, fs) == FStruct("I", <<Fmt(T(fmt))>>, fs)
E2 == FEnum("J", <<>>, <<Vr("a", <<>>, <<>>), Vr("B", <<Fmt(T("b{0}"))>>, F0(U8))>>)
Inner == <<
  <<<<St("{x}-{y}", <<Fld("x", U8, <<>>), Fld("y", Str, <<>>)>>)>>, "1-a">>,
  <<<<En(<<Vr("a", <<>>, <<>>), Vr("ab", <<>>, <<>>), Vr("C", <<Fmt(T("b{0}"))>>, F0(U8)), Vr("z", <<Ign>>, <<>>)>>)>>, "ab1z">>,
  <<<<En(<<Vr("ab", <<>>, <<>>), Vr("a", <<>>, <<>>)>>)>>, "ab">>,
  <<<<En(<<Vr("C", <<Fmt(T("a{0}"))>>, <<Fld("0", Str, <<Rx([k |-> "rep", lo |-> 0, hi |-> 1, g |-> TRUE, a |-> <<Lit(T("b"))>>])>>)>>), Vr("a", <<>>, <<>>)>>)>>, "ab1">>,
  <<<<En(<<Vr("a", <<>>, <<>>), Vr("C", <<Fmt(T("a{0}"))>>, <<Fld("0", Str, <<Rx(Star(Lit(T("b"))))>>)>>), Vr("ab1", <<>>, <<>>)>>)>>, "ab1">>,
  <<<<En(<<Vr("C", <<Fmt(T("{0}b"))>>, <<Fld("0", Str, <<Rx(Star(Lit(T("a"))))>>)>>), Vr("ab", <<>>, <<>>), Vr("D", <<Fmt(T("a{0}"))>>, <<Fld("0", Str, <<>>)>>), Vr("abb", <<>>, <<>>)>>)>>, "ab1">>,
  <<<<FStruct("I", <<Rx(Alt(<<Named(T("x"), Plus(Lit(T("a")))), Lit(T("b"))>>))>>, <<Fld("x", Str, <<>>)>>)>>, "abA">>,
  <<<<FStruct("I", <<Rx([k |-> "ci", a |-> <<Cat(<<Lit(T("a")), Named(T("x"), Star(Lit(T("b"))))>>)>>])>>, <<Fld("x", Str, <<>>)>>)>>, "abB">>,
  <<<<St("{x}", <<Fld("x", Str, <<With("alt2")>>)>>)>>, "ab">>,
  <<<<St("{x}{y}", <<Fld("x", Str, <<With("nest")>>), Fld("y", Str, <<With("grp")>>)>>)>>, "x12">>,
  <<<<St("1{x}", <<Fld("x", OptTy(U8), <<OptA, Fmt(T("-{}"))>>)>>)>>, "1-">>,
  <<<<St("a.b", <<>>)>>, "a.b">>, <<<<St("a|b", <<>>)>>, "a|b">>, <<<<St("(", <<>>)>>, "()">>, <<<<St("", <<>>)>>, "a">>,
  <<<<En(<<Vr("A", <<Fmt(T("a|"))>>, <<>>), Vr("B", <<Fmt(T("[b"))>>, <<>>), Vr("C", <<Fmt(T("\\{0}"))>>, F0(U8))>>)>>, "a|[b\\1">>,
  <<<<E2, St("{x}{y}", <<Fld("x", Ref(1), <<Infer>>), Fld("y", Ref(1), <<>>)>>)>>, "ab1">>,
  <<<<E2, En(<<Vr("P", <<Fmt(T("{0}"))>>, <<Fld("0", Ref(1), <<Infer>>)>>), Vr("b", <<>>, <<>>)>>)>>, "ab1">>,
  <<<<E2, FEnum("I", <<Infer>>, <<Vr("P", <<Fmt(T("{0}-"))>>, F0(Ref(1))), Vr("Q", <<Fmt(T("-{0}"))>>, F0(Ref(1)))>>)>>, "ab1-">>,
  <<<<St("{x}{y}", <<Fld("x", Str, <<Rx(Plus(Rng("a", "a")))>>), Fld("y", Str, <<Rx(Alt(<<Lit(T("b")), Lit(T("ab"))>>))>>)>>)>>, "ab1">>,
  <<<<St("{x}", <<Fld("x", Str, <<Rx([k |-> "dotall", a |-> <<Cat(<<Lit(T("a")), Dot>>)>>])>>)>>)>>, "ab">>,
  <<<<St("{x}", <<Fld("x", Str, <<Rx(Cat(<<Lit(T("a")), Dot>>))>>)>>)>>, "ab">> >>
Scalars == <<<<"u8", "1+-">>, <<"i8", "1+-">>, <<"nzu8", "01-">>, <<"nzi16", "01-">>, <<"f64", "1.e-">>, <<"f32", "+.E1">>, <<"bool", "true">>, <<"char", "a1">>, <<"str", "a1">>>>
Extra(k) == CASE k \in {"f64", "f32"} -> L(<<"inf", "-inf", "+inf", "INF", "nan", "NaN", "-1.5e-3", "1.5E+3", "1e", ".5", "5.", ".", "e5", "infinity", "nani">>) [] k = "bool" -> L(<<"true", "false", "True", "tru", "falsetrue">>)
              [] k = "char" -> <<<<NL>>, <<233>>, <<128512>>, <<769, 97>>>> [] k = "str" -> <<<<NL, 97>>, <<233, 0>>>>
              [] OTHER -> L(<<"255", "256", "-128", "-0", "00", "1_0", " 1">>) \o <<<<1633>>>>
Vals(k) == CASE k = "u8" -> L(<<"0", "255">>) [] k = "i8" -> L(<<"-128", "127">>) [] k = "nzu8" -> L(<<"1", "255">>) [] k = "nzi16" -> L(<<"-32768", "1">>)
             [] k \in {"f64", "f32"} -> L(<<"0", "-0", "1.5", "-inf", "NaN", "100000000000000000000", "0.0009765625">>) [] k = "bool" -> L(<<"true", "false">>)
             [] k = "char" -> <<T("a"), <<NL>>, <<128512>>>> [] k = "str" -> <<T(""), <<97, NL, 98>>>>

With1(types, alpha, n, ex) == [Entry(types, alpha, n) EXCEPT !.rx = TRUE, !.extra = ex]
\* the types by themselves
Alone == MapSeq(LAMBDA p : With1(p[1], T(p[2]) \o <<NL>>, Pick(4, 5), <<>>), Inner)
         \o MapSeq(LAMBDA p : [With1(<<Struct("X", <<>>, <<Fld("0", Sc(p[1]), <<Infer>>)>>)>>, T(p[2]), Pick(4, 5), Extra(p[1])) EXCEPT !.vals = MapSeq(LAMBDA v : <<v>>, Vals(p[1]))], Scalars)
\* a field next to one that takes anything
Forms == L(<<"{a}{b}", "{b}{a}", "{b}-{a}">>)
XOf(ty, f, how) == FStruct("X", <<Fmt(f)>> \o InferAt(how = "type"), <<Fld("a", ty, InferAt(how # "type")), Fld("b", Str, <<>>)>>)
Beside == MapSeq(LAMBDA q : LET p == q[1] IN With1(Append(p[1], XOf(Ref(Len(p[1])), q[2], "field")), T(p[2]), Pick(IF Len(p[2]) > 4 THEN 3 ELSE 4, 5), <<>>), Prod2(Inner, Forms))
          \o MapSeq(LAMBDA q : With1(<<XOf(Sc(q[1][1]), q[2], q[3])>>, T(q[1][2]), Pick(IF q[3] = "type" THEN 3 ELSE 4, 5), Extra(q[1][1])), Prod3(Scalars, Forms, <<"field", "type">>))
\* optional, framed by a format, in variants
Framed == MapSeq(LAMBDA p : With1(Append(p[1], FStruct("X", <<Fmt(T("{b}{a}"))>>, <<Fld("a", OptTy(Ref(Len(p[1]))), <<OptA, Infer, Fmt(T("<{}"))>>), Fld("b", Str, <<>>)>>)), T(p[2]) \o T("<"), 3, <<>>), Inner)
InVariant == MapSeq(LAMBDA p : With1(Append(p[1], FEnum("X", <<>>, <<Vr("P", <<Fmt(T("{0}{1}")), Infer>>, <<Fld("0", Ref(Len(p[1])), <<>>), Fld("1", U8, <<>>)>>), Vr("Q", <<Fmt(T("{0}"))>>, <<Fld("0", Str, <<>>)>>)>>)), T(p[2]) \o T("2"), 3, <<>>), Inner)

ASSUME Load(Alone \o Beside \o Framed \o InVariant) /\ AllValid

Rt == Fam[fi].root
Node(t, v) == Strip(Cat(Pat(fi)[t][v].nodes))
Shape1(t, x) == \E v \in 1..Len(Pat(fi)[t]) : Pat(fi)[t][v].use /\ InLang(Node(t, v), x)
\* the regex matches the shapes of the usable variants, and all that is accepted
Reported == OnTexts(RegexAccepts(D, Root, s) = Shape1(Rt, s))
Accepted == OnTexts(ParseOf(s).ok => RegexAccepts(D, Root, s))
Written2 == OnValues(RegexAccepts(D, Root, TextOf(Value)) /\ ParseOf(TextOf(Value)).ok)
\* beside a field that takes anything: a piece the inner regex matches, and the rest
IsBeside == fi > Len(Inner) + Len(Scalars) /\ fi <= Len(Inner) + Len(Scalars) + Len(Forms) * (Len(Inner) + 2 * Len(Scalars))
Xv == D.types[Rt].vs[1]
InnerTy == Xv.fs[1].ty
Fits(x) == IF InnerTy.k = "named" THEN Shape1(InnerTy.n, x) ELSE RegexAccepts(D, InnerTy, x)
FormNo == IF Contains(D.types[Rt].attrs[1].fmt[1], T("{a}{b}")) THEN 1 ELSE IF Contains(D.types[Rt].attrs[1].fmt[1], T("-")) THEN 3 ELSE 2
Cuts(x) == IF FormNo = 1 THEN {SubSeq(x, 1, i) : i \in 0..Len(x)}
           ELSE IF FormNo = 2 THEN {Drop(x, i) : i \in 0..Len(x)}
           ELSE {Drop(x, i) : i \in {j \in 1..Len(x) : x[j] = 45}}
Confined == OnTexts(IsBeside => /\ RegexAccepts(D, Root, s) = (\E c \in Cuts(s) : Fits(c))
                                /\ LET r == ParseOf(s)
                                       m == MatchAll(Pat(fi)[Rt][1].nodes, s)
                                   IN (m # <<>>) = (\E c \in Cuts(s) : Fits(c))
                                      /\ (m # <<>> => LET t == CapText(m[1], 1, <<>>, s)[1] IN
                                            /\ t \in Cuts(s) /\ Fits(t)
                                            /\ r.ok = ParseTy(D, Pat(fi), InnerTy, t).ok
                                            \* b is as short as can be where it comes first
                                            /\ FormNo = 2 => \A c \in Cuts(s) : Fits(c) => Len(c) <= Len(t)))
=============================================================================
