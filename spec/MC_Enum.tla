------------------------------- MODULE MC_Enum -------------------------------
(* C04.  Which variant is chosen, in terms of what each variant alone does.   *)
EXTENDS Scope

Str == Sc("str")
Ign == [FA EXCEPT !.ign = TRUE]
NewRej(f, v, k) == [FA EXCEPT !.new = <<[map |-> f, kind |-> k, rej |-> <<[f |-> 1, v |-> v]>>, mark |-> <<>>]>>]
NewUnit == [FA EXCEPT !.new = <<[map |-> <<>>, kind |-> "res", rej |-> <<>>, mark |-> <<>>]>>]
In == FEnum("I", <<>>, <<Vr("b", <<>>, <<>>), Vr("Q", <<Fmt(T("1{0}"))>>, <<Fld("0", Sc("u8"), <<>>)>>)>>)
F0(k) == <<Fld("0", k, <<>>)>>
\* attributes and fields of a variant
Bodies == <<
  <<<<Fmt(T("a"))>>, <<>>>>, <<<<Fmt(T("b"))>>, <<>>>>, <<<<Fmt(T("1"))>>, <<>>>>,
  <<<<Fmt(T("{0}"))>>, F0(Str)>>, <<<<Fmt(T("{0}"))>>, F0(Sc("u8"))>>, <<<<Fmt(T("{0}"))>>, F0(Sc("char"))>>,
  <<<<Fmt(T("a{0}"))>>, F0(Str)>>, <<<<Fmt(T("{0}1"))>>, F0(Sc("u8"))>>, <<<<Fmt(T("{0}b"))>>, F0(Sc("i8"))>>,
  <<<<Fmt(T("a")), Ign>>, <<>>>>, <<<<Fmt(T("{0}")), Ign>>, F0(Str)>>,
  <<<<Fmt(T("{0}{1}"))>>, <<Fld("0", Sc("u8"), <<Rx(Star(Rng("0", "1")))>>), Fld("1", Str, <<>>)>>>>,
  <<<<Fmt(T("{0}")), NewRej(<<1>>, T("1"), "opt")>>, F0(Sc("u8"))>>, <<<<Fmt(T("a{0}")), NewRej(<<1>>, T("b"), "res")>>, F0(Str)>>,
  <<<<Fmt(T("1")), NewRej(<<1>>, T("0"), "opt")>>, <<Fld("n", Sc("u8"), <<Dflt>>)>>>>, <<<<Fmt(T("b")), NewRej(<<1>>, T("1"), "res")>>, <<Fld("n", Sc("u8"), <<Dflt>>)>>>>,
  <<<<Fmt(T("a")), NewUnit>>, <<>>>>,
  <<<<Fmt(T("a"))>>, <<Fld("n", Sc("u8"), <<Dflt>>)>>>>, <<<<Rx(Plus(Rng("a", "b")))>>, <<>>>>, <<<<Rx(Lit(T("b")))>>, <<>>>>,
  <<<<Fmt(T("{0}"))>>, F0(Ref(1))>>, <<<<Fmt(T("{0}a"))>>, F0(Ref(1))>>, <<<<>>, <<>>>>>>
Names == <<"a", "B", "c">>
Mk(bs) == Entry(<<In, FEnum("X", <<>>, [i \in 1..Len(bs) |-> Vr(Names[i], bs[i][1], bs[i][2])])>>, T("a1b"), Pick(2, 4))
N == Len(Bodies)
Pairs == MapSeq(LAMBDA p : Mk(p), Prod2(Bodies, Bodies))
\* a sample of the triples that covers every pair of positions
Triples == MapSeq(LAMBDA p : LET k == 1 + ((5 * p[1] + 7 * p[2]) % N) IN Mk(<<Bodies[p[1]], Bodies[p[2]], Bodies[k]>>),
                  Prod2([i \in 1..N |-> i], Pick(SelectSeq([i \in 1..N |-> i], LAMBDA i : i % 4 = 1), [i \in 1..N |-> i])))
\* type-level formats
TypeFmt == MapSeq(LAMBDA p : Entry(<<In, FEnum("X", <<Fmt(T(p))>>, <<Vr("a", <<>>, <<>>), Vr("b", <<>>, <<>>), Vr("B", <<Fmt(T("{}"))>>, <<>>), Vr("ab", <<Ign>>, <<>>)>>)>>, T("ab1"), 3),
                  <<"{}", "a{}", "{}1", "1{}1{}", "a">>)
           \o MapSeq(LAMBDA p : Entry(<<In, FEnum("X", <<Fmt(T(p))>>, <<Vr("a", <<>>, F0(Sc("u8"))), Vr("b", <<>>, F0(Str)), Vr("B", <<Fmt(T("{}"))>>, <<>>)>>)>>, T("ab1"), 3),
                  <<"{}{0}", "{0}", "{0}{}", "1{0}">>)
Lone == MapSeq(LAMBDA b : [Mk(<<b>>) EXCEPT !.n = 3], Bodies)

ASSUME Load(Lone \o Pairs \o Triples \o TypeFmt) /\ AllValid

Rt == Fam[fi].root
NV == Len(D.types[Rt].vs)
Ignored(i) == \E a \in RangeOf(D.types[Rt].vs[i].attrs) : a.ign
\* the enum with every variant but i ignored
Only(i) == [D EXCEPT !.types[Rt].vs = [j \in 1..NV |-> IF j = i THEN @[j] ELSE [@[j] EXCEPT !.attrs = Append(@, Ign)]]]
Alone(i) == LET d == Only(i) IN ParseTy(d, Compile(d), Root, s)
IsText(i) == Pat(fi)[Rt][i].lit
TextIs(i) == IsText(i) /\ LitText(Pat(fi)[Rt][i]) = s
Live == {i \in 1..NV : ~Ignored(i)}
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
Selection ==
  OnTexts(LET texts == {i \in Live : TextIs(i)}
              r == ParseOf(s)
              others == {i \in Live : ~IsText(i) /\ Alone(i).ok}
              byText == IF texts = {} THEN FALSE ELSE Alone(Min(texts)).ok
          IN IF byText THEN r.ok /\ r.v = Alone(Min(texts)).v
             ELSE IF others = {} THEN ~r.ok
             ELSE r.ok /\ r.v = Alone(Min(others)).v)
\* an ignored variant is never the result
NeverIgnored == OnTexts(LET r == ParseOf(s) IN r.ok => ~Ignored(r.v.v))
\* errors of variants are not passed on
PlainError == OnTexts(LET r == ParseOf(s) IN ~r.ok => r.msgs = {Generic})
=============================================================================
