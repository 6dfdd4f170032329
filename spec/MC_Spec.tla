------------------------------- MODULE MC_Spec -------------------------------
(* C12.  Format parameters: every combination of fill and alignment, sign,    *)
(* `#`, `0`, width and precision for every trait of the scalar types, written *)
(* at the type, the variant, the field, behind a path, on opt fields.  The    *)
(* text does not depend on the place, and laws that do not mention how it is  *)
(* computed say what it is.                                                   *)
EXTENDS Scope

L(seq) == MapSeq(LAMBDA x : T(x), seq)
Aligned == L(<<"", "<", "^", ">", "*<", "->", "0^", "<<", "+^", ".>", "{<", ":^", " ^">>) \o <<<<233, 62>>, <<34, 60>>, <<92, 94>>, <<65288, 94>>>>
Signs == L(<<"", "+", "-">>)
Alts == L(<<"", "#">>)
Zeros == L(<<"", "0">>)
Widths == L(<<"", "1", "6", "11">>)
Precs == L(<<"", ".0", ".2">>)
\* type, its values, its traits
Types == <<
  <<Sc("u8"), L(<<"0", "7", "255">>), <<"", "?", "x", "X", "o", "b", "e", "E", "x?", "X?">>>>,
  <<Sc("i16"), L(<<"0", "-1", "-32768", "1950">>), <<"", "?", "x", "X", "o", "b", "e", "E", "x?", "X?">>>>,
  <<Sc("u128"), L(<<"340282366920938463463374607431768211455", "100000000000000000000">>), <<"", "x", "e">>>>,
  <<Sc("i64"), L(<<"-9223372036854775808", "12345", "25">>), <<"", "e", "E", "b", "o">>>>,
  <<Sc("nzi8"), L(<<"-128", "3">>), <<"", "X", "?">>>>,
  <<Sc("f64"), L(<<"0", "-0", "1.5", "-0.25", "123456.75", "0.0078125", "99.9375", "inf", "NaN">>), <<"", "?", "e", "E">>>>,
  <<Sc("f32"), L(<<"1", "-2.5", "1000000">>), <<"", "?", "e">>>>,
  <<Sc("str"), <<T(""), T("a"), T("abcdefgh"), <<233, 10, 34, 92>>, T("'{}")>>, <<"", "?">>>>,
  <<Sc("char"), <<T("a"), <<10>>, T("'"), <<233>>>>, <<"", "?">>>>,
  <<Sc("bool"), L(<<"true", "false">>), <<"", "?">>>> >>
\* the combinations, dealt round so that every pair of choices occurs with every other choice
ASSUME TLCSet(22, Settled(<<Signs, Alts, Zeros, Widths, Precs>>)) /\ TLCSet(23, Settled(Aligned))
Rest == TLCGet(22)
NRest == Len(Signs) * Len(Alts) * Len(Zeros) * Len(Widths) * Len(Precs)
\* the i-th combination (from 0), digit by digit
ComboAt(i) == LET r == i % NRest
                  RECURSIVE F(_, _)
                  F(j, x) == IF j > 5 THEN <<>> ELSE Rest[j][1 + (x % Len(Rest[j]))] \o F(j + 1, x \div Len(Rest[j]))
              IN TLCGet(23)[1 + (i \div NRest)] \o F(1, r)
Step == Pick(13, 2)
Combos(k) == TLCEval([i \in 1..((Len(TLCGet(23)) * NRest) \div Step) |-> ComboAt((i * Step) - 1 - (k % Step))])
Chunk == 32
Chunks(xs0) == LET xs == TLCEval(xs0) IN [i \in 1..((Len(xs) + Chunk - 1) \div Chunk) |-> SubSeq(xs, (i - 1) * Chunk + 1, IF i * Chunk > Len(xs) THEN Len(xs) ELSE i * Chunk)]
Groups == TLCEval(Flatten([i \in 1..Len(Types) |-> Flatten([j \in 1..Len(Types[i][3]) |->
            MapSeq(LAMBDA c : [ty |-> Types[i][1], vals |-> Types[i][2], specs |-> MapSeq(LAMBDA x : x \o T(Types[i][3][j]), c)], Chunks(Combos(i * 3 + j)))])]))
ASSUME TLCSet(21, Groups)
G == TLCGet(21)

FmtOf(arg, specs) == JoinText(MapSeq(LAMBDA x : T("{") \o T(arg) \o T(":") \o x \o T("}"), specs), T("|"))
DStruct(name, attrs, fs) == [Struct(name, attrs, fs) EXCEPT !.ds = <<"D">>]
DEnum(name, attrs, vs) == [Enum(name, attrs, vs) EXCEPT !.ds = <<"D">>]
\* the places
Build(g, p) ==
  LET sp == g.specs
      E1(types, f(_)) == [Entry(types, <<>>, 0) EXCEPT !.vals = MapSeq(f, g.vals)]
  IN CASE p = 0 -> E1(<<DStruct("X", <<Fmt(FmtOf("a", sp))>>, <<Fld("a", g.ty, <<>>)>>)>>, LAMBDA v : <<v>>)
       [] p = 1 -> E1(<<DStruct("X", <<>>, <<Fld("0", g.ty, <<Fmt(FmtOf("", sp))>>)>>)>>, LAMBDA v : <<v>>)
       [] p = 2 -> E1(<<DEnum("X", <<Fmt(T("{}"))>>, <<Vr("A", <<>>, <<>>), Vr("B", <<Fmt(FmtOf("1", sp))>>, <<Fld("0", Sc("u8"), <<>>), Fld("1", g.ty, <<>>)>>)>>)>>, LAMBDA v : [v |-> 2, f |-> <<T("1"), v>>])
       [] p = 3 -> E1(<<[Struct("I", <<>>, <<Fld("x", Sc("bool"), <<>>), Fld("y", [k |-> "tup", es |-> <<Sc("u8"), g.ty>>], <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("true"), <<T("2"), g.vals[1]>>>>>>],
                        DStruct("X", <<Fmt(FmtOf("i.y.1", sp))>>, <<Fld("i", Ref(1), <<>>)>>)>>, LAMBDA v : <<<<T("true"), <<T("2"), v>>>>>>)
       [] p = 4 -> E1(<<DStruct("X", <<Fmt(FmtOf("a", sp))>>, <<Fld("a", OptTy(g.ty), <<OptA>>)>>)>>, LAMBDA v : <<<<v>>>>)
       [] p = 5 -> E1(<<DStruct("X", <<Fmt(T("{a}"))>>, <<Fld("a", OptTy(g.ty), <<OptA, Fmt(FmtOf("", sp))>>)>>)>>, LAMBDA v : <<<<v>>>>)
       [] p = 6 -> E1(<<DEnum("X", <<Fmt(FmtOf("r#a", sp))>>, <<Vr("A", <<>>, <<Fld("a", g.ty, <<>>)>>)>>)>>, LAMBDA v : [v |-> 1, f |-> <<v>>])
Main == [i \in 1..Len(G) |-> Build(G[i], i % 7)]
\* names, and whole values through their Debug
NameSpecs == MapSeq(LAMBDA q : q[1] \o q[2] \o q[3], Prod3(Aligned, Widths, Precs))
Names == MapSeq(LAMBDA st : [Entry(<<DEnum("X", <<Fmt(FmtOf("", NameSpecs)), [DA EXCEPT !.style = <<st>>]>>, <<Vr("Ab_c", <<>>, <<>>), Vr("a", <<Fmt(T("[{:^7.1}]"))>>, <<>>)>>)>>, <<>>, 0)
                              EXCEPT !.vals = <<[v |-> 1, f |-> <<>>], [v |-> 2, f |-> <<>>]>>], <<"none", "Title Case", "KEBAB-CASE">>)
DebugSpecs == L(<<"?", "#?", "x?", "#X?", "5?", "05?", "+?", ".1?", "<6?", "*^9.2?", "#06x?">>)
SelfSpecs == DebugSpecs \o L(<<"X?", "#x?", "X>12?", "-?", "+#?", "#?", "12X?", ".0?">>)
SelfVals == <<[v |-> 1, f |-> <<T("200")>>], [v |-> 2, f |-> <<>>], [v |-> 3, f |-> <<<<T("1"), <<>>>>>>]>>
Compounds == <<<<OptTy(Sc("i16")), << <<>>, <<T("-1")>>, <<T("300")>> >>>>, <<[k |-> "tup", es |-> <<Sc("str"), Sc("f64")>>], <<<<T("a\""), T("1.25")>>>>>>,
               <<[k |-> "vec", e |-> Sc("u8")], << <<>>, <<T("1"), T("20")>> >>>>, <<Ref(1), <<<<T("7"), <<T("'")>>>>>>>>, <<[k |-> "vec", e |-> OptTy(Ref(1))], <<<< <<>>, <<<<T("7"), <<>>>>>> >>>>>> >>
DebugI == [DStruct("Inner", <<Fmt(T("i"))>>, <<Fld("x", Sc("i8"), <<>>), Fld("y", OptTy(Sc("char")), <<>>)>>) EXCEPT !.ds = <<"D", "G">>]
Debugs == MapSeq(LAMBDA c : [Entry(<<DebugI, DStruct("X", <<Fmt(FmtOf("a", DebugSpecs))>>, <<Fld("a", c[1], <<>>)>>)>>, <<>>, 0) EXCEPT !.vals = MapSeq(LAMBDA v : <<v>>, c[2])], Compounds)
          \o <<[Entry(<<DebugI, DEnum("X", <<Fmt(FmtOf("", SelfSpecs))>>, <<Vr("A", <<>>, <<Fld("0", Sc("u8"), <<>>)>>), Vr("B", <<>>, <<>>), Vr("C", <<>>, <<Fld("k", Ref(1), <<>>)>>)>>)>>, <<>>, 0)
                EXCEPT !.d.types[2].ds = <<"D", "G">>, !.vals = SelfVals],
               [Entry(<<DebugI, DEnum("X", <<>>, <<Vr("A", <<Fmt(FmtOf("", SelfSpecs))>>, <<Fld("0", Sc("u8"), <<>>)>>), Vr("B", <<Fmt(FmtOf("", SelfSpecs))>>, <<>>), Vr("C", <<Fmt(FmtOf("", SelfSpecs))>>, <<Fld("k", Ref(1), <<>>)>>)>>)>>, <<>>, 0)
                EXCEPT !.d.types[2].ds = <<"D", "G">>, !.vals = SelfVals],
               [Entry(<<DebugI, DStruct("X", <<Fmt(FmtOf("", SelfSpecs))>>, <<Fld("a", Sc("i16"), <<>>), Fld("b", OptTy(Ref(1)), <<OptA>>)>>)>>, <<>>, 0)
                EXCEPT !.d.types[2].ds = <<"D", "G">>, !.vals = <<<<T("-3"), <<>>>>, <<T("300"), <<<<T("-1"), <<T("a")>>>>>>>>>>],
               [Entry(<<DebugI, DStruct("X", <<Fmt(FmtOf("", SelfSpecs))>>, <<Fld("0", Sc("u128"), <<>>)>>)>>, <<>>, 0)
                EXCEPT !.d.types[2].ds = <<"D", "G">>, !.vals = <<<<T("48879")>>>>]>>
ASSUME Load(Main \o Names \o Debugs) /\ AllValid
ASSUME PrintT(<<"INFO", "scalar parameter lists", Len(G)>>)

InMain == vi > 0 /\ fi <= Len(G)
V == G[fi].vals[vi]
K == G[fi].ty.k
Texts == TLCEval(MapSeq(LAMBDA x : FmtScalar(K, V, ParseSpec(x)), G[fi].specs))
\* wherever it is written
Anywhere == InMain => TextOf(Value) = JoinText(Texts, T("|"))
Number == K \notin {"str", "char", "bool"}
\* with a width, the text is the one without, between fill characters (or zeros behind sign and prefix)
FillOf(sp) == sp.fill
AllAre(x, c) == \A i \in 1..Len(x) : x[i] = c
Padding == InMain => \A i \in 1..Len(G[fi].specs) :
  LET sp == ParseSpec(G[fi].specs[i])
      bare == FmtScalar(K, V, [sp EXCEPT !.width = -1])
      t == Texts[i]
      k == Len(t) - Len(bare)
      al == IF sp.align # 0 THEN sp.align ELSE IF Number THEN 62 ELSE 60
      \* Debug of a text or character does not pad
      quoted == IsDebug(sp) /\ K \in {"str", "char"}
  IN IF quoted THEN t = bare
     ELSE /\ Len(t) = (IF sp.width > Len(bare) THEN sp.width ELSE Len(bare))
          /\ IF Number /\ sp.zero
             THEN \E j \in 0..(IF Len(bare) < 3 THEN Len(bare) ELSE 3) : /\ SubSeq(t, 1, j) = SubSeq(bare, 1, j)
                                   /\ AllAre(SubSeq(t, j + 1, j + k), 48)
                                   /\ SubSeq(t, j + k + 1, Len(t)) = SubSeq(bare, j + 1, Len(bare))
                                   /\ \A m \in 1..j : ~IsDigit(bare[m]) \/ (m < j /\ sp.alt)      \* sign and prefix only
             ELSE LET l == IF al = 60 THEN 0 ELSE IF al = 62 THEN k ELSE k \div 2
                  IN SubSeq(t, l + 1, l + Len(bare)) = bare /\ AllAre(SubSeq(t, 1, l), FillOf(sp)) /\ AllAre(SubSeq(t, l + Len(bare) + 1, Len(t)), FillOf(sp))
\* a precision cuts texts and leaves integers alone
Precision == InMain => \A i \in 1..Len(G[fi].specs) :
  LET sp == ParseSpec(G[fi].specs[i])
      full == [sp EXCEPT !.width = -1, !.prec = -1]
      cut == [sp EXCEPT !.width = -1]
  IN CASE K \in {"str", "bool", "char"} /\ ~IsDebug(sp) ->
            (LET a == FmtScalar(K, V, full) b == FmtScalar(K, V, cut) IN b = SubSeq(a, 1, IF sp.prec >= 0 /\ sp.prec < Len(a) THEN sp.prec ELSE Len(a)))
       [] K \notin FloatTypes /\ Number /\ sp.ty \notin {"e", "E"} -> FmtScalar(K, V, full) = FmtScalar(K, V, cut)
       [] OTHER -> TRUE
\* integers: the digits denote the value (negative numbers in other bases: modulo 2^bits); signs and prefixes
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE c - 87
RECURSIVE Denotes(_, _, _)
Denotes(x, base, acc) == IF x = <<>> THEN acc ELSE Denotes(Tail(x), base, MulAdd(acc, base, DigitVal(x[1])))
Integers_ == (InMain /\ K \in IntTypes \cup NzTypes) => \A i \in 1..Len(G[fi].specs) :
  LET sp == ParseSpec(G[fi].specs[i])
      t == FmtScalar(K, V, [sp EXCEPT !.width = -1])
      base == CASE sp.ty \in {"x", "X", "x?", "X?"} -> 16 [] sp.ty = "o" -> 8 [] sp.ty = "b" -> 2 [] OTHER -> 10
      pre == IF sp.alt /\ base # 10 THEN (CASE base = 16 -> T("0x") [] base = 8 -> T("0o") [] base = 2 -> T("0b")) ELSE <<>>
      neg == V[1] = 45 /\ base = 10
      sg == IF neg THEN <<45>> ELSE IF sp.sign = 43 THEN <<43>> ELSE <<>>
      ds == Drop(t, Len(sg) + Len(pre))
      abs == IF V[1] = 45 THEN Tail(V) ELSE V
      want == IF V[1] # 45 THEN V ELSE IF neg THEN abs ELSE SubDigits(Pow2Text(IntBits(K)), abs)
  IN sp.ty \notin {"e", "E"} =>
       /\ StartsWith(t, sg \o pre) /\ Denotes(ds, base, <<48>>) = want
       /\ Len(ds) = 1 \/ ds[1] # 48
       /\ \A j \in 1..Len(ds) : DigitVal(ds[j]) \in 0..(base - 1) /\ (sp.ty \in {"x", "x?"} => ~IsUpper(ds[j])) /\ (sp.ty \in {"X", "X?"} => ~IsLower(ds[j]))
\* fractions and exponents: without precision they denote the value, with it the nearest number of that many digits
Sig(x) == IF IndexOf(x, 46) = 0 THEN x ELSE SubSeq(x, 1, IndexOf(x, 46) - 1) \o Drop(x, IndexOf(x, 46))
Decs(x) == IF IndexOf(x, 46) = 0 THEN 0 ELSE Len(x) - IndexOf(x, 46)
RECURSIVE Scale(_, _)
Scale(x, n) == IF n <= 0 THEN x ELSE Scale(x \o <<48>>, n - 1)
Unsign(x) == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
\* |a * 10^p - b * 10^q| * 2 <= 10^r for digit texts
Near(a, p, b, q, r) == LET m == 0 - (IF p < q THEN (IF p < r THEN p ELSE r) ELSE (IF q < r THEN q ELSE r))
                           x == StripZeros(Scale(a, p + m))
                           y == StripZeros(Scale(b, q + m))
                           df == IF LeqDigits(x, y) THEN SubDigits(y, x) ELSE SubDigits(x, y)
                       IN LeqDigits(MulSmall(df, 2), StripZeros(Scale(<<49>>, r + m)))
Fractions == (InMain /\ Number /\ V \notin {T("inf"), T("NaN")}) => \A i \in 1..Len(G[fi].specs) :
  LET sp == ParseSpec(G[fi].specs[i])
      t == FmtScalar(K, V, [sp EXCEPT !.width = -1])
      u == Unsign(t)
      e == IF sp.ty \in {"e", "E"} THEN IndexOf(u, IF sp.ty = "e" THEN 101 ELSE 69) ELSE 0
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      x == IF e = 0 THEN 0 ELSE LET y == Drop(u, e) IN IF y[1] = 45 THEN 0 - NumOf(Tail(y)) ELSE NumOf(y)
      v == Unsign(V)
      exact == sp.prec < 0
  IN (K \in FloatTypes \/ e > 0) =>
       /\ (t[1] = 45) = (V[1] = 45)
       /\ (t[1] = 43) = (sp.sign = 43 /\ V[1] # 45)
       /\ e > 0 => (IndexOf(m, 46) \in {0, 2} /\ (m[1] # 48 \/ \A j \in 1..Len(v) : v[j] \in {46, 48}))
       /\ IF exact THEN StripZeros(Scale(Sig(m), IF x - Decs(m) + Decs(v) > 0 THEN x - Decs(m) + Decs(v) ELSE 0)) = StripZeros(Scale(Sig(v), IF x - Decs(m) + Decs(v) < 0 THEN 0 - (x - Decs(m) + Decs(v)) ELSE 0))
          ELSE Decs(m) = sp.prec /\ Near(Sig(m), x - Decs(m), Sig(v), 0 - Decs(v), x - sp.prec)
=============================================================================
