------------------------------ MODULE MC_Accept ------------------------------
(* C15.  Small declarations, right and wrong: what is accepted is complete    *)
(* (every place names a field that has what is asked of it, every field is    *)
(* determined) and never gets stuck.                                          *)
EXTENDS Scope

Str == Sc("str")
U8 == Sc("u8")
F(x) == Fmt(T(x))
P1 == Struct("P", <<F("{x},{y}")>>, <<Fld("x", U8, <<>>), Fld("y", Str, <<>>)>>)
DJ == [Struct("J", <<>>, <<Fld("x", U8, <<>>), Fld("y", Ref(1), <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("7"), <<T("1"), T("j")>>>>>>]
NN == [Struct("Q", <<>>, <<Fld("x", U8, <<>>)>>) EXCEPT !.ds = <<>>]
Types == <<P1, DJ, NN>>
\* a type, and a value of it
Tys == <<<<U8, T("1")>>, <<Str, T("s")>>, <<OptTy(U8), <<T("1")>>>>, <<OptTy(Ref(1)), <<>>>>, <<Ref(1), <<T("1"), T("p")>>>>, <<Ref(2), <<T("2"), <<T("3"), T("q")>>>>>>, <<Ref(3), <<T("4")>>>>, <<[k |-> "tup", es |-> <<U8, Str>>], <<T("1"), T("t")>>>>, <<Sc("nzu8"), T("1")>>, <<Sc("f64"), T("1.5")>>, <<[k |-> "vec", e |-> U8], <<T("1")>>>>>>
\* formats of a type with fields a and b
Fmts == <<"{a}", "{b}{a}", "{a}-{b}", "{a", "a}", "{}", "{c}", "{a}{a}", "{a:>3}", "{a:zz}", "{a:?}", "{a:x}", "{a.x}", "{b}{a.x}", "{a.y.x}{b}", "{a.z}", "{a.0}{b}", "{a.2}", "x", "{a:}", "{a.}", "{.a}", "{a:5.}", "{a }", "{r#a}", "{0}", "{{a}}", "{a}}{b}", "{a:{b}", "{a.x:+}{a}", "{}{b:.3}">>
\* attributes of field a
FAttrs == <<<<>>, <<F("{}")>>, <<F("{x}")>>, <<F("<{}>{")>>, <<F("{y.x}")>>, <<F("{z}")>>, <<F("{:x}")>>, <<F("{:?}")>>, <<F("x")>>, <<F("{}{}")>>, <<OptA>>, <<OptA, F("-{}")>>, <<Dflt>>, <<Dflt, F("{x}")>>, <<With("brk")>>, <<With("dis")>>, <<WithF("fro")>>, <<With("hex")>>, <<Infer>>, <<Infer, OptA>>,
            <<Rx(Star(Dot))>>, <<Rx(Named(<<>>, Dot))>>, <<Rx(Named(T("x"), Dot))>>, <<Rx(Cat(<<Named(<<>>, Dot), Named(<<>>, Dot)>>))>>, <<Rx([k |-> "bad", raw |-> "(a"])>>, <<Rx(Named(T("zz"), Dot)), Dflt>>>>
TAttrs == <<<<>>, <<Dflt>>, <<[FA EXCEPT !.dfields = <<T("b")>>]>>, <<[FA EXCEPT !.dfields = <<T("a"), T("b")>>]>>, <<[FA EXCEPT !.dfields = <<T("c")>>]>>, <<Infer>>>>
DsOf == <<<<"D", "F">>, <<"D">>, <<"F">>>>
Mk(t, fm, fa, ta, ds, named) ==
  LET dv == <<t[2], T("9")>>
      st == Struct("X", (IF fm = <<>> THEN <<>> ELSE <<Fmt(fm[1])>>) \o ta, <<Fld("a", t[1], fa), Fld("b", U8, <<>>)>>)
      whole == ta # <<>> /\ ta[1].dflt
  IN [Entry(Types \o <<[st EXCEPT !.ds = IF whole THEN ds \o <<"m">> ELSE ds, !.dv = IF whole THEN <<dv>> ELSE <<>>]>>, T("1-x"), 3) EXCEPT !.vals = <<dv>>]
\* every pair of dimensions together, the others moving along
NT == Len(Tys)   NF == Len(Fmts)   NA == Len(FAttrs)   NX == Len(TAttrs)
Idx(n) == [i \in 1..n |-> i]
At1(q, k) == q[1 + (k % Len(q))]
FmtT(k) == <<T(At1(Fmts, k))>>
TyFmt == MapSeq(LAMBDA p : LET h == 7 * p[1] + 5 * p[2] IN Mk(Tys[p[1]], FmtT(p[2] - 1), IF h % 3 = 0 THEN At1(FAttrs, h) ELSE <<>>, At1(TAttrs, h \div 3), At1(DsOf, p[1] + p[2]), TRUE), Prod2(Idx(NT), Idx(NF)))
TyAttr == MapSeq(LAMBDA p : LET h == 3 * p[1] + 11 * p[2] IN Mk(Tys[p[1]], <<T(At1(<<"{a}-{b}", "{b}{a}", "{a}">>, h))>>, FAttrs[p[2]], IF h % 3 = 2 THEN TAttrs[3] ELSE <<>>, At1(DsOf, p[1] + p[2] + 1), TRUE), Prod2(Idx(NT), Idx(NA)))
FmtAttr == MapSeq(LAMBDA p : LET h == 13 * p[1] + 3 * p[2] IN Mk(At1(Tys, h), FmtT(p[1] - 1), FAttrs[p[2]], At1(TAttrs, p[1] + p[2]), At1(DsOf, h), TRUE), Prod2(Idx(NF), Idx(NA)))
FmtType == MapSeq(LAMBDA p : Mk(At1(Tys, 5 * p[1] + p[2]), FmtT(p[1] - 1), <<>>, TAttrs[p[2]], At1(<<DsOf[3], DsOf[1]>>, p[1]), TRUE), Prod2(Idx(NF), Idx(NX)))
\* a tuple struct, a newtype, no field at all
Shapes == Flatten(MapSeq(LAMBDA fm : MapSeq(LAMBDA fs : Entry(Types \o <<Struct("X", IF fm = "" THEN <<>> ELSE <<F(fm)>>, fs)>>, T("1-x"), 3),
             <<<<>>, <<Fld("0", U8, <<>>)>>, <<Fld("a", U8, <<>>)>>, <<Fld("0", U8, <<>>), Fld("1", Str, <<>>)>>, <<Fld("0", OptTy(U8), <<OptA>>)>>, <<Fld("0", Ref(1), <<F("{x}")>>), Fld("1", U8, <<Dflt>>)>>, <<Fld("0", Ref(3), <<>>)>>>>),
             <<"", "{0}", "{1}", "{0}{1}", "{1}-{0}", "{}", "{a}", "x", "{00}", "{0.x}", "{0.0}", "{2}", "{-1}">>))
\* regexes of the type
RxPool == <<Named(T("a"), Star(Dot)), Cat(<<Named(T("a"), Dot), Named(T("b"), DigitCls)>>), Cat(<<Named(T("b"), Dot), Named(T("c"), DigitCls)>>), Named(<<>>, Dot), Cat(<<Named(T("a"), Dot), Named(T("b"), DigitCls), Named(<<>>, Star(Dot))>>),
            Cat(<<Named(T("a.x"), Dot), Named(T("b"), DigitCls)>>), Cat(<<Named(T("a.z"), Dot), Named(T("b"), DigitCls)>>), [k |-> "bad", raw |-> "(?<a>"], [k |-> "bad", raw |-> "a**{"], Star(Dot), Alt(<<Named(T("a"), Dot), Named(T("b"), DigitCls)>>), Cat(<<Named(T("b.x"), Dot), Named(T("a"), Dot)>>)>>
ByRx == MapSeq(LAMBDA p : [Mk(Tys[p[2]], <<>>, <<>>, <<>>, <<"F">>, TRUE) EXCEPT !.d.types[4].attrs = (IF (p[1] + p[2]) % 2 = 0 THEN <<F("{a}{b}")>> ELSE <<>>) \o <<Rx(RxPool[p[1]])>> \o (IF p[2] % 3 = 0 THEN <<[FA EXCEPT !.dfields = <<T("a")>>]>> ELSE <<>>)], Prod2(Idx(Len(RxPool)), Idx(NT)))
\* enums
StyleA(x) == [DA EXCEPT !.style = <<x>>]
Ign == [FA EXCEPT !.ign = TRUE]
ETypes == <<<<>>, <<F("{}")>>, <<F("{}-{0}")>>, <<F("{0}")>>, <<F("{a}")>>, <<F("{")>>, <<StyleA("snake_case")>>, <<StyleA("snakecase")>>, <<Dflt>>, <<Infer>>, <<Rx(Cat(<<Named(<<>>, Dot), Named(T("0"), Star(Dot))>>))>>, <<Rx(Named(<<>>, Dot))>>, <<[FA EXCEPT !.dfields = <<T("0")>>]>>, <<F("x{:?}")>>, <<F("{:>5}")>>, <<F("{:x}")>>>>
EVars == <<<<<<>>, <<>>>>, <<<<F("v")>>, <<>>>>, <<<<F("{}{0}")>>, <<Fld("0", U8, <<>>)>>>>, <<<<>>, <<Fld("0", U8, <<>>)>>>>, <<<<Ign>>, <<Fld("0", U8, <<>>)>>>>, <<<<F("{0}"), Ign>>, <<Fld("0", Ref(3), <<>>)>>>>, <<<<F("{a}")>>, <<Fld("a", Str, <<>>), Fld("b", U8, <<Dflt>>)>>>>, <<<<F("{a}")>>, <<Fld("a", Str, <<>>), Fld("b", U8, <<>>)>>>>,
           <<<<StyleA("none"), F("{}!")>>, <<>>>>, <<<<StyleA("SNAKE"), F("x")>>, <<>>>>, <<<<Rx(Named(T("0"), DigitCls))>>, <<Fld("0", U8, <<>>)>>>>, <<<<Rx(Named(T("1"), DigitCls))>>, <<Fld("0", U8, <<>>)>>>>, <<<<F("{0}")>>, <<Fld("0", OptTy(U8), <<OptA>>)>>>>, <<<<F("{0}")>>, <<Fld("0", U8, <<OptA>>)>>>>, <<<<F("{}"), [FA EXCEPT !.dfields = <<T("0")>>]>>, <<Fld("0", U8, <<>>)>>>>, <<<<Rx(Star(Dot))>>, <<>>>>>>
Enums == MapSeq(LAMBDA p : [Entry(Types \o <<Enum("X", ETypes[p[1]], <<Vr("Va", EVars[p[2]][1], EVars[p[2]][2]), Vr("b", At1(EVars, 3 * p[1] + p[2])[1], At1(EVars, 3 * p[1] + p[2])[2])>>)>>, T("1bv"), 3) EXCEPT !.d.types[4].ds = At1(DsOf, p[1] \div 2 + p[2])], Prod2(Idx(Len(ETypes)), Idx(Len(EVars))))

\* `from_str` belongs to the derive of FromStr
DsOnly(as) == SelectSeq(as, LAMBDA a : a.w = "d")
Stripped(e) == LET X == e.d.types[4] IN IF "F" \in RangeOf(X.ds) THEN e ELSE
  [e EXCEPT !.d.types[4].attrs = DsOnly(@), !.d.types[4].vs = MapSeq(LAMBDA V : [V EXCEPT !.attrs = DsOnly(@), !.fs = MapSeq(LAMBDA f : [f EXCEPT !.attrs = DsOnly(@)], @)], @)]
ASSUME Load(MapSeq(Stripped, TyFmt \o TyAttr \o FmtType \o Shapes \o ByRx \o Enums \o FmtAttr))
ASSUME PrintT(<<"INFO", "accepted declarations", Cardinality({i \in 1..Len(Fam) : Valid(i)})>>)

Rt == Fam[fi].root
TD == D.types[Rt]
IsStruct == TD.kind = "struct"
AtStart == s = <<>> /\ vi = 0
\* the same type with one of the two derives
OnlyDs(x) == [D EXCEPT !.types[Rt].ds = SelectSeq(@, LAMBDA y : y = x \/ y \in {"m", "M", "G"})]
Separately == AtStart => Valid(fi) = (\A x \in RangeOf(TD.ds) : Errs(OnlyDs(x)) = {})
\* complete, when accepted
Has(x) == x \in RangeOf(TD.ds)
Ignored(V) == Resolve(V.attrs, TRUE).ign /\ ~IsStruct
Determined == (AtStart /\ Valid(fi) /\ Has("F")) =>
  LET a == Resolve(TD.attrs, TRUE) IN
  \A v \in 1..Len(TD.vs) : LET V == TD.vs[v] IN ~Ignored(V) => \A i \in 1..Len(V.fs) :
      \/ \E l \in RangeOf(Pat(fi)[Rt][v].labels) : l = <<i, <<>>>>
      \/ IsStruct /\ a.dflt
      \/ Resolve(V.fs[i].attrs, TRUE).dflt
      \/ V.fs[i].key \in RangeOf(a.dfields) \cup RangeOf(Resolve(V.attrs, TRUE).dfields)
\* what a label asks to be parsed can be parsed, and leads to a place
Reachable == (AtStart /\ Valid(fi) /\ Has("F")) =>
  \A v \in 1..Len(TD.vs) : LET V == TD.vs[v] IN ~Ignored(V) => \A l \in RangeOf(Pat(fi)[Rt][v].labels) :
      TypeAt(D, V.fs[l[1]].ty, l[2]) # <<>> /\ (l[2] # <<>> => HasFromStr(D, TypeAt(D, V.fs[l[1]].ty, l[2])[1]))
Shown == (AtStart /\ Valid(fi) /\ Has("D")) =>
  \A v \in 1..Len(TD.vs) : LET V == TD.vs[v] ps == DisplayParts(TD, V) IN ps.ok /\ \A i \in 1..Len(ps.parts) : LET p == ps.parts[i] IN
      (p.k = "var" /\ Keys(p.arg) # <<>>) => FieldIx(V, Keys(p.arg)[1]) # 0 /\ TypeAt(D, V.fs[FieldIx(V, Keys(p.arg)[1])].ty, Tail(Keys(p.arg))) # <<>>
\* an accepted declaration has an answer for every text and value
Answers == OnTexts(Has("F") => LET r == ParseOf(s) IN r.ok \/ r.msgs # {})
Writes == OnValues(Has("D") => \A i \in 1..Len(TextOf(Value)) : TextOf(Value)[i] \in 0..1114111)
=============================================================================
