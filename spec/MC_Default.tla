----------------------------- MODULE MC_Default ------------------------------
(* C10 (and C15, C19).  What the text does not supply is the declared         *)
(* default; what it supplies is always parsed.                                *)
EXTENDS Scope

Str == Sc("str")
Br(k) == T("{") \o T(k) \o T("}")
DI == [Struct("I", <<>>, <<Fld("x", Sc("u8"), <<>>), Fld("y", Str, <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("7"), T("dy")>>>>]
DJ == [Struct("J", <<>>, <<Fld("i", Ref(1), <<>>), Fld("t", [k |-> "tup", es |-> <<Sc("i8"), Str>>], <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<< <<T("8"), T("jy")>>, <<T("-3"), T("jt")>> >>>>]
Formats == MapSeq(LAMBDA x : T(x), <<"{a}-{b}", "{b}-{a}", "{a}", "-{b}", "-", "{c.x}-{b}", "{c.y}-{c.x}", "{a}-{c.y}", "{b}-{c.x}-{a}", "{c.x}">>)
\* how the fields get a default: [on type: default, default_fields; on fields: the ones with default]
Modes == <<<<TRUE, <<>>, {}>>, <<TRUE, <<>>, {"a"}>>, <<TRUE, <<>>, {"b"}>>, <<TRUE, <<>>, {"c"}>>, <<TRUE, <<"c">>, {"a"}>>, <<FALSE, <<>>, {"a", "b", "c"}>>, <<FALSE, <<>>, {"c"}>>, <<FALSE, <<"a", "b", "c">>, {}>>,
           <<FALSE, <<"c", "b">>, {"a"}>>, <<FALSE, <<"c">>, {}>>>>
FldOf(k, ty, m) == Fld(k, ty, IF k \in m[3] THEN <<Dflt>> ELSE <<>>)
TypeAttrs(m) == (IF m[1] THEN <<Dflt>> ELSE <<>>) \o (IF m[2] = <<>> THEN <<>> ELSE <<[FA EXCEPT !.dfields = MapSeq(LAMBDA x : T(x), m[2])]>>)
Dv == <<T("9"), T("db"), <<T("6"), T("dc")>>>>
Named1 == MapSeq(LAMBDA p :
         LET st == FStruct("X", <<Fmt(p[2])>> \o TypeAttrs(p[1]), <<FldOf("a", Sc("u8"), p[1]), FldOf("b", Str, p[1]), FldOf("c", Ref(1), p[1])>>)
         IN Entry(<<DI, IF p[1][1] THEN [st EXCEPT !.ds = <<"F", "m">>, !.dv = <<Dv>>] ELSE st>>, T("1-"), Pick(6, 9)), Prod2(Modes, Formats))
\* two levels of nesting, tuples in between
Deep == MapSeq(LAMBDA p :
         LET st == FStruct("X", <<Fmt(p[2])>> \o (IF p[1] THEN <<Dflt>> ELSE <<>>), <<Fld("0", Str, <<>>), Fld("1", Ref(2), IF p[1] THEN <<>> ELSE <<Dflt>>)>>)
         IN Entry(<<DI, DJ, IF p[1] THEN [st EXCEPT !.ds = <<"F", "m">>, !.dv = <<<<T("x0"), << <<T("5"), T("xy")>>, <<T("4"), T("xt")>> >> >>>>] ELSE st>>, T("1-"), Pick(6, 9)),
         Prod2(<<TRUE, FALSE>>, MapSeq(LAMBDA x : T(x), <<"{0}-{1.t.0}", "{1.t.1}-{0}", "{0}-{1.i.x}", "{1.i.y}-{1.i.x}{0}", "{1.t.0}-{1.i.y}-{0}", "{0}{1.t.1}1{1.t.0}">>)))
\* in variants; with optional and custom fields; with regexes where a group takes no part
InEnum == MapSeq(LAMBDA p :
         Entry(<<DI, FEnum("X", IF p[1] = 1 THEN <<[FA EXCEPT !.dfields = <<T("a")>>]>> ELSE <<>>,
                  <<Vr("A", <<Fmt(p[2])>> \o (IF p[1] = 2 THEN <<[FA EXCEPT !.dfields = <<T("a")>>]>> ELSE <<>>), <<FldOf("a", Sc("u8"), <<0, 0, IF p[1] = 3 THEN {"a"} ELSE {}>>), FldOf("b", Str, <<0, 0, {}>>)>>),
                    Vr("B", <<Fmt(T("{b}"))>>, <<FldOf("a", OptTy(Sc("u8")), <<0, 0, IF p[1] # 1 THEN {"a"} ELSE {}>>), FldOf("b", Sc("u8"), <<0, 0, {}>>)>>)>>)>>, T("1-"), Pick(6, 9)),
         Prod2(<<1, 2, 3, 4>>, MapSeq(LAMBDA x : T(x), <<"-{b}", "{b}-{a}", "{a}1">>)))
ByRegex == MapSeq(LAMBDA p :
         LET st == FStruct("X", <<Rx(p[2])>> \o (IF p[1] = 1 THEN <<Dflt>> ELSE <<>>), <<Fld("a", Sc("u8"), IF p[1] = 2 THEN <<Dflt>> ELSE <<>>), Fld("b", Str, IF p[1] = 2 THEN <<Dflt>> ELSE <<>>), Fld("c", Ref(1), IF p[1] # 1 THEN <<Dflt>> ELSE <<>>)>>)
         IN Entry(<<DI, IF p[1] = 1 THEN [st EXCEPT !.ds = <<"F", "m">>, !.dv = <<Dv>>] ELSE st>>, T("1-"), Pick(6, 9)),
         Prod2(<<1, 2>>, <<Cat(<<Named(T("a"), Plus(DigitCls)), Rep(0, 1, TRUE, Named(T("b"), Lit(T("-"))))>>), Named(T("b"), Star(Dot)), Cat(<<Named(T("c.x"), Star(DigitCls)), Lit(T("-"))>>),
                           Alt(<<Cat(<<Named(T("c.y"), Plus(Lit(T("-")))), Named(T("a"), DigitCls)>>), Cat(<<Named(T("b"), DigitCls), Named(T("c.x"), DigitCls)>>)>>)>>))

ASSUME Load(Named1 \o Deep \o InEnum \o ByRegex)

Rt == Fam[fi].root
TD == D.types[Rt]
IsStruct == TD.kind = "struct"
V1 == TD.vs[1]
Has(fs, k) == \E i \in 1..Len(fs) : fs[i] = k
\* the labels of the pattern say what the text supplies
Labs == Pat(fi)[Rt][1].labels
Supplied(i) == \E j \in 1..Len(Labs) : Labs[j] = <<i, <<>>>>
Own(i) == \/ \E a \in RangeOf(V1.fs[i].attrs) : a.dflt
          \/ \E a \in RangeOf(TD.attrs) : Has(a.dfields, V1.fs[i].key)
Whole == \E a \in RangeOf(TD.attrs) : a.dflt
\* leaves of a value: all paths
RECURSIVE Leaves(_)
Leaves(ty) == CASE ty.k = "tup" -> UNION {{<<DigitsOf(i - 1)>> \o p : p \in Leaves(ty.es[i])} : i \in 1..Len(ty.es)}
                [] ty.k = "named" -> UNION {{<<D.types[ty.n].vs[1].fs[i].key>> \o p : p \in Leaves(D.types[ty.n].vs[1].fs[i].ty)} : i \in 1..Len(D.types[ty.n].vs[1].fs)}
                [] OTHER -> {<<>>}
Unsupplied(i) == ~Supplied(i)
Defaults == OnTexts(IsStruct => LET r == ParseOf(s)
                                IN r.ok => \A i \in 1..Len(V1.fs) : Unsupplied(i) =>
                                     \A p \in Leaves(V1.fs[i].ty) : ~Has(Labs, <<i, p>>) =>
                                        GetAt(D, V1.fs[i].ty, r.v[i], p) =
                                        GetAt(D, V1.fs[i].ty, IF Own(i) \/ ~Whole THEN DefaultOf(D, V1.fs[i].ty) ELSE TD.dv[1][i], p))
\* what the text supplies is parsed, never replaced: an error if it does not convert
Parsed == OnTexts(IsStruct => LET m == MatchAll(Pat(fi)[Rt][1].nodes, s)
                                  r == ParseOf(s)
                                  Cap1(l) == LET c == CapText(m[1], l[1], l[2], s) IN IF c = <<>> THEN <<>> ELSE c[1]
                                  Cv(l) == ParseTy(D, Pat(fi), TypeAt(D, V1.fs[l[1]].ty, l[2])[1], Cap1(l))
                              IN m # <<>> => /\ r.ok = (\A j \in 1..Len(Labs) : Cv(Labs[j]).ok)
                                             /\ r.ok => \A j \in 1..Len(Labs) : GetAt(D, V1.fs[Labs[j][1]].ty, r.v[Labs[j][1]], Labs[j][2]) = Cv(Labs[j]).v)
\* a declaration is accepted when every field is supplied or has a default
Determined == (s = <<>> /\ vi = 0 /\ IsStruct) =>
                 (Valid(fi) <=> \A i \in 1..Len(V1.fs) : Whole \/ Own(i) \/ \E l \in RangeOf(ContainerPat(D, Rt, 1).nodes) : l.k # "lit" /\ <<i, <<>>>> \in RangeOf(Labels(l)))
=============================================================================
