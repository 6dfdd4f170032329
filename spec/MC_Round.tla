------------------------------- MODULE MC_Round ------------------------------
(* C02.  Declarations found unambiguous do round trip; more generally, a      *)
(* value does whose text the pattern can cut in one way only and no earlier   *)
(* variant takes.                                                             *)
EXTENDS Scope, Lang

Str == Sc("str")
U8 == Sc("u8")
F(x) == Fmt(T(x))
P1 == Struct("P", <<F("{x},{y}")>>, <<Fld("x", U8, <<>>), Fld("y", Sc("bool"), <<>>)>>)
E1 == Enum("E", <<>>, <<Vr("a", <<>>, <<>>), Vr("B", <<F("<{0}>")>>, <<Fld("0", U8, <<>>)>>), Vr("ab", <<F("{}-{x}")>>, <<Fld("x", Sc("i8"), <<>>)>>)>>)
Types == <<P1, E1>>
\* types and some of their values
Tys == <<<<U8, <<T("0"), T("21")>>>>, <<Sc("i8"), <<T("-1"), T("7")>>>>, <<Sc("bool"), <<T("true")>>>>, <<Str, <<T(""), T("-"), T("1,")>>>>, <<Sc("char"), <<T("-"), T("1")>>>>, <<Ref(1), <<<<T("1"), T("false")>>>>>>,
         <<Ref(2), <<[v |-> 1, f |-> <<>>], [v |-> 2, f |-> <<T("3")>>], [v |-> 3, f |-> <<T("-4")>>]>>>>>>
Seps == <<"", "-", ",", "--", ">", "a", "e">>
Two == MapSeq(LAMBDA p : LET x == Tys[p[1]] y == Tys[p[2]] IN
         [Entry(Types \o <<Struct("X", <<F("{0}" \o p[3] \o "{1}")>>, <<Fld("0", x[1], <<>>), Fld("1", y[1], <<>>)>>)>>, T("1-,a<>"), Pick(4, 5)) EXCEPT !.vals = Prod2(x[2], y[2])],
         Prod3([i \in 1..Len(Tys) |-> i], [i \in 1..Len(Tys) |-> i], Pick(<<"", "-", ",">>, Seps)))
Frames == MapSeq(LAMBDA p : LET x == Tys[p[1]] IN
         [Entry(Types \o <<Struct("X", <<F(p[2])>>, <<Fld("a", x[1], <<>>), Fld("b", U8, <<F("[{}]")>>)>>)>>, T("1-[]"), Pick(4, 5)) EXCEPT !.vals = MapSeq(LAMBDA v : <<v, T("5")>>, x[2])],
         Prod2([i \in 1..Len(Tys) |-> i], <<"{a}{b}", "{b}{a}", "-{a}-{b}-", "{b}-{a}1">>))
Opts == MapSeq(LAMBDA p : LET x == Tys[p[1]] IN
         [Entry(Types \o <<Struct("X", <<F(p[2])>>, <<Fld("a", U8, <<>>), Fld("b", OptTy(x[1]), <<OptA, F(p[3])>>)>>)>>, T("1-,"), Pick(4, 5)) EXCEPT !.vals = <<<<T("1"), <<>>>>>> \o MapSeq(LAMBDA v : <<T("0"), <<v>>>>, x[2])],
         Prod3([i \in 1..Len(Tys) |-> i], <<"{a}{b}", "{b}{a}", "{a}-{b}">>, <<"{}", "-{}", ",{}">>))
\* pairs of variants, nested once
Bodies == <<<<<<>>, <<>>>>, <<<<F("{0}")>>, <<Fld("0", U8, <<>>)>>>>, <<<<F("b{0}")>>, <<Fld("0", Str, <<>>)>>>>, <<<<F("a{0}-{1}")>>, <<Fld("0", U8, <<>>), Fld("1", Str, <<>>)>>>>, <<<<F("-{0}")>>, <<Fld("0", Ref(2), <<>>)>>>>, <<<<F("a")>>, <<>>>>, <<<<F("b{0},{1}")>>, <<Fld("0", Ref(1), <<>>), Fld("1", U8, <<>>)>>>>>>
ValsOf(i, v) == CASE i = 1 -> <<[v |-> v, f |-> <<>>]>> [] i = 2 -> <<[v |-> v, f |-> <<T("1")>>]>> [] i = 3 -> <<[v |-> v, f |-> <<T("")>>], [v |-> v, f |-> <<T("1-")>>]>> [] i = 4 -> <<[v |-> v, f |-> <<T("1"), T("-")>>]>>
                  [] i = 5 -> MapSeq(LAMBDA e : [v |-> v, f |-> <<e>>], Tys[7][2]) [] i = 6 -> <<[v |-> v, f |-> <<>>]>> [] OTHER -> <<[v |-> v, f |-> <<<<T("1"), T("true")>>, T("2")>>]>>
Enums == MapSeq(LAMBDA p : [Entry(Types \o <<Enum("X", <<>>, <<Vr("a", Bodies[p[1]][1], Bodies[p[1]][2]), Vr("b", Bodies[p[2]][1], Bodies[p[2]][2])>>)>>, T("ab1-"), Pick(4, 5)) EXCEPT !.vals = ValsOf(p[1], 1) \o ValsOf(p[2], 2)],
         Prod2([i \in 1..Len(Bodies) |-> i], [i \in 1..Len(Bodies) |-> i]))
InStruct == MapSeq(LAMBDA p : [Entry(Types \o <<Enum("Y", <<>>, <<Vr("a", Bodies[p[1]][1], Bodies[p[1]][2]), Vr("b", Bodies[p[2]][1], Bodies[p[2]][2])>>), Struct("X", <<F("{n}" \o p[3] \o "{m}")>>, <<Fld("n", Ref(3), <<>>), Fld("m", Ref(3), <<>>)>>)>>, T("ab1-"), 4)
              EXCEPT !.vals = Prod2(ValsOf(p[1], 1) \o ValsOf(p[2], 2), ValsOf(p[2], 2))],
         Prod3(<<1, 2, 4>>, <<2, 3, 6>>, <<"-", ";", "">>))
ASSUME Load(Two \o Frames \o Opts \o Enums \o InStruct) /\ AllValid
ASSUME TLCSet(21, Settled([i \in 1..Len(Fam) |-> RoundTrips(Fam[i].d, Ref(Fam[i].root))]))
ASSUME PrintT(<<"INFO", "unambiguous declarations", Cardinality({i \in 1..Len(Fam) : TLCGet(21)[i]})>>)

Unambiguous == TLCGet(21)[fi]
Rt == Fam[fi].root
\* what displays and reads back
Sound == OnValues(Unambiguous => ParseOf(TextOf(Value)) = Ok(Value))
\* also for every value that any text of the scope stands for
Reread == OnTexts(Unambiguous => LET r == ParseOf(s) IN r.ok => ParseOf(TextOf(r.v)) = Ok(r.v))
\* two values never share a text
Distinct == OnValues(Unambiguous => \A j \in 1..Len(Fam[fi].vals) : Fam[fi].vals[j] # Value => TextOf(Fam[fi].vals[j]) # TextOf(Value))
\* one way to cut the text, at this level and in the parts
Complete(nodes, x) == SelectSeq(MatchesSeq(nodes, 1, x, 1, <<>>), LAMBDA m : m[1] = Len(x) + 1)
RECURSIVE OneWay(_, _)
OneWay(ti, v) ==
  LET td == D.types[ti]
      w == IF td.kind = "struct" THEN 1 ELSE v.v
      fs == IF td.kind = "struct" THEN v ELSE v.f
      x == FmtValue(D, Ref(ti), v, NoSpec)
      ps == Pat(fi)[ti]
  IN /\ Cardinality(RangeOf(Complete(ps[w].nodes, x))) = 1
     /\ \A j \in 1..Len(ps) : j # w => ~InLang(Cat(ps[j].nodes), x)
     /\ \A i \in 1..Len(fs) : LET f == td.vs[w].fs[i] IN
          CASE f.ty.k = "named" -> OneWay(f.ty.n, fs[i])
            \* Some of an empty text is written like None
            [] f.ty.k = "opt" -> IF fs[i] = <<>> THEN TRUE ELSE FieldText(D, f, fs[i], NoSpec) # <<>> /\ (f.ty.e.k = "named" => OneWay(f.ty.e.n, fs[i][1]))
            [] OTHER -> TRUE
CutOnce == OnValues(OneWay(Rt, Value) => ParseOf(TextOf(Value)) = Ok(Value))
=============================================================================
