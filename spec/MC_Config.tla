----------------------------- MODULE MC_Config -----------------------------
(* C17.  Declarations that need no pattern: their language is a finite set of *)
(* fixed texts and every field comes from a default.  They have to work, in   *)
(* the same way, with and without the std feature (the family is compiled in  *)
(* both configurations).                                                      *)
EXTENDS Scope

Str == Sc("str")
NewU(m, k, rej) == [FA EXCEPT !.new = <<[map |-> m, kind |-> k, rej |-> rej, mark |-> <<>>]>>]
DI == [Struct("I", <<>>, <<Fld("x", Sc("u8"), <<>>), Fld("y", Str, <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("7"), T("dy")>>>>]
Texts == MapSeq(LAMBDA x : T(x), <<"", "a", "ab", "{{", "a{{}}", "}}b", "Ab">>)
With3(e, d) == [e EXCEPT !.d.types[e.root].ds = <<"D", "F", "m">>, !.d.types[e.root].dv = <<d>>]
E(types) == Entry(types, T("abA{}"), Pick(3, 5))
\* structs: unit, defaults per field, per type, both, by default_fields, through `new`
Structs == MapSeq(LAMBDA x : E(<<Struct("X", <<Fmt(x)>>, <<>>)>>), Texts)
           \o MapSeq(LAMBDA x : E(<<DI, Struct("X", <<Fmt(x)>>, <<Fld("a", Sc("u8"), <<Dflt>>), Fld("b", Ref(1), <<Dflt>>)>>)>>), Texts)
           \o MapSeq(LAMBDA x : E(<<DI, Struct("X", <<Fmt(x), [FA EXCEPT !.dfields = <<T("0"), T("1")>>]>>, <<Fld("0", Str, <<>>), Fld("1", Ref(1), <<>>)>>)>>), Texts)
           \o MapSeq(LAMBDA x : With3(E(<<DI, Struct("X", <<Fmt(x), Dflt>>, <<Fld("a", Sc("u8"), <<Dflt>>), Fld("b", Str, <<>>), Fld("c", Ref(1), <<>>)>>)>>), <<T("4"), T("w"), <<T("6"), T("z")>> >>), Texts)
           \o MapSeq(LAMBDA k : E(<<Struct("X", <<Fmt(T("ab")), NewU(<<2, 1>>, k[1], k[2])>>, <<Fld("a", Sc("u8"), <<Dflt>>), Fld("b", Sc("u8"), <<Dflt>>)>>)>>),
                     <<<<"self", <<>>>>, <<"opt", <<[f |-> 1, v |-> T("0")]>>>>, <<"opt", <<[f |-> 1, v |-> T("1")]>>>>, <<"res", <<[f |-> 2, v |-> T("0")]>>>>, <<"res", <<>>>>>>)
\* enums
Bodies == <<<<<<>>, <<>>>>, <<<<Fmt(T("a"))>>, <<>>>>, <<<<Fmt(T("{}a"))>>, <<>>>>, <<<<Fmt(T("b")), [FA EXCEPT !.ign = TRUE]>>, <<>>>>, <<<<Fmt(T("a"))>>, <<Fld("n", Sc("u8"), <<Dflt>>)>>>>,
            <<<<Fmt(T("b")), NewU(<<1>>, "opt", <<[f |-> 1, v |-> T("0")]>>)>>, <<Fld("n", Sc("u8"), <<Dflt>>)>>>>, <<<<[DA EXCEPT !.style = <<"UPPERCASE">>]>>, <<>>>>, <<<<Fmt(T("{{{}}}"))>>, <<Fld("0", Str, <<Dflt>>)>>>>>>
TypeAttrs == <<<<>>, <<[DA EXCEPT !.style = <<"lowercase">>]>>, <<Fmt(T("a{}"))>>, <<Fmt(T("b"))>>>>
Enums == MapSeq(LAMBDA p : E(<<Enum("X", p[1], <<Vr("A", p[2][1], p[2][2]), Vr("bA", p[3][1], p[3][2])>>)>>), Prod3(TypeAttrs, Bodies, Bodies))
         \o <<E(<<Enum("X", <<>>, <<>>)>>)>>
ASSUME Load(Structs \o Enums) /\ AllValid

Rt == Fam[fi].root
TD == D.types[Rt]
\* the declarations need no pattern
Fixed == \A vi_ \in Usable(D, Rt) : Pat(fi)[Rt][vi_].lit
\* only fixed texts are accepted, and each of them decides the value
Language == OnTexts(LET r == ParseOf(s) IN r.ok => \E i \in Usable(D, Rt) : LitText(Pat(fi)[Rt][i]) = s)
\* the value does not depend on anything but the variant chosen
IsDefault == OnTexts(LET r == ParseOf(s)
                         vs == IF TD.kind = "struct" THEN r.v ELSE r.v.f
                         V == IF TD.kind = "struct" THEN TD.vs[1] ELSE TD.vs[r.v.v]
                         whole == \E a \in RangeOf(TD.attrs) : a.dflt
                     IN r.ok => \A j \in 1..Len(V.fs) :
                          vs[j] = IF whole /\ ~(\E a \in RangeOf(V.fs[j].attrs) : a.dflt) THEN TD.dv[1][j] ELSE DefaultOf(D, V.fs[j].ty))
\* a fixed text of a variant that is neither ignored nor refused by its constructor is accepted
Accepts == OnTexts((\E i \in Usable(D, Rt) : LitText(Pat(fi)[Rt][i]) = s /\ (\A a \in RangeOf((IF TD.kind = "struct" THEN TD ELSE TD.vs[i]).attrs) : a.new = <<>> \/ a.new[1].rej = <<>>)
                        /\ (\A j \in Usable(D, Rt) : j < i => LitText(Pat(fi)[Rt][j]) # s)) => ParseOf(s).ok)
=============================================================================
