-------------------------------- MODULE MC_Msg -------------------------------
(* C19.  What an error says: the field (or nested field) whose own substring  *)
(* does not convert, if the shape is right; otherwise only that it failed.    *)
EXTENDS Scope, Lang

Str == Sc("str")
U8 == Sc("u8")
F(x) == Fmt(T(x))
In == Struct("I", <<F("{x}.{y}")>>, <<Fld("x", U8, <<>>), Fld("y", Sc("bool"), <<Rx(Star(Dot))>>)>>)
E1 == Enum("E", <<>>, <<Vr("a", <<>>, <<>>), Vr("B", <<F("<{0}>")>>, <<Fld("0", U8, <<>>)>>)>>)
DJ == [Struct("J", <<>>, <<Fld("x", U8, <<>>), Fld("type", Ref(1), <<>>), Fld("t", [k |-> "tup", es |-> <<U8, Sc("i8")>>], <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("7"), <<T("1"), T("true")>>, <<T("2"), T("3")>>>>>>]
Types == <<In, E1, DJ>>
NewRej(k) == [FA EXCEPT !.new = <<[map |-> <<1, 2>>, kind |-> k, rej |-> <<[f |-> 1, v |-> T("1")]>>, mark |-> <<>>]>>]
Dj == <<Dflt>>
\* some longer texts
Halves == MapSeq(LAMBDA x : T(x), <<"", "1", "a", "<1", "<a", "[1]", "[a]", "1.true", "1.a", "300.true", "<300>", "0", "1.1", "true">>)
Long == Flatten(MapSeq(LAMBDA x : MapSeq(LAMBDA y : x \o T("-") \o y, Halves), Halves))
\* two fields that can both fail, in all ways of being named: [keys, format]
Shapes == <<<<"a", "b", "{a}-{b}">>, <<"b", "a", "{a}-{b}">>, <<"type", "a_b", "{type}-{a_b}">>, <<"0", "1", "{1}-{0}">>, <<"a", "b", "-{b}{a}">>, <<"value_0", "empty", "{empty}-{value_0}">>>>
Tys == <<<<U8, <<>>>>, <<Sc("i8"), <<F("<{}")>>>>, <<OptTy(U8), <<OptA>>>>, <<OptTy(U8), <<OptA, F("<{}")>>>>, <<U8, <<Rx(Star(Dot))>>>>, <<Sc("char"), <<>>>>, <<U8, <<With("brk")>>>>, <<U8, <<With("hex")>>>>, <<Ref(1), <<>>>>, <<Ref(2), <<>>>>, <<Sc("bool"), <<Infer>>>>, <<Sc("nzu8"), <<>>>>,
         <<Ref(1), <<Infer>>>>, <<[k |-> "vec", e |-> U8], <<[DA EXCEPT !.with = <<[n |-> "join", item |-> <<[n |-> "fmt"]>>, d |-> T(".")]>>]>>>>>>
Pairs == MapSeq(LAMBDA p : [Entry(Types \o <<FStruct("X", <<F(p[1][3])>>, <<Fld(p[1][1], p[2][1], p[2][2]), Fld(p[1][2], p[3][1], p[3][2])>>)>>, T("1-a<."), Pick(2, 4)) EXCEPT !.extra = TLCGet(22)],
            Prod3(Pick(<<Shapes[1], Shapes[3], Shapes[4]>>, Shapes), Pick(<<Tys[1], Tys[4], Tys[7], Tys[9], Tys[12], Tys[14]>>, Tys), Tys))
\* nested fields, several of one field
Paths == <<"{j.x}-{a}", "{a}-{j.x}", "{j.t.0}-{j.x}", "{j.type.x}-{j.x}-{j.t.1}", "{j.type}-{j.t.1}", "{j.t.1}{a}", "{j.type.y}", "{j.type.x}-{j.type.y}">>
Deep == MapSeq(LAMBDA p : Entry(Types \o <<FStruct("X", <<F(p)>>, <<Fld("j", Ref(3), Dj), Fld("a", U8, <<Dflt>>)>>)>>, T("1-a."), Pick(5, 6)), Paths)
        \o MapSeq(LAMBDA p : Entry(Types \o <<FStruct("X", <<F(p)>>, <<Fld("0", U8, <<Dflt>>), Fld("1", Ref(3), Dj)>>)>>, T("1-a."), Pick(5, 6)), <<"{1.x}-{0}", "{1.type.x}-{1.t.0}", "{1.t.0}-{1.t.1}">>)
        \* the format of a field names nested fields
        \o MapSeq(LAMBDA p : Entry(Types \o <<FStruct("X", <<F("{j}-{a}")>>, <<Fld("j", Ref(3), <<F(p), Dflt>>), Fld("a", U8, <<>>)>>)>>, T("1-a."), Pick(5, 6)), <<"{x}", "{t.1}<{x}", "{type.x}.{t.0}">>)
ByRegex == MapSeq(LAMBDA p : Entry(Types \o <<FStruct("X", <<Rx(p)>>, <<Fld("a", U8, <<>>), Fld("b", U8, <<>>)>>)>>, T("1-a"), Pick(5, 7)),
            <<Cat(<<Named(T("a"), Star(Dot)), Lit(T("-")), Named(T("b"), Star(Dot))>>), Alt(<<Cat(<<Named(T("a"), Plus(DigitCls)), Lit(T("-"))>>), Cat(<<Named(T("b"), Plus(Rng("a", "b"))), Star(Dot)>>)>>), Cat(<<Rep(0, 1, TRUE, Named(T("b"), Lit(T("1")))), Named(T("a"), Star(Dot))>>)>>)
WithNew == MapSeq(LAMBDA p : Entry(Types \o <<FStruct("X", <<F("{0}-{1}"), NewRej(p)>>, <<Fld("0", U8, <<>>), Fld("1", Sc("i8"), <<>>)>>)>>, T("1-a"), Pick(5, 7)), <<"opt", "res">>)
Enums == MapSeq(LAMBDA p : Entry(Types \o <<FEnum("X", <<>>, <<Vr("A", <<F("{0}-{1}")>>, <<Fld("0", p[1][1], p[1][2]), Fld("1", p[2][1], p[2][2])>>), Vr("b", <<F("{x}")>>, <<Fld("x", U8, <<>>)>>), Vr("C", <<F("-")>>, <<>>)>>)>>, T("1-a<."), Pick(3, 5)), Prod2(Tys, Pick(<<Tys[1], Tys[10]>>, Tys)))
\* a derived type that fails inside a field
Outer == <<Entry(Types \o <<FStruct("X", <<F("{p}-{q}")>>, <<Fld("p", Ref(1), <<>>), Fld("q", OptTy(Ref(2)), <<OptA>>)>>)>>, T("1.-a<>"), Pick(5, 6)), Entry(Types \o <<FStruct("Y", <<F("{p}-{q}")>>, <<Fld("p", Ref(1), <<>>), Fld("q", U8, <<>>)>>), FStruct("X", <<>>, <<Fld("0", Ref(4), <<>>)>>)>>, T("1.-a"), Pick(5, 6))>>
ASSUME TLCSet(22, Settled(Long))
ASSUME Load(Pairs \o Deep \o ByRegex \o WithNew \o Enums \o Outer) /\ AllValid

Rt == Fam[fi].root
TD == D.types[Rt]
IsStruct == TD.kind = "struct"
V1 == TD.vs[1]
Labs == Pat(fi)[Rt][1].labels
Node == Cat(Pat(fi)[Rt][1].nodes)
Name(l) == <<V1.fs[l[1]].key>> \o l[2]
RECURSIVE Dotted(_)
Dotted(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o T(".") \o Dotted(Tail(p))
Said(l) == T("field `") \o Dotted(Name(l)) \o T("` parse failed.")
\* the text cut for a label (the last one its group took), and whether it converts
CutOf(caps, l) == LET is == {i \in 1..Len(caps) : caps[i][1] = l[1] /\ caps[i][2] = l[2]} IN IF is = {} THEN <<>> ELSE LET c == caps[CHOOSE i \in is : \A j \in is : i <= j] IN <<SubSeq(s, c[3], c[4] - 1)>>
Converts(caps, l) ==
  LET c == CutOf(caps, l)
      f == V1.fs[l[1]]
      a == Resolve(f.attrs, TRUE)
      x == IF c = <<>> THEN <<>> ELSE c[1]
  IN IF l[2] # <<>> THEN ParseTy(D, Pat(fi), TypeAt(D, f.ty, l[2])[1], x).ok
     ELSE IF a.opt /\ c = <<>> THEN TRUE
     ELSE LET w == WithOf(a, FALSE) IN IF w = <<>> THEN ParseTy(D, Pat(fi), ValueTy(f, a), x).ok ELSE ParseWith(D, Pat(fi), w[1], ValueTy(f, a), x).ok
Blames == OnTexts(IsStruct =>
  LET r == ParseOf(s)
      m == Preferred(Node, s)
      bad == IF m = <<>> THEN {} ELSE {l \in RangeOf(Labs) : ~Converts(m[1], l)}
  IN IF m = <<>> THEN ~r.ok /\ r.msgs = {T("parse failed.")}
     ELSE IF bad # {} THEN ~r.ok /\ r.msgs = {Said(l) : l \in bad}
     ELSE r.ok \/ (Resolve(TD.attrs, TRUE).new # <<>> /\ r.msgs = {T("parse failed.")}))
EnumSaysNothing == OnTexts(~IsStruct => LET r == ParseOf(s) IN ~r.ok => r.msgs = {T("parse failed.")})
=============================================================================
