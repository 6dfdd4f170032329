------------------------------- MODULE MC_Opt --------------------------------
(* C06.  None is written as nothing, Some(v) as a plain field would be; the   *)
(* field may be there or not when parsing.                                    *)
EXTENDS Scope, Lang

Str == Sc("str")
E1 == Enum("E", <<>>, <<Vr("a", <<>>, <<>>), Vr("B", <<Fmt(T("<{0}"))>>, <<Fld("0", Sc("u8"), <<>>)>>)>>)
I1 == Struct("I", <<Fmt(T("{x}-{y}"))>>, <<Fld("x", Sc("u8"), <<>>), Fld("y", Str, <<>>)>>)
DI == [Struct("J", <<>>, <<Fld("x", Sc("u8"), <<>>), Fld("y", Str, <<>>)>>) EXCEPT !.ds = <<"m">>, !.dv = <<<<T("7"), T("dy")>>>>]
Types == <<E1, I1, DI>>
Root1(attrs, vs) == <<E1, I1, DI, Struct("X", attrs, vs)>>
\* an inner type, attributes, characters, some values
Inner == <<
  <<Str, <<>>, "a-", <<T(""), T("a")>>>>, <<Sc("u8"), <<>>, "1-", <<T("0"), T("255")>>>>, <<Sc("i8"), <<Fmt(T("<{}>"))>>, "1-<>", <<T("-1")>>>>,
  <<Str, <<Fmt(T("<{}>"))>>, "<>a", <<T(""), T(">")>>>>, <<Str, <<Fmt(T("-{}"))>>, "-a", <<T("")>>>>, <<Sc("u8"), <<Fmt(T("{}-"))>>, "1-", <<T("9")>>>>,
  <<Sc("char"), <<>>, "a-", <<T("-")>>>>, <<Sc("u8"), <<With("num")>>, "1a", <<T("1")>>>>, <<Sc("u8"), <<With("brk")>>, "[]1", <<T("1")>>>>,
  <<Sc("u8"), <<With("brkr"), Fmt(T("-{}"))>>, "[]1-", <<T("1")>>>>, <<Str, <<Rx(Star(Lit(T("a"))))>>, "a-", <<T("aa")>>>>, <<Str, <<Rx(Star(Lit(T("a")))), Fmt(T("-{}"))>>, "a-", <<T("")>>>>,
  <<Str, <<Rx(Cat(<<Lit(T("-")), Named(<<>>, Star(Lit(T("a"))))>>))>>, "a-", <<T("")>>>>,
  <<Ref(1), <<>>, "a<1", <<[v |-> 1, f |-> <<>>], [v |-> 2, f |-> <<T("3")>>]>>>>, <<Ref(2), <<>>, "1-a", <<<<T("1"), T("-")>>>>>>, <<Ref(2), <<Infer>>, "1-", <<<<T("1"), T("")>>>>>>,
  <<Sc("u8"), <<Infer, Fmt(T("<{}"))>>, "1<a", <<T("1")>>>>, <<Sc("bool"), <<>>, "true", <<T("true")>>>>,
  <<Sc("i32"), <<Fmt(T("{:>4}|"))>>, " 1|", <<T("-5")>>>>, <<Sc("f64"), <<Fmt(T("{:+.1e}"))>>, "1e.", <<T("1.5")>>>>, <<Str, <<Fmt(T("{:?}"))>>, "a-", <<T("a\"")>>>>,
  <<Ref(2), <<Fmt(T("({})("))>>, "1-()", <<<<T("1"), T("x")>>>>>>, <<Sc("u8"), <<With("hex"), Fmt(T("0x{}"))>>, "0x1", <<T("31")>>>>>>
Optional(p) == Fld("a", OptTy(p[1]), <<OptA>> \o p[2])
Outer == MapSeq(LAMBDA x : T(x), <<"{a}", "x{a}", "{a}x", "{a}{b}", "{b}{a}", "{b}-{a}", "{a}-{b}">>)
HasB(f) == Contains(f, T("{b}"))
Main == MapSeq(LAMBDA q :
         LET p == q[1]
             b == HasB(q[2])
             mk(v) == IF b THEN <<v, T("z")>> ELSE <<v>>
         IN [Entry(Root1(<<Fmt(q[2])>>, <<Optional(p)>> \o (IF b THEN <<Fld("b", Str, <<>>)>> ELSE <<>>)), T(p[3]) \o (IF 120 \in RangeOf(q[2]) THEN T("x") ELSE <<>>), Pick(IF Len(p[3]) > 3 \/ 120 \in RangeOf(q[2]) THEN 3 ELSE 4, 5))
             EXCEPT !.vals = <<mk(<<>>)>> \o MapSeq(LAMBDA v : mk(<<v>>), p[4])],
         Prod2(Inner, Outer))
\* two optional fields in a row; in tuples, enums, newtypes
Both == MapSeq(LAMBDA p :
         [Entry(Root1(<<Fmt(T("{0}{1}"))>>, <<Fld("0", OptTy(p[1][1]), <<OptA>> \o p[1][2]), Fld("1", OptTy(p[2][1]), <<OptA>> \o p[2][2])>>), TLCEval(T(p[1][3]) \o T(p[2][3])), Pick(3, 4))
           EXCEPT !.vals = <<<< <<>>, <<>> >>, << <<p[1][4][1]>>, <<>> >>, << <<>>, <<p[2][4][1]>> >>, << <<p[1][4][1]>>, <<p[2][4][1]>> >>>>],
         <<<<Inner[1], Inner[4]>>, <<Inner[4], Inner[1]>>, <<Inner[5], Inner[5]>>, <<Inner[8], Inner[9]>>, <<Inner[3], Inner[12]>>, <<Inner[15], Inner[6]>>>>)
NewType == MapSeq(LAMBDA p :
         [Entry(Root1(<<>>, <<[Optional(p) EXCEPT !.key = T("0")]>>), T(p[3]), Pick(3, 5)) EXCEPT !.vals = <<<< <<>> >>>> \o MapSeq(LAMBDA v : << <<v>> >>, p[4])], Inner)
InEnum == MapSeq(LAMBDA p :
         [Entry(<<E1, I1, DI, Enum("X", <<>>, <<Vr("N", <<Fmt(T("n{0}"))>>, <<[Optional(p) EXCEPT !.key = T("0")]>>), Vr("n", <<>>, <<>>), Vr("S", <<Fmt(T("{0}"))>>, <<Fld("0", Str, <<>>)>>)>>)>>,
                T(p[3]) \o T("n"), Pick(3, 4)) EXCEPT !.vals = <<[v |-> 1, f |-> << <<>> >>]>> \o MapSeq(LAMBDA v : [v |-> 1, f |-> << <<v>> >>], p[4])], Inner)

ASSUME Load(Main \o Both \o NewType \o InEnum) /\ AllValid

Rt == Fam[fi].root
IsStruct == D.types[Rt].kind = "struct"
V1 == D.types[Rt].vs[1]
OptFields == {i \in 1..Len(V1.fs) : Resolve(V1.fs[i].attrs, TRUE).opt}
\* the declaration with field i made plain
Plainly(i) == [D EXCEPT !.types[Rt].vs[1].fs[i] = [@ EXCEPT !.ty = @.e, !.attrs = SelectSeq(@, LAMBDA a : a # OptA)]]
OneOpt == IsStruct /\ Cardinality(OptFields) = 1
Ix == CHOOSE i \in OptFields : TRUE
\* None adds nothing, Some(v) what the plain field would add
WriteNone == OnValues((OneOpt /\ Value[Ix] = <<>>) =>
               LET ps == DisplayParts(D.types[Rt], V1).parts
                   Of(p) == IF p.k = "str" THEN p.s ELSE IF FieldIx(V1, p.arg) = Ix THEN <<>> ELSE FieldText(D, V1.fs[FieldIx(V1, p.arg)], Value[FieldIx(V1, p.arg)], NoSpec)
               IN TextOf(Value) = Flatten(MapSeq(Of, ps)))
WriteSome == OnValues((OneOpt /\ Value[Ix] # <<>>) => TextOf(Value) = FmtValue(Plainly(Ix), Root, [Value EXCEPT ![Ix] = @[1]], NoSpec))
\* the shapes accepted: without the field, or with the plain field
Node == Cat(Pat(fi)[Rt][1].nodes)
RECURSIVE NoOpt(_), WithOpt(_)
IsOpt(n) == n.k = "rep" /\ n.lo = 0 /\ n.hi = 1 /\ ~n.g
NoOpt(nodes) == SelectSeq(nodes, LAMBDA n : ~IsOpt(n))
WithOpt(nodes) == MapSeq(LAMBDA n : IF IsOpt(n) THEN n.a[1] ELSE n, nodes)
Shapes == OnTexts(OneOpt => LET ns == Pat(fi)[Rt][1].nodes
                                m == MatchAll(ns, s)
                            IN (m # <<>>) = (InLang(Cat(NoOpt(ns)), s) \/ InLang(Cat(WithOpt(ns)), s)))
Preference == OnTexts(IsStruct => MatchAll(<<Node>>, s) = Preferred(Node, s))
\* None is preferred to a match with the field, when nothing that could be cut differently precedes
First == LET ns == Pat(fi)[Rt][1].nodes IN \E i \in 1..Len(ns) : IsOpt(ns[i]) /\ \A j \in 1..(i - 1) : ns[j].k = "lit"
NonePreferred == OnTexts((OneOpt /\ First) => LET r == ParseOf(s) IN
                    (r.ok /\ InLang(Cat(NoOpt(Pat(fi)[Rt][1].nodes)), s)) => r.v[Ix] \in {<<>>})
\* and Some holds what the plain field would
SomeIsPlain == OnTexts((OneOpt /\ First) => LET r == ParseOf(s)
                                               DP == Plainly(Ix)
                                               q == ParseTy(DP, Compile(DP), Root, s)
                                           IN (r.ok /\ r.v[Ix] # <<>>) => q.ok /\ q.v = [r.v EXCEPT ![Ix] = @[1]])
=============================================================================
