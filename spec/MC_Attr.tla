------------------------------- MODULE MC_Attr -------------------------------
(* C16.  Lists of display and from_str attributes on one item, in any order   *)
(* and number: the same as one attribute of each kind that says the last of   *)
(* what each kind says; Display is what it is without the from_str            *)
(* attributes; what delimits a field is its regex, else `with`, else          *)
(* regex_infer, else the shortest match.                                      *)
EXTENDS Scope, Lang

Str == Sc("str")
L(seq) == MapSeq(LAMBDA x : T(x), seq)
FmtS(x) == Fmt(T(x))
Ign == [FA EXCEPT !.ign = TRUE]
StyleA(x) == [DA EXCEPT !.style = <<x>>]
NewId(map) == [FA EXCEPT !.new = <<[map |-> map, kind |-> "self", rej |-> <<>>, mark |-> <<>>]>>]
NewMark(map, f, v) == [FA EXCEPT !.new = <<[map |-> map, kind |-> "opt", rej |-> <<>>, mark |-> <<[f |-> f, v |-> v]>>]>>]
\* lists over a pool: all of one or two, and a sample of three
Lists(pool0, step) == LET pool == TLCEval(pool0) n == Len(pool) IN
  <<<<>>>> \o MapSeq(LAMBDA a : <<a>>, pool) \o Prod2(pool, pool)
  \o [i \in 1..((n * n * n) \div step) |-> LET k == i * step - 1 IN <<pool[1 + (k % n)], pool[1 + ((k \div n) % n)], pool[1 + (k \div (n * n))]>>]

\* on a field
FieldPool == <<FmtS("-{}"), FmtS("{}a"), With("num"), With("brk"), Rx(Plus(Rng("a", "b"))), Rx(Cat(<<Lit(T("-")), Named(<<>>, Star(DigitCls))>>)),
               WithF("alt2"), WithF("brk"), Infer, [With("num") EXCEPT !.fmt = <<T("-{}")>>], [WithF("brk") EXCEPT !.rx = <<Cat(<<Lit(T("[")), Star(Dot)>>)>>], Dflt>>
OnField == MapSeq(LAMBDA as :
             [Entry(<<Struct("X", <<FmtS("{0}{1}")>>, <<Fld("0", Str, as), Fld("1", Str, <<>>)>>)>>, T("a1-["), Pick(3, 4)) EXCEPT !.vals = <<<<T("a"), T("1")>>, <<T(""), T("-")>>>>, !.extra = L(<<"[]", "[a]", "-[1]", "[1]a", "-12a", "[[]]", "-[]a-">>)],
             Lists(FieldPool, Pick(17, 3)))
\* on an optional field of a derived type
E1 == Enum("E", <<>>, <<Vr("a", <<>>, <<>>), Vr("B", <<FmtS("<{0}")>>, <<Fld("0", Sc("u8"), <<>>)>>)>>)
OptPool == <<OptA, FmtS("-{}"), With("brk"), WithF("alt"), Infer, Rx(Star(Rng("<", "a"))), Dflt>>
OnOpt == MapSeq(LAMBDA as :
             [Entry(<<E1, Struct("X", <<FmtS("{0}{1}")>>, <<Fld("0", OptTy(Ref(1)), <<OptA>> \o as), Fld("1", Str, <<>>)>>)>>, T("a<1-"), Pick(3, 4)) EXCEPT !.vals = <<<< <<>>, T("1")>>, << <<[v |-> 2, f |-> <<T("3")>>]>>, T("")>>>>, !.extra = L(<<"[a]", "-[<1]", "-a", "-<1<1">>)],
             Lists(OptPool, Pick(13, 3)))
\* on a struct
GP(a, x, b, y) == Cat(<<Named(T(a), x), Lit(T("-")), Named(T(b), y)>>)
TypePool == <<FmtS("{a}-{b}"), FmtS("{b}{a}"), FmtS("{a}"), Rx(GP("a", Star(Dot), "b", Plus(DigitCls))), Rx(Cat(<<Named(T("b"), DigitCls), Named(T("a"), Star(DigitCls))>>)), Infer, Dflt,
              NewId(<<1, 2>>), NewMark(<<1, 2>>, 1, T("m")), [Rx(Named(T("a"), Star(Dot))) EXCEPT !.dflt = TRUE], [FmtS("{b}-{a}") EXCEPT !.style = <<>>]>>
OnType == MapSeq(LAMBDA as :
             [Entry(<<[Struct("X", <<FmtS("{a}{b}")>> \o as, <<Fld("a", Str, <<>>), Fld("b", Sc("u8"), <<>>)>>) EXCEPT !.ds = <<"D", "F", "m">>, !.dv = <<<<T("da"), T("9")>>>>]>>, T("a1-"), Pick(4, 5)) EXCEPT !.vals = <<<<T("a"), T("1")>>, <<T("-"), T("20")>>>>],
             Lists(TypePool, Pick(29, 3)))
\* fields named by default_fields, in several attributes
Dfl(names) == [FA EXCEPT !.dfields = L(names)]
DflPool == <<Dfl(<<"a">>), Dfl(<<"b">>), Dfl(<<"a", "b">>), Dfl(<<"b", "a">>), Dflt, FmtS("{c}"), FmtS("{a}{c}"), [Dfl(<<"a">>) EXCEPT !.rx = <<Named(T("c"), Star(Dot))>>]>>
OnDefaults == MapSeq(LAMBDA as :
             [Entry(<<[Struct("X", <<FmtS("{c}")>> \o as, <<Fld("a", Str, <<>>), Fld("b", Sc("u8"), <<>>), Fld("c", Str, <<>>)>>) EXCEPT !.ds = <<"D", "F", "m">>, !.dv = <<<<T("da"), T("9"), T("dc")>>>>]>>, T("a1-"), 2) EXCEPT !.vals = <<<<T("a"), T("1"), T("c")>>>>],
             Lists(DflPool, Pick(11, 3)))
             \o MapSeq(LAMBDA as :
             [Entry(<<Enum("X", as, <<Vr("A", <<FmtS("{c}")>>, <<Fld("a", Str, <<>>), Fld("b", Sc("u8"), <<>>), Fld("c", Str, <<>>)>>), Vr("B", <<FmtS("1")>>, <<Fld("b", Str, <<>>)>>)>>)>>, T("a1-"), 2) EXCEPT !.vals = <<[v |-> 1, f |-> <<T("a"), T("1"), T("c")>>]>>],
             Lists(<<Dfl(<<"a">>), Dfl(<<"b">>), Dfl(<<"a", "b">>)>>, 1))
             \o MapSeq(LAMBDA as :
             [Entry(<<Enum("X", <<>>, <<Vr("A", <<FmtS("{c}")>> \o as, <<Fld("a", Str, <<>>), Fld("b", Sc("u8"), <<>>), Fld("c", Str, <<>>)>>)>>)>>, T("a1-"), 2) EXCEPT !.vals = <<[v |-> 1, f |-> <<T("a"), T("1"), T("c")>>]>>],
             Lists(<<Dfl(<<"a">>), Dfl(<<"b">>), Dfl(<<"a", "b">>)>>, 1))
\* on an enum and its variants
TypePoolE == <<FmtS("{}!"), FmtS("a{}"), StyleA("lowercase"), StyleA("kebab-case"), Rx(Cat(<<Named(<<>>, Lit(<<>>)), Star(Lit(T("b")))>>)), Rx(Cat(<<Lit(T("!")), Named(<<>>, Lit(<<>>))>>)), Infer>>
VarPool == <<FmtS("b{}"), StyleA("UPPERCASE"), StyleA("none"), Rx(Cat(<<Named(<<>>, Lit(<<>>)), Lit(T("!"))>>)), Ign, FmtS("{}")>>
Small(pool) == LET p == TLCEval(pool) IN <<<<>>>> \o MapSeq(LAMBDA a : <<a>>, p) \o [i \in 1..(2 * Len(p)) |-> <<p[1 + (i % Len(p))], p[1 + ((i * 3 + (i \div Len(p)) + 1) % Len(p))]>>]
OnEnum == MapSeq(LAMBDA q :
             [Entry(<<Enum("X", q[1], <<Vr("aB", q[2], <<>>), Vr("b", <<>>, <<>>), Vr("Ba", <<StyleA("snake_case")>>, <<>>)>>)>>, <<>>, 0) EXCEPT !.vals = [i \in 1..3 |-> [v |-> i, f |-> <<>>]],
                !.extra = Flatten(MapSeq(LAMBDA x : L(<<"", "!">>) \o MapSeq(LAMBDA pre : pre \o x, L(<<"", "a", "b", "!">>)) \o MapSeq(LAMBDA post : x \o post, L(<<"!", "b", "bb">>)), L(<<"aB", "b", "AB", "ab", "a-b", "Ba", "b_a", "ba", "B", "BA", "b-a">>)))],
             Prod2(Small(TypePoolE), Small(VarPool)))

\* a shared family list; the part an index belongs to
ASSUME TLCSet(21, Settled(<<OnField, OnOpt, OnType, OnEnum, OnDefaults>>))
Parts == TLCGet(21)
ASSUME Load(Parts[1] \o Parts[2] \o Parts[3] \o Parts[4] \o Parts[5])
ASSUME PrintT(<<"INFO", "accepted declarations", Cardinality({i \in 1..Len(Fam) : Valid(i)})>>)

\* what a list says, read from its end
Last(as, w, Get(_)) == LET is == {i \in 1..Len(as) : as[i].w = w /\ Get(as[i]) # <<>>} IN IF is = {} THEN <<>> ELSE Get(as[CHOOSE i \in is : \A j \in is : j <= i])
Any1(as, w, Get(_)) == \E i \in 1..Len(as) : as[i].w = w /\ Get(as[i])
OneD(as) == [DA EXCEPT !.fmt = Last(as, "d", LAMBDA a : a.fmt), !.with = Last(as, "d", LAMBDA a : a.with), !.style = Last(as, "d", LAMBDA a : a.style), !.opt = Any1(as, "d", LAMBDA a : a.opt)]
OneF(as) == [FA EXCEPT !.rx = Last(as, "f", LAMBDA a : a.rx), !.with = Last(as, "f", LAMBDA a : a.with), !.infer = Any1(as, "f", LAMBDA a : a.infer), !.new = Last(as, "f", LAMBDA a : a.new),
                       !.dfields = Flatten(MapSeq(LAMBDA a : IF a.w = "f" THEN a.dfields ELSE <<>>, as)), !.dflt = Any1(as, "f", LAMBDA a : a.dflt), !.ign = Any1(as, "f", LAMBDA a : a.ign)]
\* every item with one attribute of each kind, in this order or the other; or without those of from_str
Each(d, f(_)) == [d EXCEPT !.types = MapSeq(LAMBDA t : [t EXCEPT !.attrs = f(@), !.vs = MapSeq(LAMBDA v : [v EXCEPT !.attrs = f(@), !.fs = MapSeq(LAMBDA x : [x EXCEPT !.attrs = f(@)], @)], @)], @)]
DF(as) == <<OneD(as), OneF(as)>>
FD(as) == <<OneF(as), OneD(as)>>
DOnly(as) == SelectSeq(as, LAMBDA a : a.w = "d")
\* registers 22..24: the declarations rewritten, their patterns and whether they are accepted
ASSUME /\ TLCSet(22, Settled([i \in 1..Len(Fam) |-> <<Each(Fam[i].d, DF), Each(Fam[i].d, FD)>>]))
       /\ TLCSet(23, Settled([i \in 1..Len(Fam) |-> MapSeq(LAMBDA d : Errs(d), TLCGet(22)[i])]))
       /\ TLCSet(24, Settled([i \in 1..Len(Fam) |-> IF Valid(i) THEN MapSeq(LAMBDA d : Compile(d), TLCGet(22)[i]) ELSE <<>>]))
SameAccepted == (s = <<>> /\ vi = 0) => \A j \in 1..2 : (TLCGet(23)[fi][j] = {}) = Valid(fi)
SameParse == OnTexts(LET r == ParseOf(s) IN \A j \in 1..2 : ParseTy(TLCGet(22)[fi][j], TLCGet(24)[fi][j], Root, s) = r)
SameText == OnValues(LET t == TextOf(Value) IN (\A j \in 1..2 : FmtValue(TLCGet(22)[fi][j], Root, Value, NoSpec) = t) /\ FmtValue(Each(D, DOnly), Root, Value, NoSpec) = t)
\* what delimits and converts field 0 of the first part
AsOf == D.types[1].vs[1].fs[1].attrs
Delimited == OnTexts(fi <= Len(Parts[1]) =>
  LET d == OneD(AsOf)
      f == OneF(AsOf)
      w == IF f.with # <<>> THEN f.with ELSE d.with
      m == MatchAll(Pat(fi)[1][1].nodes, s)
      t == CapText(m[1], 1, <<>>, s)
      r == ParseOf(s)
      grouped == IF f.rx = <<>> THEN FALSE ELSE CapNames(f.rx[1]) # <<>>
      \* the text the field stands for, with the frame of its format
      pre == IF d.fmt = <<>> \/ grouped THEN <<>> ELSE SplitFormat(d.fmt[1]).parts[1].s
      post == IF d.fmt = <<>> \/ grouped THEN <<>> ELSE LET ps == SplitFormat(d.fmt[1]).parts IN ps[Len(ps)].s
      inner == IF f.rx # <<>> THEN Norm(f.rx[1], FALSE, FALSE) ELSE IF w # <<>> THEN FormatNode(D, w[1], Str) ELSE LazyAny
      RECURSIVE Bare(_)
      Bare(n) == CASE n.k = "cap" -> Bare(n.a[1]) [] n.k \in {"cat", "alt", "rep"} -> [n EXCEPT !.a = MapSeq(LAMBDA x : Bare(x), @)] [] OTHER -> n
      fits(x) == Len(x) >= Len(pre) + Len(post) /\ StartsWith(x, pre) /\ EndsWith(x, post) /\ InLang(Bare(inner), SubSeq(x, Len(pre) + 1, Len(x) - Len(post)))
  IN /\ (m # <<>>) = (\E i \in 0..Len(s) : fits(SubSeq(s, 1, i)))
     /\ m # <<>> => LET c == IF w = <<>> THEN Ok(t[1]) ELSE ParseWith(D, Pat(fi), w[1], Str, t[1])
                    IN r.ok = c.ok /\ (r.ok => r.v[1] = c.v)
     /\ (m # <<>> /\ ~grouped) => fits(pre \o t[1] \o post) /\ StartsWith(s, pre \o t[1] \o post))
=============================================================================
