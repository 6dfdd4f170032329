------------------------------- MODULE MC_Join -------------------------------
(* C21.  Lists: items with the delimiter between them, and back by cutting at *)
(* every occurrence of it.                                                    *)
EXTENDS Scope

Str == Sc("str")
U8 == Sc("u8")
F(x) == Fmt(T(x))
Vec(t) == [k |-> "vec", e |-> t]
W(x) == [n |-> x]
Join(item, d) == [n |-> "join", item |-> <<item>>, d |-> T(d)]
Delim(d) == [n |-> "join", item |-> <<W("fmt")>>, d |-> T(d), delim |-> TRUE]
JA(w) == [DA EXCEPT !.with = <<w>>]
JF(w) == [FA EXCEPT !.with = <<w>>]
In == Struct("I", <<F("{x},{y}")>>, <<Fld("x", U8, <<>>), Fld("y", Str, <<>>)>>)
E1 == Enum("E", <<>>, <<Vr("a", <<>>, <<>>), Vr("ab", <<>>, <<>>), Vr("C", <<F("-{0}")>>, <<Fld("0", U8, <<>>)>>)>>)
Types == <<In, E1>>
\* an item type, a format of items, characters, lists of items
Items == <<<<Str, W("fmt"), "a", <<T(""), T("a"), T("aa")>>>>, <<U8, W("fmt"), "1", <<T("0"), T("11")>>>>, <<Sc("char"), W("fmt"), "1", <<T("-"), T("1")>>>>, <<Str, W("brk"), "[]", <<T(""), T("a")>>>>,
           <<U8, W("num"), "1", <<T("7")>>>>, <<U8, W("hex"), "f1", <<T("255"), T("0")>>>>, <<Str, W("rej"), "no", <<T("no"), T("n")>>>>, <<Ref(1), W("fmt"), "1,", <<<<T("1"), T("")>>, <<T("2"), T("a,")>>>>>>,
           <<Ref(2), W("fmt"), "ab-", <<[v |-> 1, f |-> <<>>], [v |-> 2, f |-> <<>>], [v |-> 3, f |-> <<T("5")>>]>>>>>>
Delims == <<",", "", "-", "--", ", ", "a", "aa", "aba", "|", ".", "\\", "{}", "*", "()", "[", "\n", "1">>
\* lists made of some items: none, one, two, three, the same twice
ListsOf(vs) == <<<<>>, <<vs[1]>>, <<vs[Len(vs)]>>, <<vs[1], vs[1]>>, <<vs[Len(vs)], vs[1]>>, <<vs[1], vs[Len(vs)], vs[1]>>>>
Chars(it, d) == TLCEval(LET a == T(it) \o T(d) RECURSIVE U(_, _) U(i, out) == IF i > Len(a) THEN out ELSE U(i + 1, IF a[i] \in RangeOf(out) THEN out ELSE Append(out, a[i])) IN U(1, <<>>))
FmtOf(it, d) == IF it[2].n = "fmt" THEN Delim(d) ELSE Join(it[2], d)
Size(al) == IF Len(al) > 4 THEN Pick(3, 4) ELSE IF Len(al) > 2 THEN Pick(4, 5) ELSE Pick(5, 8)
\* alone
Newtypes == MapSeq(LAMBDA p : LET it == p[1] al == Chars(it[3], p[2]) IN
              [Entry(Types \o <<Struct("X", <<>>, <<Fld("0", Vec(it[1]), <<JA(FmtOf(it, p[2]))>>)>>)>>, al, Size(al)) EXCEPT !.vals = MapSeq(LAMBDA l : <<l>>, ListsOf(it[4])), !.extra = Flatten(MapSeq(LAMBDA x : MapSeq(LAMBDA y : T(x) \o T(p[2]) \o T(y) \o T(p[2]), <<"", "1", "a">>), <<"", "1", "a", "no", "[a]">>))],
              Prod2(Items, Delims))
\* next to other fields, in a frame, optional, for one direction only, over a with of the other kind
InStruct == MapSeq(LAMBDA p : LET it == Items[p[1][1]] d == p[1][2] al == Chars(Items[p[1][1]][3], d \o ";") IN
              [Entry(Types \o <<Struct("X", <<F(p[2])>>, <<Fld("a", Vec(it[1]), <<JA(FmtOf(it, d))>> \o p[3]), Fld("b", Str, <<>>)>>)>>, al, Pick(4, 5)) EXCEPT !.vals = Flatten(MapSeq(LAMBDA l : <<<<l, T("")>>, <<l, T("z;")>>>>, ListsOf(it[4])))],
              Prod3(<<<<1, ",">>, <<2, "">>, <<2, ";">>, <<1, ";;">>, <<9, "-">>, <<8, ";">>, <<4, "a">>>>, <<"{a};{b}", "{b};{a}", "{b}{a}", "{a}{b}", ";{a};{b}">>, <<<<>>, <<F("<{}")>>, <<Rx(Star(Dot))>>, <<Rx(Cat(<<Lit(T(";")), Named(<<>>, Star(Dot))>>))>>>>))
Optional == MapSeq(LAMBDA p : LET it == Items[p[1][1]] d == p[1][2] al == Chars(Items[p[1][1]][3], d) IN
              [Entry(Types \o <<Struct("X", <<F(p[2])>>, <<Fld("a", OptTy(Vec(it[1])), <<OptA, JA(FmtOf(it, d))>> \o p[3])>>)>>, al, Pick(4, 5)) EXCEPT !.vals = <<<< <<>> >>>> \o MapSeq(LAMBDA l : << <<l>> >>, ListsOf(it[4]))],
              Prod3(<<<<1, ",">>, <<2, "">>, <<9, "-">>>>, <<"{a}", "{a};", "({a})">>, <<<<>>, <<F("<{}")>>, <<F("{}1")>>>>))
\* lists of lists
Nested == MapSeq(LAMBDA p : LET it == Items[p[1]] al == Chars(it[3], p[2][1] \o p[2][2]) vs == it[4] IN
              [Entry(Types \o <<Struct("X", <<>>, <<Fld("0", Vec(Vec(it[1])), <<JA(Join(FmtOf(it, p[2][1]), p[2][2]))>>)>>)>>, al, Pick(4, 6)) EXCEPT !.vals = <<<< <<>> >>, << << <<>> >> >>, << << <<>>, <<vs[1]>> >> >>, << << <<vs[1], vs[Len(vs)]>>, <<vs[1]>> >> >>>>],
              Prod2(<<1, 2, 4>>, <<<<",", ";">>, <<"-", "--">>, <<"--", "-">>, <<"", ",">>, <<",", "">>, <<";", ";">>>>))
InEnum == MapSeq(LAMBDA p : [Entry(Types \o <<Enum("X", <<>>, <<Vr("A", <<F(p[1])>>, <<Fld("0", Vec(U8), <<JA(Delim(p[2]))>>)>>), Vr("B", <<F("{l}")>>, <<Fld("l", Vec(Str), <<JA(Delim("1"))>>)>>), Vr("c", <<>>, <<>>)>>)>>, T("1c") \o T(p[2]), Pick(4, 5))
                         EXCEPT !.vals = <<[v |-> 1, f |-> << <<>> >>], [v |-> 1, f |-> << <<T("1"), T("2")>> >>], [v |-> 2, f |-> << <<T("x"), T("y")>> >>], [v |-> 3, f |-> <<>>]>>],
              Prod2(<<"{0}", "-{0}", "{0}-">>, <<",", "-", "">>))
OneWay == <<[Entry(Types \o <<Struct("X", <<>>, <<Fld("0", Vec(U8), <<JA(Delim(",")), JF(Delim("-"))>>)>>)>>, T("1,-"), 5) EXCEPT !.vals = MapSeq(LAMBDA l : <<l>>, ListsOf(Items[2][4]))],
            [Entry(Types \o <<Struct("X", <<>>, <<Fld("0", Vec(U8), <<JF(Join(W("brk"), "-")), JA(Join(W("hex"), "")), JA(Delim("--"))>>)>>)>>, T("1[]-"), 5) EXCEPT !.vals = MapSeq(LAMBDA l : <<l>>, ListsOf(Items[2][4]))]>>

ASSUME Load(Newtypes \o InStruct \o Optional \o Nested \o InEnum \o OneWay) /\ AllValid

Rt == Fam[fi].root
V1 == D.types[Rt].vs[1]
IsStruct == D.types[Rt].kind = "struct"
Lone == IsStruct /\ Len(V1.fs) = 1 /\ V1.fs[1].ty.k = "vec" /\ D.types[Rt].attrs = <<>>
FieldW == Resolve(V1.fs[1].attrs, TRUE).with[1]
DispW == Resolve(V1.fs[1].attrs, FALSE).with[1]
ItemTy == V1.fs[1].ty.e
\* ---- by position: where an occurrence of d starts that is not inside an earlier one
Occurs(x, d, i) == i + Len(d) - 1 <= Len(x) /\ SubSeq(x, i, i + Len(d) - 1) = d
\* the pieces ps are x cut at every occurrence of d, first come first
IsCut(ps, x, d) ==
  /\ JoinText(ps, d) = x
  /\ \A i \in 1..Len(ps) : LET rest == IF i = Len(ps) THEN ps[i] ELSE ps[i] \o d IN
       \A k \in 1..Len(rest) : Occurs(rest, d, k) => (i < Len(ps) /\ k = Len(ps[i]) + 1)
\* a text is a list exactly if its pieces are items
Splits == OnTexts(Lone =>
  LET ps == SplitText(s, FieldW.d)
      r == ParseOf(s)
      items == TLCEval([i \in 1..Len(ps) |-> ParseWith(D, Pat(fi), FieldW.item[1], ItemTy, ps[i])])
  IN /\ FieldW.d # <<>> => IsCut(ps, s, FieldW.d)
     /\ r.ok = (\A i \in 1..Len(ps) : items[i].ok)
     /\ r.ok => r.v[1] = [i \in 1..Len(ps) |-> items[i].v])
\* no list is read from fewer pieces, nor an empty one from anything
NeverEmpty == OnTexts(Lone => LET r == ParseOf(s) IN r.ok => r.v[1] # <<>>)
\* writing: item by item
Appends == OnValues(Lone => LET v == Value[1] n == Len(v) IN
  TextOf(Value) = IF n = 0 THEN <<>> ELSE IF n = 1 THEN WriteWith(D, DispW.item[1], ItemTy, v[1], NoSpec)
                  ELSE TextOf(<<SubSeq(v, 1, n - 1)>>) \o DispW.d \o TextOf(<<<<v[n]>>>>))
\* and back, when the items do not contain or overlap the delimiter
Clean(ps, d) == d # <<>> /\ IsCut(ps, JoinText(ps, d), d)
Back == OnValues((Lone /\ FieldW = DispW /\ Value[1] # <<>>) =>
  LET v == Value[1]
      ps == MapSeq(LAMBDA x : WriteWith(D, DispW.item[1], ItemTy, x, NoSpec), v)
      each == TLCEval([i \in 1..Len(v) |-> ParseWith(D, Pat(fi), FieldW.item[1], ItemTy, ps[i])])
  IN (Clean(ps, DispW.d) /\ \A i \in 1..Len(v) : each[i] = Ok(v[i])) => ParseOf(TextOf(Value)) = Ok(Value))
\* in a struct, what is a list is the field's own text
InField == OnTexts((IsStruct /\ ~Lone) =>
  LET r == ParseOf(s)
      m == MatchAll(Pat(fi)[Rt][1].nodes, s)
      a == Resolve(V1.fs[1].attrs, TRUE)
      c == CapText(m[1], 1, <<>>, s)
      l == ParseWith(D, Pat(fi), a.with[1], ValueTy(V1.fs[1], a), IF c = <<>> THEN <<>> ELSE c[1])
  IN IF m = <<>> THEN ~r.ok ELSE IF a.opt /\ c = <<>> THEN r.ok /\ r.v[1] = <<>> ELSE r.ok = l.ok /\ (r.ok => r.v[1] = IF a.opt THEN <<l.v>> ELSE l.v))
=============================================================================
