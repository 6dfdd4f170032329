------------------------------ MODULE MC_Bounds ------------------------------
(* C14.  The where clauses of every declaration of a family, for all          *)
(* instantiations with markers: without explicit bounds they are exact; an    *)
(* explicit list replaces what is below it; a list of from_str replaces that  *)
(* of display.                                                                *)
EXTENDS Bounds, Scope

P1 == [k |-> "param", i |-> 1]
P2 == [k |-> "param", i |-> 2]
Wr(e) == [k |-> "w", e |-> e]
Fx(e) == [k |-> "fix", e |-> e]
Dots == [k |-> "dots"]
BT(t) == [k |-> "ty", ty |-> t]
BP(t, trs) == [k |-> "pred", ty |-> t, trs |-> trs]
BoundD(l) == IF l = <<>> THEN <<>> ELSE <<[DA EXCEPT !.bound = l]>>
BoundF(l) == IF l = <<>> THEN <<>> ELSE <<[FA EXCEPT !.bound = l]>>
Types == <<P1, Wr(P1), OptTy(P1), Fx(P1), Sc("u8"), [k |-> "out", e |-> P1], [k |-> "named", n |-> 1, args |-> <<P1>>], [k |-> "bx", e |-> P1], Wr(Wr(P1))>>
Fmts == <<"{a}-{b}", "{a:?}-{b}", "x{b}", "{a}", "{b:x}{a:?}", "{a}{a:x}">>
Lists == << <<>>, <<<<>>>>, <<<<BT(P1)>>>>, <<<<Dots>>>>, <<<<BP(P1, <<"Debug">>)>>>>, <<<<Dots, BP(P2, <<"Debug", "FromStr">>)>>>>, <<<<BT(P1), BT(P2), BP(P1, <<"Debug", "LowerHex">>)>>>> >>
FLists == << <<>>, <<<<>>>>, <<<<BT(P2), Dots>>>>, <<<<BP(P1, <<"FromStr", "Display">>), BT(P2)>>>> >>
Kinds == <<"{}", "opt", "with", "fmt">>
GTy(name, kind, np, ds, attrs, vs) == [name |-> T(name), kind |-> kind, np |-> np, ds |-> ds, dv |-> <<>>, attrs |-> attrs, vs |-> vs]
Inner == GTy("I", "struct", 1, <<"D", "F">>, <<>>, <<Vr("I", <<>>, <<Fld("0", P1, <<>>)>>)>>)
\* one type: struct or variant, the type of a, format, what a has, the lists at the type, variant and field
Mk(kind, ty, f, ak0, lt, lv, lf, ft, ff, ds0) ==
  LET ds == IF f = "{a}{a:x}" THEN <<"D">> ELSE ds0    \* a field is captured once
      ak == IF ak0 = "with" /\ f \in {"{a:?}-{b}", "{b:x}{a:?}", "{a}{a:x}"} THEN "{}" ELSE ak0    \* `with` only shows plainly
      isF == "F" \in RangeOf(ds)
      BF(l) == IF isF THEN BoundF(l) ELSE <<>>
       a1 == Fld("a", IF ak = "opt" THEN OptTy(ty) ELSE ty,
                (IF ak = "opt" THEN <<OptA>> ELSE IF ak = "with" THEN <<With("brk")>> ELSE IF ak = "fmt" THEN <<Fmt(T("<{:?}>"))>> ELSE <<>>) \o BoundD(lf) \o BF(ff))
      used == {Keys(p.arg)[1] : p \in {x \in RangeOf(SplitFormat(T(f)).parts) : x.k = "var"}}
      D0(fld) == IF fld.key \in used \/ "F" \notin RangeOf(ds) THEN fld ELSE [fld EXCEPT !.attrs = Append(@, Dflt), !.ty = IF fld.ty.k = "opt" THEN @ ELSE Fx(@)]
      fs == <<D0(a1), D0(Fld("b", P2, <<>>)), Fld("z", Fx(P1), IF isF THEN <<Dflt>> ELSE <<>>)>>
  IN GTy("X", kind, 2, ds, (IF kind = "struct" THEN <<Fmt(T(f))>> ELSE <<>>) \o BoundD(lt) \o BF(ft),
         IF kind = "struct" THEN <<Vr("X", <<>>, fs)>> ELSE <<Vr("A", <<Fmt(T("v") \o T(f))>> \o BoundD(lv), fs), Vr("B", <<>>, <<>>)>>)
Ds == << <<"D", "F">>, <<"D">>, <<"F">> >>
At2(x, i) == x[1 + (i % Len(x))]
\* no bounds anywhere: all combinations
NP == Len(Types) * Len(Fmts) * Len(Kinds) * Len(Ds) * 2
Plain0(k) == MapSeq(LAMBDA x : LET i == 1 + (x - 1) * k IN Mk(At2(<<"struct", "enum">>, i), At2(Types, i \div 2), At2(Fmts, i \div (2 * Len(Types))), At2(Kinds, i \div (2 * Len(Types) * Len(Fmts))), <<>>, <<>>, <<>>, <<>>, <<>>, At2(Ds, i \div (2 * Len(Types) * Len(Fmts) * Len(Kinds)))),
                    [x \in 1..((NP - 1) \div k) + 1 |-> x])
\* with bounds: all combinations of lists; types, formats and derives vary along
L == Len(Lists)
NB == L * L * L * Len(FLists) * Len(FLists)
Bounded(k) == MapSeq(LAMBDA x : LET i == 1 + (x - 1) * k
                                IN Mk(At2(<<"struct", "enum">>, i + i \div 5), At2(Types, i + i \div 9), At2(Fmts, i \div 2), At2(Kinds, i \div 3 + i \div 28),
                                      At2(Lists, i), At2(Lists, i \div L), At2(Lists, i \div (L * L)), At2(FLists, i \div (L * L * L)), At2(FLists, i \div (L * L * L * Len(FLists))), Ds[1]),
                     [x \in 1..((NB - 1) \div k) + 1 |-> x])
Marks == {"Display", "Debug", "LowerHex", "FromStr"}
SetSeq(S) == SelectSeq(<<"Display", "Debug", "LowerHex", "FromStr">>, LAMBDA x : x \in S)
MarkTy(S) == [k |-> "mark", s |-> SetSeq(S)]
Insts == {<<MarkTy(S), MarkTy(Marks)>> : S \in SUBSET Marks} \cup {<<MarkTy(Marks), MarkTy(S)>> : S \in SUBSET Marks} \cup {<<Sc("u8"), Sc("str")>>}
Fam2 == MapSeq(LAMBDA t : [types |-> <<Inner, t>>], Plain0(Pick(5, 1)) \o Bounded(Pick(19, 3)))
TrOf(i) == (IF "D" \in RangeOf(i.types[2].ds) THEN {"Display"} ELSE {}) \cup (IF "F" \in RangeOf(i.types[2].ds) THEN {"FromStr", "FromStrRegex"} ELSE {})

Both(g, ti, Op(_, _, _)) == [Display |-> IF "D" \in RangeOf(g.types[ti].ds) THEN Op(g, ti, "Display") ELSE {}, FromStr |-> IF "F" \in RangeOf(g.types[ti].ds) THEN Op(g, ti, "FromStr") ELSE {}]
Info(g) == LET w == TLCEval(Both(g, 2, Where))
               u == TLCEval(Both(g, 2, Use))
           IN TLCEval([w |-> w, u |-> u, ok |-> Compiles(g, 1) /\ (\A tr \in Derived(g, 2) : \A o \in u[tr] : Holds(g, w[tr], o.ty, o.tr))])
ASSUME /\ TLCSet(11, Settled(Fam2))
       /\ TLCSet(12, Settled([i \in 1..Len(TLCGet(11)) |-> Info(TLCGet(11)[i])]))
       /\ "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, [d |-> TLCGet(11), insts |-> Insts])
       /\ PrintT(<<"INFO", "declarations", Len(TLCGet(11))>>)
       /\ PrintT(<<"INFO", "declarations whose bounds suffice", Cardinality({i \in 1..Len(TLCGet(11)) : TLCGet(12)[i].ok})>>)
\* a declaration (inst = <<>>), then one of its instantiations
VARIABLES di, inst, trait
vars == <<di, inst, trait, fi, s, vi>>
Init2 == di = 0 /\ inst = <<>> /\ trait = "" /\ fi = 0 /\ s = <<>> /\ vi = 0
Next2 == IF di = 0 THEN di' \in 1..Len(Fam) /\ trait' \in TrOf(Fam[di']) /\ UNCHANGED <<inst, fi, s, vi>>
         ELSE inst = <<>> /\ inst' \in Insts /\ UNCHANGED <<di, trait, fi, s, vi>>
Fits == TLCGet(12)[di].ok
G == Fam[di]
X == G.types[2]
Explicit == \E a \in RangeOf(X.attrs) \cup UNION {RangeOf(X.vs[i].attrs) \cup UNION {RangeOf(X.vs[i].fs[j].attrs) : j \in 1..Len(X.vs[i].fs)} : i \in 1..Len(X.vs)} : a.bound # <<>>
Customs == \E i \in 1..Len(X.vs) : \E j \in 1..Len(X.vs[i].fs) : \E a \in RangeOf(X.vs[i].fs[j].attrs) : a.with # <<>>
Derive == IF trait = "Display" THEN "Display" ELSE "FromStr"
W == TLCGet(12)[di].w[Derive]
U == TLCGet(12)[di].u[Derive]
\* `Applies`, from the clauses already worked out
Has(args) == \A o \in W : Holds(G, {}, Subst(o.ty, args), o.tr)
HasIsApplies == inst # <<>> => (Has(inst) <=> Applies(G, 2, inst, trait))
\* without explicit bounds: exactly what the used fields need
Exact == inst # <<>> /\ ~Explicit /\ ~Customs /\ Fits =>
           (Has(inst) <=> \A o \in U : Mentions(o.ty) /\ o.tr # "Default" => Holds(G, {}, Subst(o.ty, inst), o.tr))
Compile0 == di > 0 /\ inst = <<>> /\ ~Explicit /\ ~Customs /\ (\A o \in Use(G, 2, "Display") \cup Use(G, 2, "FromStr") : (Mentions(o.ty) /\ o.tr # "Default") \/ Holds(G, {}, o.ty, o.tr)) => Fits
\* where an impl exists, everything its code uses exists as well
Sound == inst # <<>> /\ Fits /\ Has(inst) => \A o \in U : Holds(G, {}, Subst(o.ty, inst), o.tr)
\* a list at the type without `..` is all there is
OwnList == di > 0 => LET a == Resolve(X.attrs, TRUE)
               b == IF trait = "Display" THEN a.bd ELSE FromStrBound(a)
           IN inst = <<>> /\ b # <<>> /\ ~Opened(b) => W = Items(b[1], Derive)
\* `..` alone is the same as no list
NoDots(as) == SelectSeq(as, LAMBDA a : a.bound # <<<<Dots>>>>)
Bare == [G EXCEPT !.types[2].attrs = NoDots(@), !.types[2].vs = MapSeq(LAMBDA v : [v EXCEPT !.attrs = NoDots(@), !.fs = MapSeq(LAMBDA f : [f EXCEPT !.attrs = NoDots(@)], @)], @)]
DotsNeutral == di > 0 /\ inst = <<>> => W = Where(Bare, 2, Derive)
\* from_str without lists of its own follows display's, with lists ignores them
AsF(as) == LET b == FromStrBound(Resolve(as, TRUE)) IN MapSeq(LAMBDA a : [a EXCEPT !.bound = <<>>], as) \o BoundF(b)
OnlyF == [G EXCEPT !.types[2].attrs = AsF(@), !.types[2].vs = MapSeq(LAMBDA v : [v EXCEPT !.attrs = AsF(@), !.fs = MapSeq(LAMBDA f : [f EXCEPT !.attrs = AsF(@)], @)], @)]
FollowsDisplay == di > 0 /\ inst = <<>> /\ Derive = "FromStr" => W = Where(OnlyF, 2, "FromStr")
\* every trait of a parameter more never loses an impl
Monotone == inst # <<>> /\ (\A o \in W : o.ty.k # "out") /\ Has(inst) => Has([i \in 1..2 |-> IF inst[i].k = "mark" THEN MarkTy(Marks) ELSE inst[i]])
=============================================================================
