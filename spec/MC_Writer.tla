------------------------------ MODULE MC_Writer ------------------------------
(* C23.  Displaying is writing the pieces of the format in order, each in     *)
(* chunks nobody promises anything about, into a writer that may refuse at    *)
(* any point; a piece may also fail by itself.  The first failure ends it and *)
(* is the result; what was written is a beginning of the text.                *)
EXTENDS Scope

Str == Sc("str")
Prb == Sc("prb")
F(x) == Fmt(T(x))
Vec(t) == [k |-> "vec", e |-> t]
Delim(d) == [DA EXCEPT !.with = <<[n |-> "join", item |-> <<[n |-> "fmt"]>>, d |-> T(d), delim |-> TRUE]>>]
Joined(w, d) == [DA EXCEPT !.with = <<[n |-> "join", item |-> <<[n |-> w]>>, d |-> T(d)]>>]
DTypes(t) == [t EXCEPT !.ds = <<"D", "G">>]
In == DTypes(Struct("I", <<F("({x}|{y})")>>, <<Fld("x", Prb, <<>>), Fld("y", Str, <<>>)>>))
Types == <<In>>
BEL == 7
\* ---- pieces: what a place of the format writes for the fields a (Prb), b (Option<Prb>, opt), c (list), d (with), i (struct), q (Str)
Txt(x) == [src |-> T(x), k |-> "lit", t |-> T(x)]
Pl(x, k) == [src |-> T("{" \o x \o "}"), k |-> k, t |-> <<>>]
Pool == <<Txt("a"), [Txt("{{") EXCEPT !.t = T("{")], Txt("--"), Pl("a", "a"), Pl("a:?", "a?"), Pl("a:>4", "a>"), Pl("b", "b"), Pl("c", "c"), Pl("d", "d"), Pl("i", "i"), Pl("i.x", "ix"), Pl("q:>3", "q")>>
Fields == <<Fld("a", Prb, <<>>), Fld("b", OptTy(Prb), <<OptA, F("<{}>")>>), Fld("c", Vec(Prb), <<Delim("-")>>), Fld("d", Prb, <<With("brk")>>), Fld("i", Ref(1), <<>>), Fld("q", Str, <<>>)>>
\* a, b, c, d, i, q
Vals == TLCEval(LET x == T("x") bad == <<BEL>> half == <<112, BEL, 113>> IN
  <<<<x, <<>>, <<>>, x, <<x, T("y")>>, x>>,
    <<T(""), <<x>>, <<x, T(""), x>>, T("dd"), <<T(""), x>>, T("qqqq")>>,
    <<bad, <<bad>>, <<bad>>, bad, <<bad, T("")>>, T("")>>,
    <<half, <<half>>, <<x, half, x>>, half, <<half, x>>, x>>>>)
\* a value of Prb in pieces; f are the parameters it shows
PrbPieces(v, f) == IF \E i \in 1..Len(v) : v[i] = BEL THEN <<SelectSeq(SubSeq(v, 1, Len(v) - 1), LAMBDA c : c \notin {BEL, 113}), <<FAULT>>>> ELSE <<v>> \o (IF f = <<>> THEN <<>> ELSE <<T("<"), f, T(">")>>)
PiecesOf(p, v) ==
  CASE p.k = "lit" -> <<p.t>>
    [] p.k = "a" -> PrbPieces(v[1], <<>>)
    [] p.k = "a?" -> PrbPieces(v[1], T("?"))
    [] p.k = "a>" -> PrbPieces(v[1], T(">w4"))
    [] p.k = "b" -> IF v[2] = <<>> THEN <<>> ELSE <<T("<")>> \o PrbPieces(v[2][1], <<>>) \o <<T(">")>>
    [] p.k = "c" -> Flatten([j \in 1..Len(v[3]) |-> (IF j = 1 THEN <<>> ELSE <<T("-")>>) \o PrbPieces(v[3][j], <<>>)])
    [] p.k = "d" -> <<T("[")>> \o PrbPieces(v[4], <<>>) \o <<T("]")>>
    [] p.k = "i" -> <<T("(")>> \o PrbPieces(v[5][1], <<>>) \o <<T("|"), v[5][2], T(")")>>
    [] p.k = "ix" -> PrbPieces(v[5][1], <<>>)
    [] p.k = "q" -> <<Repeat(32, 3 - (IF Len(v[6]) > 3 THEN 3 ELSE Len(v[6]))), v[6]>>
Src(ps) == Flatten(MapSeq(LAMBDA p : p.src, ps))
Pairs == MapSeq(LAMBDA p : <<p>>, Pool) \o Prod2(Pool, Pool)
Trips == LET n == Len(Pool) st == Pick(29, 7) IN [j \in 1..((n * n * n) \div st) |-> LET k == j * st - 1 IN <<Pool[1 + (k % n)], Pool[1 + ((k \div n) % n)], Pool[1 + (k \div (n * n))]>>]
Ent(e, ps, vs, w) == [d |-> e.d, root |-> e.root, alpha |-> e.alpha, n |-> e.n, extra |-> e.extra, vals |-> vs, rx |-> e.rx, ps |-> ps, kind |-> w]
Structs == MapSeq(LAMBDA ps : Ent(Entry(Types \o <<DTypes(Struct("X", <<Fmt(Src(ps))>>, Fields))>>, <<>>, 0), ps, Vals, "struct"), Pairs \o Trips)
\* as the format of a variant; {} is its name
EPairs == LET pool == <<Txt("-"), Pl("", "name"), Pl("a", "a"), Pl("b", "b"), Pl("c", "c"), Pl("i", "i")>> IN Prod2(pool, pool)
EVals == MapSeq(LAMBDA v : [v |-> 1, f |-> v], Vals)
Enums == MapSeq(LAMBDA ps : Ent(Entry(Types \o <<DTypes(Enum("X", <<[DA EXCEPT !.style = <<"snake_case">>]>>, <<Vr("AbC", <<Fmt(Src(ps))>>, Fields), Vr("Other", <<>>, <<>>)>>))>>, <<>>, 0), ps, EVals, "enum"), EPairs)
\* no format: the field's own; a list of what fails, of optional lists; in a tuple
Lone == <<Ent(Entry(Types \o <<DTypes(Struct("X", <<>>, <<Fld("0", Vec(Prb), <<Joined("brk", ", ")>>)>>))>>, <<>>, 0), <<>>, << << <<T("x"), T("yy"), <<BEL>>, T("z")>> >>, << <<<<BEL>>>> >>, << <<>> >>, << <<T(""), T("q")>> >> >>, "lone")>>
LonePieces(v) == Flatten([j \in 1..Len(v[1]) |-> (IF j = 1 THEN <<>> ELSE <<T(", ")>>) \o <<T("[")>> \o PrbPieces(v[1][j], <<>>) \o <<T("]")>>])
ASSUME Load(Structs \o Enums \o Lone) /\ AllValid

FieldsOf(v) == IF Fam[fi].kind = "enum" THEN v.f ELSE v
SayPiece(p, v) == IF p.k = "name" THEN <<T("ab_c")>> ELSE PiecesOf(p, v)
All(v) == SelectSeq(IF Fam[fi].kind = "lone" THEN LonePieces(v) ELSE Flatten(MapSeq(LAMBDA p : SayPiece(p, FieldsOf(v)), Fam[fi].ps)), LAMBDA x : x # <<>>)

VARIABLES cap, out, left, st
vars == <<fi, s, vi, cap, out, left, st>>
WInit == /\ fi \in 1..Len(Fam)
         /\ vi \in 1..Len(Fam[fi].vals)
         /\ s = <<>>
         /\ left = All(Value)
         /\ cap \in 0..Len(TextOf(Value)) + 1
         /\ out = <<>>
         /\ st = "run"
\* a chunk of what is at the head; the writer takes it, a part of it, or nothing of it
Chunk == /\ st = "run" /\ left # <<>> /\ left[1] # <<FAULT>>
         /\ \E j \in 1..Len(left[1]) :
              LET c == SubSeq(left[1], 1, j) room == cap - Len(out)
              IN IF j <= room THEN /\ out' = out \o c
                                   /\ left' = IF j = Len(left[1]) THEN Tail(left) ELSE <<SubSeq(left[1], j + 1, Len(left[1]))>> \o Tail(left)
                                   /\ st' = "run"
                 ELSE /\ out' \in {out, out \o SubSeq(c, 1, room)}
                      /\ left' = left
                      /\ st' = "failed"
         /\ UNCHANGED <<fi, s, vi, cap>>
\* a piece that fails by itself
Fault == /\ st = "run" /\ left # <<>> /\ left[1] = <<FAULT>>
         /\ st' = "failed"
         /\ UNCHANGED <<fi, s, vi, cap, out, left>>
End == /\ st = "run" /\ left = <<>>
       /\ st' = "ok"
       /\ UNCHANGED <<fi, s, vi, cap, out, left>>
WNext == Chunk \/ Fault \/ End
\* ---- properties
Text0 == TextOf(Value)
Prefix == StartsWith(UpToFault(Text0), out)
Reported == /\ st = "ok" => out = Text0
            /\ st = "failed" => (Faulty(Text0) \/ cap < Len(Text0))
\* what the specification of the traces says is what a writer of single characters sees, and the most any does
AsSpecified == LET w == WrittenTo(Text0, cap) IN
  /\ st = "ok" => w.ok /\ out = w.s
  /\ st = "failed" => ~w.ok /\ StartsWith(w.s, out)
  /\ st = "run" => StartsWith(w.s, out)
NoMore == [][st # "run" => UNCHANGED out]_vars
=============================================================================
