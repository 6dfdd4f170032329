------------------------------ MODULE RoundTrip ------------------------------
(* A sufficient condition for parse(display(v)) = v: the texts a declaration  *)
(* writes can be cut in one way only.  "First" sets are sets of code points,  *)
(* with ANY standing for all of them.                                         *)
EXTENDS Accept

Digits == 48..57
\* is every character a value of this type writes known, and which are they
RECURSIVE AlphaKnown(_, _), Alpha(_, _), Unamb(_, _), UnambVariant(_, _, _)
\* types whose texts use a small known alphabet
AlphaKnown(D, ty) == ty.k \in IntTypes \cup NzTypes \cup {"bool"}
                     \/ (ty.k = "named" /\ Unamb(D, ty.n) /\ \A vi \in 1..Len(D.types[ty.n].vs) :
                          \A fi \in 1..Len(D.types[ty.n].vs[vi].fs) : AlphaKnown(D, D.types[ty.n].vs[vi].fs[fi].ty))
LitChars(ps) == UNION {RangeOf(ps[i].s) : i \in {j \in 1..Len(ps) : ps[j].k = "str"}}
Alpha(D, ty) ==
  CASE ty.k \in IntTypes \cup NzTypes -> (IF IntSigned(ty.k) THEN Digits \cup {45} ELSE Digits)
    [] ty.k = "bool" -> RangeOf(T("truefalse"))
    [] ty.k = "named" ->
         UNION {LET td == D.types[ty.n]
                    V == td.vs[vi]
                IN LitChars(DisplayParts(td, V).parts)
                   \cup RangeOf(StyledName(td, V, FALSE))
                   \cup UNION {Alpha(D, V.fs[fi].ty) : fi \in 1..Len(V.fs)}
                   \cup UNION {LET a == Resolve(V.fs[fi].attrs, FALSE) IN IF a.fmt = <<>> THEN {} ELSE LitChars(SplitFormat(a.fmt[1]).parts) : fi \in 1..Len(V.fs)}
                : vi \in 1..Len(D.types[ty.n].vs)}
\* the only attributes looked at here: formats, opt and styles
Plain(a) == a.with = <<>> /\ a.rx = <<>> /\ ~a.infer /\ a.new = <<>> /\ ~a.dflt /\ a.dfields = <<>> /\ ~a.ign
SameBoth(attrs) == Resolve(attrs, FALSE) = Resolve(attrs, TRUE)
\* the tokens of a format: text, or a field with the value type it shows
\* (opt only with a field format that starts with text, <<>> otherwise)
Toks(D, td, V) ==
  LET Fld(f) == LET a == Resolve(f.attrs, FALSE)
                    ty == ValueTy(f, a)
                    ps == IF a.fmt = <<>> THEN <<[k |-> "var", s |-> <<>>, arg |-> <<>>, spec |-> <<>>]>> ELSE SplitFormat(a.fmt[1]).parts
                IN MapSeq(LAMBDA p : IF p.k = "str" THEN [k |-> "str", s |-> p.s, opt |-> FALSE]
                                     ELSE [k |-> "ty", ty |-> ty, opt |-> FALSE], ps)
      Part(p) == IF p.k = "str" THEN <<[k |-> "str", s |-> p.s, opt |-> FALSE]>>
                 ELSE IF p.arg = <<>> THEN <<[k |-> "str", s |-> StyledName(td, V, FALSE), opt |-> FALSE]>>
                 ELSE LET f == V.fs[FieldIx(V, Keys(p.arg)[1])]
                          a == Resolve(f.attrs, FALSE)
                      IN IF a.opt THEN <<[k |-> "opt", t |-> Fld(f), opt |-> TRUE]>> ELSE Fld(f)
  IN Flatten(MapSeq(Part, DisplayParts(td, V).parts))
\* the first character of what follows
NextChar(toks, i) == IF i < Len(toks) /\ toks[i + 1].k = "str" /\ toks[i + 1].s # <<>> THEN <<toks[i + 1].s[1]>> ELSE <<>>
\* a token sequence can be cut in one way, given the character (<<>>: the end) after it
Cuttable(D, toks, after) ==
  \A i \in 1..Len(toks) :
    LET t == toks[i]
        nx == IF i < Len(toks) THEN NextChar(toks, i) ELSE after
        last == i = Len(toks) /\ after = <<>>
    IN CASE t.k = "str" -> TRUE
         [] t.k = "ty" -> /\ (AlphaKnown(D, t.ty) /\ nx # <<>> /\ nx[1] \notin Alpha(D, t.ty)) \/ last
                          /\ t.ty.k \in IntTypes \cup NzTypes \cup {"bool"} \/ (last /\ t.ty.k \in {"str", "char"})
                             \/ (t.ty.k = "named" /\ Unamb(D, t.ty.n))
         [] t.k = "opt" -> FALSE
UnambVariant(D, td, V) ==
  LET ps == DisplayParts(td, V)
  IN /\ ps.ok
     /\ SameBoth(V.attrs) /\ Plain(Resolve(V.attrs, TRUE))
     /\ \A i \in 1..Len(ps.parts) : ps.parts[i].k = "var" => ps.parts[i].spec = <<>> /\ Len(Keys(ps.parts[i].arg)) <= 1
     \* every field exactly once
     /\ \A fi \in 1..Len(V.fs) : Cardinality({i \in 1..Len(ps.parts) : ps.parts[i].k = "var" /\ Keys(ps.parts[i].arg) = <<V.fs[fi].key>>}) = 1
     /\ \A fi \in 1..Len(V.fs) :
          LET a == Resolve(V.fs[fi].attrs, FALSE)
          IN /\ SameBoth(V.fs[fi].attrs) /\ Plain(Resolve(V.fs[fi].attrs, TRUE))
             /\ a.fmt # <<>> => LET fp == SplitFormat(a.fmt[1])
                                IN /\ fp.ok
                                   /\ \A i \in 1..Len(fp.parts) : fp.parts[i].k = "var" => fp.parts[i].arg = <<>> /\ fp.parts[i].spec = <<>>
                                   /\ Cardinality({i \in 1..Len(fp.parts) : fp.parts[i].k = "var"}) = 1
     /\ LET toks == Toks(D, td, V)
            n == Len(toks)
            \* an opt field at the end, after texts that cannot be confused with it: its format starts with text and
            \* ends with its value
            lastopt == n > 0 /\ toks[n].k = "opt"
            front == IF lastopt THEN SubSeq(toks, 1, n - 1) ELSE toks
        IN IF ~lastopt THEN Cuttable(D, toks, <<>>)
           ELSE /\ toks[n].t[1].k = "str" /\ toks[n].t[1].s # <<>>
                /\ Cuttable(D, front \o <<toks[n].t[1]>>, <<0>>)
                /\ Cuttable(D, toks[n].t, <<>>)
                /\ \A i \in 1..Len(front) : front[i].k = "ty" => front[i].ty.k # "named"
                /\ n > 1 => front[n - 1].k = "str" \/ (front[n - 1].ty.k \in IntTypes \cup {"bool"} /\ toks[n].t[1].s[1] \notin Alpha(D, front[n - 1].ty))
\* the text a variant's texts start with
LeadText(td, V) == LET toks == Toks([types |-> <<td>>], td, V) IN
  LET RECURSIVE F(_)
      F(i) == IF i > Len(toks) \/ toks[i].k # "str" THEN <<>> ELSE toks[i].s \o F(i + 1)
  IN F(1)
Unamb(D, ti) ==
  LET td == D.types[ti]
  IN /\ {"D", "F"} \subseteq RangeOf(td.ds)
     /\ SameBoth(td.attrs) /\ Plain(Resolve(td.attrs, TRUE))
     /\ \A vi \in 1..Len(td.vs) : UnambVariant(D, td, td.vs[vi])
     /\ td.kind = "enum" => \A i, j \in 1..Len(td.vs) : i # j =>
          LET a == LeadText(td, td.vs[i])
              b == LeadText(td, td.vs[j])
              whole(V) == V.fs = <<>>
          IN IF whole(td.vs[i]) /\ whole(td.vs[j]) THEN a # b
             ELSE /\ a # <<>> /\ b # <<>> /\ ~StartsWith(a, b) /\ ~StartsWith(b, a)
RoundTrips(D, ty) == ty.k = "named" /\ Unamb(D, ty.n)
=============================================================================
