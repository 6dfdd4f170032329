-------------------------------- MODULE Sem ---------------------------------
(* What the derived impls compute: the text of a value, the value of a text.  *)
(* Values: scalars are their canonical Display text, Option is <<>> or <<v>>, *)
(* Vec, tuple and struct are sequences, an enum value is [v |-> variant       *)
(* index, f |-> sequence of fields].                                          *)
EXTENDS Decl

IsScalar(k) == k \in IntTypes \cup NzTypes \cup FloatTypes \cup {"str", "char", "bool", "prb", "path", "os"}

IsDebug(sp) == sp.ty \in {"?", "x?", "X?"}
\* ---- Display ---------------------------------------------------------------------
\* in a text: what is written there fails.  What follows is never written
FAULT == -1
\* a user's type that shows all parameters it is given; it fails to write BEL
FmtProbe(v, sp) ==
  LET fl == T(IF IsDebug(sp) THEN "?" ELSE sp.ty) \o (IF sp.sign = 0 THEN <<>> ELSE <<sp.sign>>) \o (IF sp.alt THEN T("#") ELSE <<>>) \o (IF sp.zero THEN T("0") ELSE <<>>)
            \o (IF sp.fill = 32 THEN <<>> ELSE <<sp.fill>>) \o (IF sp.align = 0 THEN <<>> ELSE <<sp.align>>)
            \o (IF sp.width < 0 THEN <<>> ELSE T("w") \o DigitsOf(sp.width)) \o (IF sp.prec < 0 THEN <<>> ELSE T(".") \o DigitsOf(sp.prec))
      c == {i \in 1..Len(v) : v[i] = 7}
  IN IF c # {} THEN SubSeq(v, 1, (CHOOSE i \in c : \A j \in c : i <= j) - 1) \o <<FAULT>>
     ELSE IF fl = <<>> THEN v ELSE v \o T("<") \o fl \o T(">")
FmtScalar(k, v, sp) ==
  CASE k \in IntTypes \cup NzTypes -> FmtInt(k, v, sp)
    [] k \in FloatTypes -> FmtFloat(v, sp)
    [] k = "bool" -> FmtStr(v, sp)
    [] k = "char" -> IF IsDebug(sp) THEN DebugChar(v[1]) ELSE FmtStr(v, sp)
    [] k \in {"str", "path", "os"} -> IF IsDebug(sp) THEN DebugStr(v) ELSE FmtStr(v, sp)
    [] k = "prb" -> FmtProbe(v, sp)

RECURSIVE FmtValue(_, _, _, _), DebugValue(_, _, _, _), WriteWith(_, _, _, _, _), DisplayOf(_, _, _)
\* the text of a value under format parameters, through the trait they name
FmtValue(D, ty, v, sp) ==
  IF IsScalar(ty.k) THEN FmtScalar(ty.k, v, sp)
  ELSE IF ty.k \in Pointers THEN FmtValue(D, ty.e, v, sp)
  ELSE IF IsDebug(sp) THEN DebugValue(D, ty, v, sp)
  ELSE CASE ty.k = "named" -> DisplayOf(D, ty.n, v)
\* a list of parts the way the debug builders lay it out (in lines under `#`)
Indented(s) == Flatten(MapSeq(LAMBDA c : IF c = NL THEN <<NL>> \o Repeat(32, 4) ELSE <<c>>, s))
DebugList(open, parts, close, sep, sp) ==
  IF parts = <<>> THEN open \o close
  ELSE IF sp.alt THEN open \o Flatten(MapSeq(LAMBDA p : <<NL>> \o Repeat(32, 4) \o Indented(p) \o <<44>>, parts)) \o <<NL>> \o close
  ELSE open \o sep \o JoinText(parts, T(", ")) \o sep \o close
DebugFields(D, V, vs, sp) ==
  LET F(i) == DebugValue(D, V.fs[i].ty, vs[i], sp)
  IN IF V.fs = <<>> THEN V.name
     ELSE IF V.shape = "tuple" THEN DebugList(V.name \o T("("), [i \in 1..Len(vs) |-> F(i)], T(")"), <<>>, sp)
     ELSE DebugList(V.name \o T(" {"), [i \in 1..Len(vs) |-> V.fs[i].key \o T(": ") \o F(i)], T("}"), <<32>>, sp)
DebugValue(D, ty, v, sp) ==
  CASE IsScalar(ty.k) -> FmtScalar(ty.k, v, sp)
    [] ty.k \in Pointers -> DebugValue(D, ty.e, v, sp)
    [] ty.k = "opt" -> IF v = <<>> THEN FmtStr(T("None"), NoSpec) ELSE DebugList(T("Some("), <<DebugValue(D, ty.e, v[1], sp)>>, T(")"), <<>>, sp)
    [] ty.k = "vec" -> DebugList(T("["), [i \in 1..Len(v) |-> DebugValue(D, ty.e, v[i], sp)], T("]"), <<>>, sp)
    [] ty.k = "tup" -> IF Len(v) = 1 /\ ~sp.alt THEN T("(") \o DebugValue(D, ty.es[1], v[1], sp) \o T(",)")
                       ELSE DebugList(T("("), [i \in 1..Len(v) |-> DebugValue(D, ty.es[i], v[i], sp)], T(")"), <<>>, sp)
    [] ty.k = "named" -> LET td == D.types[ty.n]
                         IN IF td.kind = "struct" THEN DebugFields(D, td.vs[1], v, sp)
                            ELSE DebugFields(D, td.vs[v.v], v.f, sp)

\* what a custom format writes
WriteWith(D, w, ty, v, sp) ==
  LET d == FmtValue(D, ty, v, NoSpec)
  IN CASE w.n \in {"fmt", "num", "alt", "alt2", "grp", "nest", "old", "cis", "rej", "dota", "rx", "infer"} -> d
       [] w.n \in {"brk", "brkr"} -> T("[") \o d \o T("]")
       [] w.n = "hex" -> FmtValue(D, ty, v, [NoSpec EXCEPT !.ty = "x"])
       [] w.n = "pad" -> IF \E i \in 1..Len(d) : d[i] = FAULT THEN <<FAULT>> ELSE FmtStr(d, sp)
       [] w.n = "dis" -> T("<") \o d \o T(">")
       [] w.n = "join" -> JoinText([i \in 1..Len(v) |-> WriteWith(D, w.item[1], Under(ty).e, v[i], NoSpec)], w.d)

\* the text of one field inside its container, under the parameters given there
FieldText(D, f, v, sp) ==
  LET a == Resolve(f.attrs, FALSE)
      ty == ValueTy(f, a)
      x == IF a.opt THEN v[1] ELSE v
      Self(s) == IF a.with # <<>> THEN WriteWith(D, a.with[1], ty, x, s) ELSE FmtValue(D, ty, x, s)
      Part(p) == IF p.k = "str" THEN p.s
                 ELSE LET ks == Keys(p.arg)
                          s == ParseSpec(p.spec)
                      IN IF ks = <<>> THEN Self(s)
                         ELSE FmtValue(D, TypeAt(D, ty, ks)[1], GetAt(D, ty, x, ks), s)
  IN IF a.opt /\ v = <<>> THEN <<>>
     ELSE IF a.fmt # <<>> THEN Flatten(MapSeq(Part, SplitFormat(a.fmt[1]).parts))
     ELSE Self(sp)

\* the derived Display of a value of type ti
DisplayOf(D, ti, v) ==
  LET td == D.types[ti]
      V == IF td.kind = "struct" THEN td.vs[1] ELSE td.vs[v.v]
      vs == IF td.kind = "struct" THEN v ELSE v.f
      Part(p) ==
        IF p.k = "str" THEN p.s
        ELSE LET ks == Keys(p.arg)
                 sp == ParseSpec(p.spec)
                 fi == FieldIx(V, ks[1])
                 f == V.fs[fi]
             IN IF ks = <<>>
                THEN (IF TraitOf(sp) # "Display" THEN DebugValue(D, [k |-> "named", n |-> ti], v, sp)
                      ELSE FmtStr(StyledName(td, V, FALSE), sp))
                ELSE IF Len(ks) = 1 THEN FieldText(D, f, vs[fi], sp)
                ELSE FmtValue(D, TypeAt(D, f.ty, Tail(ks))[1], GetAt(D, f.ty, vs[fi], Tail(ks)), sp)
  IN Flatten(MapSeq(Part, DisplayParts(td, V).parts))

\* what reaches a writer that takes n characters before it fails: [ok, s]
Faulty(t) == \E i \in 1..Len(t) : t[i] = FAULT
UpToFault(t) == IF Faulty(t) THEN SubSeq(t, 1, (CHOOSE i \in 1..Len(t) : t[i] = FAULT /\ \A j \in 1..i - 1 : t[j] # FAULT) - 1) ELSE t
WrittenTo(t, n) == LET x == UpToFault(t) IN [ok |-> ~Faulty(t) /\ Len(t) <= n, s |-> IF Len(x) <= n THEN x ELSE SubSeq(x, 1, n)]

\* ---- FromStr -----------------------------------------------------------------------
(* A result is [ok |-> TRUE, v] or [ok |-> FALSE, msgs]: the messages the     *)
(* error may carry (which of several failing fields is named is left open).   *)
Ok(v) == [ok |-> TRUE, v |-> v, msgs |-> {}]
Err(ms) == [ok |-> FALSE, v |-> <<>>, msgs |-> ms]
Generic == T("parse failed.")
Fail == Err({Generic})
FieldMsg(path) == T("field `") \o JoinText(path, T(".")) \o T("` parse failed.")

RECURSIVE ParseTy(_, _, _, _), ParseWith(_, _, _, _, _), ParseNamed(_, _, _, _)
ParseScalar(k, s) ==
  LET r == CASE k \in IntTypes \cup NzTypes -> ParseInt(k, s)
             [] k \in FloatTypes -> ParseFloat(s)
             [] k \in {"str", "path", "os"} -> <<s>>
             [] k = "prb" -> IF \E i \in 1..Len(s) : s[i] = 33 THEN <<>> ELSE <<s>>
             [] k = "char" -> IF Len(s) = 1 THEN <<s>> ELSE <<>>
             [] k = "bool" -> IF s \in {T("true"), T("false")} THEN <<s>> ELSE <<>>
  IN IF r = <<>> THEN Fail ELSE Ok(r[1])
\* C is the table of patterns of D (C[type][variant]), computed when the declaration is compiled
ParseTy(D, C, ty, s) == IF IsScalar(ty.k) THEN ParseScalar(ty.k, s) ELSE ParseNamed(D, C, ty.n, s)
\* the parse function of a custom format
ParseWith(D, C, w, ty, s) ==
  CASE w.n \in {"brk", "brkr"} ->
         IF Len(s) >= 2 /\ s[1] = 91 /\ s[Len(s)] = 93 THEN ParseTy(D, C, ty, SubSeq(s, 2, Len(s) - 1)) ELSE Fail
    [] w.n = "hex" ->
         LET Val(c) == IF IsDigit(c) THEN c - 48 ELSE ToLower(c) - 87
             hexok == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i]) \/ ToLower(s[i]) \in 97..102
             RECURSIVE N(_, _)
             N(i, acc) == IF i > Len(s) THEN acc ELSE N(i + 1, MulAdd(acc, 16, Val(s[i])))
             n == N(1, <<48>>)        \* the text may name at most a u64
         IN IF ~hexok \/ ~LeqDigits(n, MaxText("u64")) THEN Fail
            ELSE IF ty.k = "bool" THEN (IF n = <<48>> THEN Ok(T("false")) ELSE IF n = <<49>> THEN Ok(T("true")) ELSE Fail)
            ELSE ParseTy(D, C, ty, n)
    [] w.n = "rej" -> IF s = T("no") THEN Fail ELSE ParseTy(D, C, ty, s)
    [] w.n = "fro" -> IF StartsWith(s, T("<")) /\ EndsWith(s, T(">")) /\ Len(s) >= 2
                      THEN ParseTy(D, C, ty, SubSeq(s, 2, Len(s) - 1)) ELSE Fail
    [] w.n = "join" ->
         LET ps == SplitText(s, w.d)
             rs == MapSeq(LAMBDA p : ParseWith(D, C, w.item[1], ty.e, p), ps)
         IN IF \A i \in 1..Len(rs) : rs[i].ok THEN Ok([i \in 1..Len(rs) |-> rs[i].v]) ELSE Fail
    [] OTHER -> ParseTy(D, C, ty, s)

\* conversion of the text captured for a field (<<>> if its group took no part in the match)
ConvField(D, C, td, V, fi, cap) ==
  LET f == V.fs[fi]
      a == Resolve(f.attrs, TRUE)
      w == WithOf(a, ContainerInfer(td, V))
      ty == ValueTy(f, a)
      Conv(t) == IF w # <<>> THEN ParseWith(D, C, w[1], ty, t) ELSE ParseTy(D, C, ty, t)
  IN IF a.opt THEN (IF cap = <<>> THEN Ok(<<>>)
                    ELSE LET r == Conv(cap[1]) IN IF r.ok THEN Ok(<<r.v>>) ELSE r)
     ELSE Conv(IF cap = <<>> THEN <<>> ELSE cap[1])

\* the value built from a match of variant vi of type ti
Construct(D, C, ti, vi, caps, s) ==
  LET td == D.types[ti]
      V == td.vs[vi]
      ta == Resolve(td.attrs, TRUE)
      va == Resolve(V.attrs, TRUE)
      new == IF td.kind = "struct" THEN ta.new ELSE va.new
      whole == td.kind = "struct" /\ ta.dflt /\ new = <<>>
      labs == C[ti][vi].labels
      \* a default asked for the field itself is the one of its type
      OwnDefault(fi) == Resolve(V.fs[fi].attrs, TRUE).dflt
                        \/ V.fs[fi].key \in RangeOf(ta.dfields \o (IF td.kind = "enum" THEN va.dfields ELSE <<>>))
      Deep(fi) == SelectSeq(labs, LAMBDA l : l[1] = fi /\ l[2] # <<>>)
      Base(fi) == IF \E i \in 1..Len(labs) : labs[i] = <<fi, <<>>>>
                  THEN ConvField(D, C, td, V, fi, CapText(caps, fi, <<>>, s))
                  ELSE IF whole /\ ~OwnDefault(fi) THEN Ok(td.dv[1][fi])
                  ELSE Ok(DefaultOf(D, V.fs[fi].ty))
      \* sub-fields of field fi: <<path, result>>
      Subs(fi) == MapSeq(LAMBDA l : <<l[2], LET c == CapText(caps, fi, l[2], s)
                                            IN ParseTy(D, C, TypeAt(D, V.fs[fi].ty, l[2])[1], IF c = <<>> THEN <<>> ELSE c[1])>>, Deep(fi))
      Patch(fi, v) == LET subs == Subs(fi)
                          RECURSIVE F(_, _)
                          F(i, x) == IF i > Len(subs) THEN x
                                     ELSE F(i + 1, SetAt(D, V.fs[fi].ty, x, subs[i][1], subs[i][2].v))
                      IN F(1, v)
      n == Len(V.fs)
      bases == TLCEval([i \in 1..n |-> Base(i)])
      errs == {FieldMsg(<<V.fs[i].key>>) : i \in {j \in 1..n : ~bases[j].ok}}
              \cup UNION {{FieldMsg(<<V.fs[i].key>> \o Subs(i)[j][1]) : j \in {x \in 1..Len(Subs(i)) : ~Subs(i)[x][2].ok}} : i \in 1..n}
      fvals == TLCEval([i \in 1..n |-> Patch(i, bases[i].v)])
      built == IF new = <<>> THEN fvals
               ELSE LET b == [j \in 1..n |-> fvals[new[1].map[j]]]
                    IN IF new[1].mark = <<>> THEN b ELSE [b EXCEPT ![new[1].mark[1].f] = new[1].mark[1].v]
      rejected == new # <<>> /\ new[1].rej # <<>>
                  /\ ToString(fvals[new[1].rej[1].f]) = ToString(new[1].rej[1].v)
  IN IF errs # {} THEN Err(errs)
     ELSE IF rejected THEN Fail
     ELSE Ok(IF td.kind = "struct" THEN built ELSE [v |-> vi, f |-> built])

TryVariant(D, C, ti, vi, s) ==
  LET m == MatchAll(C[ti][vi].nodes, s)
  IN IF m = <<>> THEN Fail ELSE Construct(D, C, ti, vi, m[1], s)

\* fixed-text variants first (only the first with that text), then the others in declaration order
Usable(D, ti) == {vi \in 1..Len(D.types[ti].vs) : ~Resolve(D.types[ti].vs[vi].attrs, TRUE).ign}
LitText(pat) == pat.text
\* P is the table of one enum: the first fixed text, and the variants to try one after the other
LitArm(P, s) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(P) THEN 0 ELSE IF P[i].use /\ P[i].lit /\ P[i].text = s THEN i ELSE F(i + 1)
                IN F(1)
ParseNamed(D, C, ti, s) ==
  IF D.types[ti].kind = "struct" THEN TryVariant(D, C, ti, 1, s)
  ELSE LET P == C[ti]
           arm == LitArm(P, s)
           RECURSIVE F(_)
           F(i) == IF i > Len(P) THEN Fail
                   ELSE IF ~P[i].use \/ P[i].lit THEN F(i + 1)
                   ELSE LET r == TryVariant(D, C, ti, i, s) IN IF r.ok THEN r ELSE F(i + 1)
           first == IF arm = 0 THEN Fail ELSE TryVariant(D, C, ti, arm, s)
       IN IF first.ok THEN first ELSE F(1)

\* the table of patterns
NodesText(nodes) == Flatten(MapSeq(LAMBDA n : n.s, nodes))
Compile(D) ==
  TLCEval([ti \in 1..Len(D.types) |->
    IF "F" \notin RangeOf(D.types[ti].ds) THEN <<>>
    ELSE TLCEval([vi \in 1..Len(D.types[ti].vs) |->
           IF Resolve(D.types[ti].vs[vi].attrs, TRUE).ign THEN [use |-> FALSE, lit |-> FALSE, text |-> <<>>, nodes |-> <<>>, labels |-> <<>>]
           ELSE LET p == ContainerPat(D, ti, vi)
                IN TLCEval([use |-> TRUE, lit |-> p.lit, text |-> IF p.lit THEN NodesText(p.nodes) ELSE <<>>,
                            nodes |-> p.nodes, labels |-> Labels(Cat(p.nodes))])])])

\* the language of FromStrRegex
RegexAccepts(D, ty, s) == MatchAll(<<TypeNode(D, ty)>>, s) # <<>>
=============================================================================
