-------------------------------- MODULE Trace --------------------------------
(* Validation of traces recorded from the real code: one trace per            *)
(* declaration set, one event per public call.  A step is taken for every     *)
(* recorded event; an event the specification does not allow is printed       *)
(* together with what it disagrees about.                                     *)
EXTENDS RoundTrip, Json, IOUtils

\* The recorded traces, and what the derive makes of each declaration: computed
\* once, before the exploration (TLC would evaluate plain definitions again at
\* every use)
ASSUME /\ TLCSet(1, JsonDeserialize(IOEnv.TRACE))
       /\ TLCSet(2, TLCEval([i \in 1..Len(TLCGet(1)) |-> TLCEval(Errs(TLCGet(1)[i]))]))
       /\ TLCSet(3, TLCEval([i \in 1..Len(TLCGet(1)) |-> IF TLCGet(2)[i] # {} THEN <<>> ELSE Compile(TLCGet(1)[i])]))
       /\ TLCSet(4, TLCEval([i \in 1..Len(TLCGet(1)) |-> IF TLCGet(2)[i] # {} THEN <<>>
                                                         ELSE [r \in 1..Len(TLCGet(1)[i].roots) |-> RoundTrips(TLCGet(1)[i], TLCGet(1)[i].roots[r])]]))
       /\ PrintT(<<"ROUNDTRIP", Cardinality({i \in 1..Len(TLCGet(4)) : \E r \in 1..Len(TLCGet(4)[i]) : TLCGet(4)[i][r]})>>)
       /\ PrintT(<<"INVALID", {i \in 1..Len(TLCGet(2)) : TLCGet(2)[i] # {}}>>)
Cases == TLCGet(1)
Problems == TLCGet(2)
Pats == TLCGet(3)
RtOf == TLCGet(4)

VARIABLES tr, pos

RootTy(c, e) == c.roots[e.r]
Agree == [ok |-> TRUE, kind |-> "", want |-> <<>>]
No(kind, want) == [ok |-> FALSE, kind |-> kind, want |-> want]
ParseVerdict(i, ty, s, ok, v, msg) ==
  LET r == ParseTy(Cases[i], Pats[i], ty, s)
  IN IF ok # r.ok THEN No("result", r)
     ELSE IF ok THEN (IF ToString(v) = ToString(r.v) THEN Agree ELSE No("value", r))
     ELSE IF msg \in r.msgs THEN Agree ELSE No("message", r)
\* parsing by a pattern is left to the std feature
NeedsPattern(i) == \E ti \in 1..Len(Cases[i].types) : "F" \in RangeOf(Cases[i].types[ti].ds) /\ \E vi \in Usable(Cases[i], ti) : ~Pats[i][ti][vi].lit
\* what the specification says about an event
Verdict(i, e) ==
  LET c == Cases[i]
      ty == RootTy(c, e)
  IN IF e.op = "derive"
     THEN (IF e.ok = (Problems[i] = {}) \/ (~e.ok /\ ~c.std /\ NeedsPattern(i)) THEN Agree ELSE No(IF e.ok THEN "accepted" ELSE "rejected", Problems[i]))
     ELSE IF Problems[i] # {} THEN Agree      \* reported by the derive event
     ELSE IF e.panic THEN No("panic", <<>>)
     ELSE CASE e.op \in {"display", "padded"} ->
                 LET t == FmtValue(c, ty, e.v, NoSpec) IN IF e.out = t THEN Agree ELSE No("text", t)
            \* a writer that takes a limited number of characters, and parts that fail by themselves: what came before is written,
            \* nothing is tried after, and it is reported (what a part fails on may have been held back)
            [] e.op = "short" ->
                 LET t == FmtValue(c, ty, e.v, NoSpec)
                 IN IF \A oi \in 1..Len(e.outs) :
                         LET o == e.outs[oi] w == WrittenTo(t, o.n)
                         IN o.ok = w.ok /\ o.after = 0 /\ (IF Faulty(t) THEN StartsWith(w.s, o.s) ELSE o.s = w.s)
                    THEN Agree ELSE No("short", t)
            [] e.op = "parse" -> ParseVerdict(i, ty, e.s, e.ok, e.v, e.msg)
            [] e.op = "rt" ->
                 \* display v, parse the text
                 LET t == FmtValue(c, ty, e.v, NoSpec)
                     p == ParseVerdict(i, ty, e.s, e.ok, e.w, e.msg)
                 IN IF e.s # t THEN No("text", t)
                    ELSE IF RtOf[i][e.r] /\ ~(e.ok /\ ToString(e.w) = ToString(e.v)) THEN No("roundtrip", e.v)
                    ELSE p
            [] e.op = "rx" ->
                 LET m == RegexAccepts(c, ty, e.s) IN IF e.m = m THEN Agree ELSE No("match", m)

Init == tr \in 1..Len(Cases) /\ pos = 0
Next == /\ pos < Len(Cases[tr].ev)
        /\ pos' = pos + 1
        /\ tr' = tr
        /\ LET v == Verdict(tr, Cases[tr].ev[pos + 1])
           IN v.ok \/ PrintT(<<"MISMATCH", tr, pos + 1, v.kind, ToString(v.want)>>)
=============================================================================
