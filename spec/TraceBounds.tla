----------------------------- MODULE TraceBounds -----------------------------
(* Validation of recorded facts "this instantiation implements that trait".   *)
EXTENDS Bounds, Json, IOUtils

ASSUME /\ TLCSet(1, JsonDeserialize(IOEnv.TRACE))
       /\ TLCSet(2, TLCEval([i \in 1..Len(TLCGet(1)) |-> AllCompile(TLCGet(1)[i])]))
Cases == TLCGet(1)
Fine(i) == TLCGet(2)[i]

VARIABLES tr, pos
Agree == [ok |-> TRUE, kind |-> "", want |-> <<>>]
No(kind, want) == [ok |-> FALSE, kind |-> kind, want |-> want]
Verdict(i, e) ==
  IF e.op = "derive" THEN (IF e.ok = Fine(i) THEN Agree
                           ELSE No(IF e.ok THEN "accepted" ELSE "rejected", [ti \in 1..Len(Cases[i].types) |-> <<Where(Cases[i], ti, "Display"), Where(Cases[i], ti, "FromStr")>>]))
  ELSE IF ~Fine(i) THEN Agree
  ELSE LET want == Applies(Cases[i], e.t, e.args, e.tr)
       IN IF e.ok = want THEN Agree ELSE No("impl", [wanted |-> want, where |-> Where(Cases[i], e.t, IF e.tr = "Display" THEN "Display" ELSE "FromStr")])
Init == tr \in 1..Len(Cases) /\ pos = 0
Next == /\ pos < Len(Cases[tr].ev)
        /\ pos' = pos + 1
        /\ tr' = tr
        /\ LET v == Verdict(tr, Cases[tr].ev[pos + 1])
           IN v.ok \/ PrintT(<<"MISMATCH", tr, pos + 1, v.kind, ToString(v.want)>>)
=============================================================================
