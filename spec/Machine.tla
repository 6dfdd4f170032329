------------------------------- MODULE Machine -------------------------------
(* C13, C18.  Parsing as a machine: threads that run calls of from_str, and   *)
(* one cell per derived struct or variant, shared by all instantiations of a  *)
(* generic type, which holds the compiled pattern and is filled on first use. *)
(* A program is a declaration set and a script: for every thread the calls    *)
(* [root, text] it makes.  Whatever the interleaving, every call ends, with   *)
(* the value the specification of the single call (Sem) gives.                *)
(*                                                                            *)
(* A call is a list of steps:                                                 *)
(*   "start"   the call is made                                               *)
(*   "get"     the cell is looked at: empty, it is reserved and filled in the *)
(*             next steps; full, these are skipped; reserved by another       *)
(*             thread, the call waits                                         *)
(*   "rx"      a custom format or an inner type is asked for its pattern      *)
(*   "put"     the cell is filled; after it debug builds ask for the patterns *)
(*             again, to compare                                              *)
(*   "field"   a text is converted to the type of a field                     *)
(* User code runs at "start", "rx" and "field"; the harness stops the real    *)
(* threads there and lets them go on in the order of a schedule.              *)
EXTENDS RoundTrip, Json, IOUtils

ASSUME /\ TLCSet(1, JsonDeserialize(IOEnv.PROGS))
       /\ TLCSet(2, TLCEval([i \in 1..Len(TLCGet(1)) |-> TLCEval(Errs(TLCGet(1)[i]))]))
       /\ TLCSet(3, TLCEval([i \in 1..Len(TLCGet(1)) |-> IF TLCGet(2)[i] # {} THEN <<>> ELSE Compile(TLCGet(1)[i])]))
Progs == TLCGet(1)
Pats(i) == TLCGet(3)[i]
\* the cell of a struct or variant
Key(P, ti, vi) == <<P.types[ti].site, vi>>

\* ---- the steps of a call -----------------------------------------------------------
St(k) == [k |-> k, key |-> <<>>, ti |-> 0, vi |-> 0, n |-> 0]
RECURSIVE StepsTy(_, _, _, _)
Withs(P, ti, vi) == LET td == P.types[ti] IN {fi \in 1..Len(td.vs[vi].fs) : WithOf(Resolve(td.vs[vi].fs[fi].attrs, TRUE), ContainerInfer(td, td.vs[vi])) # <<>>}
\* the conversion of one capture: steps and whether it succeeds
Conversion(P, C, ti, vi, l, caps, s) ==
  LET td == P.types[ti]
      V == td.vs[vi]
      f == V.fs[l[1]]
      a == Resolve(f.attrs, TRUE)
      c == CapText(caps, l[1], l[2], s)
      t == IF c = <<>> THEN <<>> ELSE c[1]
      w == WithOf(a, ContainerInfer(td, V))
      ty == IF l[2] # <<>> THEN TypeAt(P, f.ty, l[2])[1] ELSE ValueTy(f, a)
  IN IF l[2] = <<>> /\ a.opt /\ c = <<>> THEN [st |-> <<>>, ok |-> TRUE]
     ELSE IF l[2] = <<>> THEN [st |-> IF w # <<>> /\ w[1].n # "infer" THEN <<St("field")>> ELSE StepsTy(P, C, ty, t), ok |-> ConvField(P, C, td, V, l[1], c).ok]
     ELSE [st |-> StepsTy(P, C, ty, t), ok |-> ParseTy(P, C, ty, t).ok]
StepsVariant(P, C, ti, vi, s) ==
  IF C[ti][vi].lit THEN <<>>
  ELSE LET n == Cardinality(Withs(P, ti, vi))
           cell(k) == [k |-> k, key |-> Key(P, ti, vi), ti |-> ti, vi |-> vi, n |-> n]
           m == MatchAll(C[ti][vi].nodes, s)
           labs == C[ti][vi].labels
           RECURSIVE F(_)
           F(i) == IF i > Len(labs) THEN <<>>
                   ELSE LET c == Conversion(P, C, ti, vi, labs[i], m[1], s) IN c.st \o (IF c.ok THEN F(i + 1) ELSE <<>>)
       IN <<cell("get")>> \o [i \in 1..n |-> St("rx")] \o <<cell("put")>> \o [i \in 1..n |-> St("rx")] \o (IF m = <<>> THEN <<>> ELSE F(1))
StepsTy(P, C, ty, s) ==
  IF IsScalar(ty.k) THEN <<St("field")>>
  ELSE LET ti == ty.n
           n == Len(P.types[ti].vs)
           arm == IF P.types[ti].kind = "struct" THEN 0 ELSE LitArm(C[ti], s)
           RECURSIVE F(_)
           F(i) == IF i > n THEN <<>>
                   ELSE IF ~C[ti][i].use \/ C[ti][i].lit THEN F(i + 1)
                   ELSE StepsVariant(P, C, ti, i, s) \o (IF TryVariant(P, C, ti, i, s).ok THEN <<>> ELSE F(i + 1))
       IN IF P.types[ti].kind = "struct" THEN StepsVariant(P, C, ti, 1, s)
          ELSE IF arm # 0 /\ TryVariant(P, C, ti, IF arm = 0 THEN 1 ELSE arm, s).ok THEN <<>>
          ELSE F(1)

\* ---- the programs, worked out ---------------------------------------------------------
Calls(i) == [t \in 1..Len(Progs[i].script) |->
               TLCEval(MapSeq(LAMBDA c : TLCEval([ty |-> Progs[i].roots[c.r], s |-> c.s,
                                                  st |-> <<St("start")>> \o StepsTy(Progs[i], Pats(i), Progs[i].roots[c.r], c.s),
                                                  res |-> ParseTy(Progs[i], Pats(i), Progs[i].roots[c.r], c.s)]), Progs[i].script[t]))]
KeysOf(i) == UNION {UNION {{st.key : st \in {x \in RangeOf(TLCGet(4)[i][t][c].st) : x.k = "get"}} : c \in 1..Len(TLCGet(4)[i][t])} : t \in 1..Len(Progs[i].script)}
ASSUME /\ \A i \in 1..Len(Progs) : IF TLCGet(2)[i] = {} THEN TRUE ELSE PrintT(<<"rejected", i, TLCGet(2)[i]>>) /\ FALSE
       /\ TLCSet(4, TLCEval([i \in 1..Len(Progs) |-> TLCEval(Calls(i))]))
       /\ TLCSet(5, TLCEval([i \in 1..Len(Progs) |-> KeysOf(i)]))
       /\ PrintT(<<"INFO", "programs", Len(Progs)>>)
       /\ PrintT(<<"INFO", "calls that reach a cell", Cardinality({<<i, t, c>> \in {<<a, b, e>> \in (1..Len(Progs)) \X (1..4) \X (1..8) : b <= Len(TLCGet(4)[a]) /\ e <= Len(TLCGet(4)[a][b])} : Len(TLCGet(4)[i][t][c].st) > 1})>>)

VARIABLES pi, at, cell, res, sched
vars == <<pi, at, cell, res, sched>>
(* at[t] = <<call, step>>; cell[key] = <<>> empty, <<"by", t>> reserved or    *)
(* <<"has", ti, pattern>>; res[t] = the results so far; sched = who was let   *)
(* go on by the scheduler (only in the generation of schedules)               *)
Ordered == "SCHED" \in DOMAIN IOEnv /\ IOEnv.SCHED = "1"
\* a fault of the machine, to see that the properties notice: the cell stays reserved until the end of the call
Hold == "HOLD" \in DOMAIN IOEnv /\ IOEnv.HOLD = "1"
P == Progs[pi]
Threads == 1..Len(P.script)
CallOf(t) == TLCGet(4)[pi][t][at[t][1]]
Over2(t) == at[t][1] > Len(TLCGet(4)[pi][t])
StepOf(t) == CallOf(t).st[at[t][2]]
Init == /\ pi \in 1..Len(Progs)
        /\ at = [t \in 1..Len(Progs[pi].script) |-> <<1, 1>>]
        /\ cell = [k \in TLCGet(5)[pi] |-> <<>>]
        /\ res = [t \in 1..Len(Progs[pi].script) |-> <<>>]
        /\ sched = <<>>
\* the patterns as the cells have them
Current == [ti \in 1..Len(P.types) |-> [vi \in 1..Len(Pats(pi)[ti]) |->
              LET k == Key(P, ti, vi) IN IF k \in DOMAIN cell /\ cell[k] # <<>> /\ cell[k][1] = "has" THEN cell[k][3] ELSE Pats(pi)[ti][vi]]]
Result(t) == LET c == CallOf(t)
                 r == TLCEval(ParseTy(P, Current, c.ty, c.s))
             IN IF (r.ok = c.res.ok) /\ (IF r.ok THEN r.v = c.res.v ELSE r.msgs = c.res.msgs) THEN "right" ELSE "wrong"
\* thread t goes to step n of its call, or ends it
Goto(t, n) == IF n <= Len(CallOf(t).st) THEN at' = [at EXCEPT ![t] = <<@[1], n>>] /\ res' = res
              ELSE at' = [at EXCEPT ![t] = <<@[1] + 1, 1>>] /\ res' = [res EXCEPT ![t] = Append(@, Result(t))]
Stop(t) == StepOf(t).k \in {"start", "rx", "field"}
Blocked(t) == StepOf(t).k = "get" /\ cell[StepOf(t).key] # <<>> /\ cell[StepOf(t).key][1] = "by"
Internal(t) == /\ ~Over2(t)
               /\ UNCHANGED <<pi, sched>>
               /\ \/ /\ StepOf(t).k = "get"
                     /\ LET c == cell[StepOf(t).key]
                        IN \/ /\ c = <<>>
                              /\ cell' = [cell EXCEPT ![StepOf(t).key] = <<"by", t>>]
                              /\ Goto(t, at[t][2] + 1)
                           \/ /\ c # <<>> /\ c[1] = "has"
                              /\ cell' = IF Hold THEN [cell EXCEPT ![StepOf(t).key] = <<"by", t>>] ELSE cell
                              /\ Goto(t, at[t][2] + StepOf(t).n + (IF Hold THEN 1 ELSE 2))
                  \/ /\ StepOf(t).k = "put"
                     /\ cell' = IF Hold /\ at[t][2] < Len(CallOf(t).st) THEN cell ELSE [cell EXCEPT ![StepOf(t).key] = <<"has", StepOf(t).ti, Pats(pi)[StepOf(t).ti][StepOf(t).vi]>>]
                     /\ Goto(t, at[t][2] + 1)
Release(t) == /\ ~Over2(t) /\ Stop(t)
              /\ UNCHANGED <<pi, cell>>
              /\ Ordered => \A u \in Threads : IF Over2(u) THEN TRUE ELSE StepOf(u).k \in {"start", "rx", "field"} \cup (IF Blocked(u) THEN {"get"} ELSE {})
              /\ sched' = IF Ordered THEN Append(sched, t) ELSE sched
              /\ Goto(t, at[t][2] + 1)
Done == \A t \in Threads : Over2(t)
Step(t) == Internal(t) \/ Release(t)
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in 1..3 : WF_vars(t \in Threads /\ Step(t))

\* ---- properties ------------------------------------------------------------------------
\* the result of a call depends on its type and text only
Pure == \A t \in Threads : \A i \in 1..Len(res[t]) : res[t][i] = "right"
\* every instantiation would have filled a cell with what is in it
Agreed == \A t \in Threads : ~Over2(t) => \A i \in 1..Len(CallOf(t).st) :
            LET st == CallOf(t).st[i]
            IN (st.k = "get" /\ cell[st.key] # <<>> /\ cell[st.key][1] = "has") => cell[st.key][3] = Pats(pi)[st.ti][st.vi]
\* nobody waits for a thread that is not filling the cell
Waits == \A t \in Threads : (~Over2(t) /\ Blocked(t)) => LET u == cell[StepOf(t).key][2] IN u # t /\ ~Over2(u) /\ \E n \in 1..at[u][2] : CallOf(u).st[n].k = "get" /\ CallOf(u).st[n].key = StepOf(t).key /\ \A x \in n + 1..at[u][2] - 1 : CallOf(u).st[x].k = "rx"
\* a cell is filled once
Once == [][\A k \in DOMAIN cell : (cell[k] # <<>> /\ cell[k][1] = "has") => cell'[k] = cell[k]]_vars
Ends == <>Done
Written == (Ordered /\ Done) => PrintT(<<"SCHEDULE", pi, sched>>)
=============================================================================
