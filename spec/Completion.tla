----------------------------- MODULE Completion -----------------------------
(* C11: one-shot completion signals (bd-completion). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, N, Values, Delays

Lost == -1
S0(cfg) == [n |-> 0, tx |-> [i \in 1 .. N |-> "none"], val |-> [i \in 1 .. N |-> 0], rx |-> [i \in 1 .. N |-> "none"]]

\* Receivers that wait finish as soon as their sender sent or went away.
Ready(s) == {i \in 1 .. N : s.rx[i] \in {"wait", "block"} /\ s.tx[i] \in {"sent", "gone"}}
Settle(s) ==
  [s |-> [s EXCEPT !.rx = [i \in 1 .. N |-> IF i \in Ready(s) THEN "done" ELSE @[i]]],
   res |-> [got |-> {<<i, IF s.tx[i] = "sent" THEN s.val[i] ELSE Lost>> : i \in Ready(s)}]]

Outcomes(s, op) ==
  LET i == op.id IN
  CASE op.op = "new" -> {Settle([s EXCEPT !.n = @ + 1, !.tx[i] = "live", !.rx[i] = "idle"])}
    [] op.op = "send" -> {Settle([s EXCEPT !.tx[i] = "sent", !.val[i] = op.v])}
    [] op.op = "drops" -> {Settle([s EXCEPT !.tx[i] = "gone"])}
    [] op.op = "dropr" -> {Settle([s EXCEPT !.rx[i] = "gone"])}
    [] op.op = "abort" -> {Settle([s EXCEPT !.rx[i] = "gone"])}   \* the waiting future is dropped
    [] op.op \in {"recv", "block"} -> {Settle([s EXCEPT !.rx[i] = IF op.op = "recv" THEN "wait" ELSE "block"])}

Ops(s) ==
  {[op |-> "new", id |-> s.n + 1] : x \in IF s.n < N THEN {1} ELSE {}}
  \cup {[op |-> "send", id |-> i, v |-> v] : i \in {j \in 1 .. N : s.tx[j] = "live"}, v \in Values}
  \cup {[op |-> "drops", id |-> i] : i \in {j \in 1 .. N : s.tx[j] = "live"}}
  \cup {[op |-> "dropr", id |-> i] : i \in {j \in 1 .. N : s.rx[j] = "idle"}}
  \cup {[op |-> "abort", id |-> i] : i \in {j \in 1 .. N : s.rx[j] = "wait"}}
  \cup {[op |-> "recv", id |-> i] : i \in {j \in 1 .. N : s.rx[j] = "idle"}}
  \cup {[op |-> "block", id |-> i, d |-> d] : i \in {j \in 1 .. N : s.rx[j] = "idle"}, d \in Delays}

Inv(s) == \A i \in 1 .. N : s.rx[i] \in {"wait", "block"} => s.tx[i] = "live"
StepOk(s, op, o) ==
  \A g \in o.res.got : IF g[2] = Lost THEN o.s.tx[g[1]] = "gone" ELSE o.s.tx[g[1]] = "sent" /\ o.s.val[g[1]] = g[2]
=============================================================================
