----------------------------- MODULE Reporters -----------------------------
(* C42: periodic reports and event listening follow their runtime flags (bd-resource-utilization,
   bd-session-replay's periodic screens, bd-events).  One unit of time is 50 ms; a period of 0 is as short as
   the code likes (reports while it is in force are not counted). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Rates, Waits, Kinds

Any == -1
S0(cfg) == [kind |-> cfg.kind, on |-> cfg.on, per |-> cfg.per, son |-> cfg.on, sper |-> cfg.per, dirty |-> FALSE, rdirty |-> FALSE,
            t |-> 0, due |-> -1, alive |-> TRUE, any |-> FALSE, last |-> "none"]
Ticks(s) == s.kind \in {"resource", "screens"}

\* ---- ticking reporters
Pending(s) == (IF s.son /\ s.due <= s.t /\ s.sper > 0 THEN {"tick"} ELSE {}) \cup (IF s.rdirty THEN {"rate"} ELSE {}) \cup (IF s.dirty THEN {"flag"} ELSE {})
Take(s, e) ==
  CASE e = "tick" -> [s EXCEPT !.due = (IF s.due < s.t THEN s.t ELSE s.due) + s.sper]
    [] e = "rate" -> [s EXCEPT !.rdirty = FALSE, !.sper = s.per, !.due = s.t + s.per]
    [] e = "flag" -> [s EXCEPT !.dirty = FALSE, !.son = s.on]
RECURSIVE Settle(_, _)
Settle(s, n) == IF Pending(s) = {} THEN {<<s, n>>} ELSE UNION {Settle(Take(s, e), n + (IF e = "tick" THEN 1 ELSE 0)) : e \in Pending(s)}
\* the first report is due at once
Begin(s) == IF s.due = -1 THEN [s EXCEPT !.due = s.t] ELSE s
RECURSIVE Run(_, _)
\* set of <<state, reports>> after k units
Run(S, k) ==
  LET S1 == UNION {Settle(x[1], x[2]) : x \in S} IN
  IF k = 0 THEN S1 ELSE Run({<<[x[1] EXCEPT !.t = @ + 1], x[2]>> : x \in S1}, k - 1)

\* ---- the listener: what is called when it notices the flag
Notice(s) ==
  IF ~s.dirty THEN {<<s, "">>}
  ELSE LET t == [s EXCEPT !.dirty = FALSE, !.son = s.on, !.any = TRUE] IN
       IF s.on THEN {<<[t EXCEPT !.last = "start"], "start">>}
       ELSE IF s.any THEN {<<[t EXCEPT !.last = "stop"], "stop">>}
       ELSE {<<t, "">>}

Outcomes(s, op) ==
  CASE op.op = "set" -> {[s |-> IF op.on = s.on THEN s ELSE [s EXCEPT !.on = op.on, !.dirty = TRUE], res |-> [n |-> 0, call |-> ""]]}
    [] op.op = "rate" -> {[s |-> IF op.per = s.per THEN s ELSE [s EXCEPT !.per = op.per, !.rdirty = TRUE], res |-> [n |-> 0, call |-> ""]]}
    [] op.op = "wait" ->
         IF ~s.alive THEN {[s |-> [s EXCEPT !.t = @ + op.k], res |-> [n |-> 0, call |-> ""]]}
         ELSE IF Ticks(s) THEN
           {[s |-> x[1], res |-> [n |-> IF s.sper = 0 \/ s.per = 0 THEN Any ELSE x[2], call |-> ""]] : x \in Run({<<Begin(s), 0>>}, op.k)}
         ELSE {[s |-> [x[1] EXCEPT !.t = @ + op.k], res |-> [n |-> 0, call |-> x[2]]] : x \in Notice(s)}
    \* cancelled and started again, as the logger does after every log
    [] op.op = "restart" -> {[s |-> s, res |-> [n |-> 0, call |-> ""]]}
    [] op.op = "stop" -> {[s |-> [s EXCEPT !.alive = FALSE], res |-> [n |-> 0, call |-> ""]]}

Ops(s) ==
  {[op |-> "set", on |-> b] : b \in BOOLEAN} \cup {[op |-> "wait", k |-> k] : k \in Waits}
    \cup (IF Ticks(s) THEN {[op |-> "rate", per |-> p] : p \in Rates} ELSE {})
    \cup (IF s.alive /\ s.due # -1 THEN {[op |-> "restart"], [op |-> "stop"]} ELSE {})

Inv(s) == /\ s.last = "start" => s.any
          /\ (s.kind = "listener" /\ ~s.dirty /\ s.any /\ s.on) => s.last = "start"
          /\ (s.kind = "listener" /\ ~s.dirty /\ ~s.on) => s.last # "start"
StepOk(s, op, o) ==
  /\ (~s.alive) => o.res.n = 0 /\ o.res.call = ""
  \* nothing is reported while it is off, and never more often than the period
  /\ (op.op = "wait" /\ Ticks(s) /\ ~s.son /\ ~s.on) => o.res.n \in {0, Any}
  /\ (op.op = "wait" /\ Ticks(s) /\ o.res.n > 0) => (o.res.n - 1) * (IF s.per < s.sper THEN s.per ELSE s.sper) <= op.k
  \* and not less often either
  /\ (op.op = "wait" /\ Ticks(s) /\ s.alive /\ s.on /\ s.son /\ s.per > 0 /\ s.per = s.sper /\ ~s.rdirty /\ o.res.n # Any) => (o.res.n + 1) * s.per > op.k
=============================================================================
