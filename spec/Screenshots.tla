---------------------------- MODULE Screenshots ----------------------------
(* C41: screenshot requests (bd-session-replay/src/lib.rs).  A request waits in a queue of one; the
   recorder passes it on unless screenshots are disabled or the previous one has not arrived yet. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Burst, Eager

Zero == [success |-> 0, full |-> 0, disabled |-> 0, notready |-> 0, received |-> 0, calls |-> 0]
S0(cfg) == [flag |-> cfg.on, seen |-> cfg.on, dirty |-> FALSE, req |-> FALSE, next |-> FALSE, ready |-> TRUE, alive |-> TRUE, n |-> Zero, refused |-> ""]
\* (refused: how a request was refused while a screenshot is awaited; only there to tell the histories apart)

Pending(s) == (IF s.req THEN {"req"} ELSE {}) \cup (IF s.next THEN {"next"} ELSE {}) \cup (IF s.dirty THEN {"flag"} ELSE {})
Take(s, e) ==
  CASE e = "next" -> [s EXCEPT !.next = FALSE, !.ready = TRUE, !.refused = ""]
    [] e = "flag" -> [s EXCEPT !.dirty = FALSE, !.seen = s.flag]
    [] e = "req" /\ ~s.seen -> [s EXCEPT !.req = FALSE, !.n.disabled = @ + 1, !.refused = IF s.ready THEN "" ELSE "disabled"]
    [] e = "req" /\ s.seen /\ ~s.ready -> [s EXCEPT !.req = FALSE, !.n.notready = @ + 1, !.refused = "notready"]
    [] e = "req" /\ s.seen /\ s.ready -> [s EXCEPT !.req = FALSE, !.ready = FALSE, !.n.success = @ + 1, !.n.calls = @ + 1]
RECURSIVE Settle(_)
Settle(s) == IF Pending(s) = {} THEN {s} ELSE UNION {Settle(Take(s, e)) : e \in Pending(s)}

\* A log intercepted by the recorder: only the log of a screenshot says that it has arrived.
IsShot(op) == op.kind = "shot"
Outcomes(s, op) ==
  LET R(t) == [s |-> t, res |-> t.n] IN
  CASE op.op = "request" -> {R(IF s.req \/ ~s.alive THEN [s EXCEPT !.n.full = @ + 1] ELSE [s EXCEPT !.req = TRUE])}
    [] op.op = "log" -> {R(IF ~IsShot(op) THEN s ELSE [s EXCEPT !.next = s.alive, !.n.received = @ + 1])}
    [] op.op = "set" -> {R(IF op.on = s.flag THEN s ELSE [s EXCEPT !.flag = op.on, !.dirty = TRUE])}
    [] op.op = "run" -> IF s.alive THEN {R(t) : t \in Settle(s)} ELSE {R(s)}
    \* the recorder's task is cancelled and started again, as the logger does after every log
    [] op.op = "restart" -> {R(s)}
    [] op.op = "stop" -> {R(t) : t \in {[u EXCEPT !.alive = FALSE, !.req = FALSE, !.next = FALSE] : u \in {s} \cup Settle(s)}}

Ops(s) ==
  \* (Eager: everything is taken up before the next operation, to reach deeper histories)
  IF Eager /\ s.alive /\ Pending(s) # {} THEN {[op |-> "run"]} ELSE
  {[op |-> "request"], [op |-> "run"], [op |-> "restart"]} \cup {[op |-> "log", kind |-> k] : k \in {"shot", "screen", "type", "bytes"}}
    \cup {[op |-> "set", on |-> b] : b \in BOOLEAN} \cup (IF s.alive THEN {[op |-> "stop"]} ELSE {})

Inv(s) ==
  /\ s.n.success = s.n.calls
  \* one screenshot at a time: at most one more than arrived
  /\ s.n.calls <= s.n.received + 1
  /\ (s.ready = FALSE) => s.n.calls > 0
StepOk(s, op, o) ==
  \* every request is accounted for exactly once
  LET T(x) == x.n.success + x.n.full + x.n.disabled + x.n.notready + (IF x.req THEN 1 ELSE 0) IN
  /\ op.op # "stop" => T(o.s) = T(s) + (IF op.op = "request" THEN 1 ELSE 0)
  /\ o.s.n.calls <= s.n.calls + 1
  /\ (o.s.n.calls > s.n.calls) => op.op \in {"run", "stop"} /\ (s.seen \/ s.flag) /\ (s.ready \/ s.next)
  /\ (~s.flag /\ ~s.seen) => o.s.n.calls = s.n.calls
=============================================================================
