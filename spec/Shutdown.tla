------------------------------ MODULE Shutdown ------------------------------
(* C07: the shutdown trigger, the handles and the waiters of bd-shutdown. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, MaxW, MaxH, Slow

\* trig: live, running (shutting down), done, gone (dropped), cut (its shutdown was abandoned)
S0(cfg) == [trig |-> "live", fired |-> FALSE, blocking |-> FALSE, h |-> {}, w |-> {}, waiting |-> {}, nw |-> 0, nh |-> 0]

\* Must a waiting component be told?  May it be?
Must(s) == s.fired \/ (s.trig \in {"gone", "cut"} /\ s.h = {})
May(s) == s.fired \/ s.trig \in {"gone", "cut"}

Woken(s) == IF Must(s) THEN {s.waiting} ELSE IF May(s) THEN SUBSET s.waiting ELSE {{}}

\* Everything that can proceed does: waiting components are told, the trigger completes.
Settle(s, st) ==
  {LET d == s.trig = "running" /\ s.w = {} IN
   [s |-> [s EXCEPT !.waiting = @ \ k, !.trig = IF d THEN "done" ELSE @],
    res |-> [woken |-> k, done |-> d, status |-> st]] : k \in Woken(s)}

Outcomes(s, op) ==
  CASE op.op = "mkw" -> Settle([s EXCEPT !.w = @ \cup {op.id}, !.nw = @ + 1], "-")
    [] op.op = "mkh" -> Settle([s EXCEPT !.h = @ \cup {op.id}, !.nh = @ + 1], "-")
    [] op.op = "dropw" -> Settle([s EXCEPT !.w = @ \ {op.id}, !.waiting = @ \ {op.id}], "-")
    [] op.op = "droph" -> Settle([s EXCEPT !.h = @ \ {op.id}], "-")
    [] op.op = "dropt" -> Settle([s EXCEPT !.trig = "gone"], "-")
    [] op.op \in {"fire", "fireb"} -> Settle([s EXCEPT !.trig = "running", !.fired = TRUE, !.blocking = op.op = "fireb"], "-")
    [] op.op = "cancel" -> Settle([s EXCEPT !.trig = "cut"], "-")
    [] op.op = "wait" -> Settle([s EXCEPT !.waiting = @ \cup {op.id}], "-")
    [] op.op = "unwait" -> Settle([s EXCEPT !.waiting = @ \ {op.id}], "-")
    [] op.op = "status" -> Settle(s, IF s.fired THEN "pending" ELSE "running")

Ops(s) ==
  (IF s.nw >= MaxW THEN {} ELSE
     {[op |-> "mkw", id |-> s.nw + 1, from |-> "t", src |-> 0] : x \in IF s.trig = "live" THEN {1} ELSE {}}
     \cup {[op |-> "mkw", id |-> s.nw + 1, from |-> "h", src |-> h] : h \in s.h}
     \* (a waiter whose cancellation is being awaited is borrowed and cannot be cloned)
     \cup {[op |-> "mkw", id |-> s.nw + 1, from |-> "w", src |-> w] : w \in s.w \ s.waiting})
  \cup (IF s.nh >= MaxH THEN {} ELSE
     {[op |-> "mkh", id |-> s.nh + 1, from |-> "t", src |-> 0] : x \in IF s.trig = "live" THEN {1} ELSE {}}
     \cup {[op |-> "mkh", id |-> s.nh + 1, from |-> "h", src |-> h] : h \in s.h})
  \cup {[op |-> o, id |-> w] : o \in {"dropw"}, w \in s.w}
  \cup {[op |-> o, id |-> w] : o \in {"wait", "status"}, w \in s.w \ s.waiting}
  \cup {[op |-> "unwait", id |-> w] : w \in s.waiting}
  \cup {[op |-> "droph", id |-> h] : h \in s.h}
  \cup {[op |-> o] : o \in IF s.trig = "live" THEN {"dropt", "fire"} ELSE {}}
  \cup {[op |-> "fireb", slow |-> b] : b \in IF s.trig = "live" THEN Slow ELSE {}}
  \cup {[op |-> "cancel"] : x \in IF s.trig = "running" /\ ~s.blocking THEN {1} ELSE {}}

-----------------------------------------------------------------------------
Inv(s) == /\ s.waiting \subseteq s.w
          \* nobody keeps waiting once shutdown was triggered
          /\ s.fired => s.waiting = {}
          \* complete exactly when all are released; handles do not matter
          /\ s.trig = "running" => s.w # {}
StepOk(s, op, o) ==
  /\ o.res.done => s.w = {} \/ (op.op = "dropw" /\ s.w = {op.id})
  /\ ~o.s.fired /\ o.s.trig \in {"live", "running"} => o.res.woken = {}
=============================================================================
