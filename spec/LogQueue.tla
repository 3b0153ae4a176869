----------------------------- MODULE LogQueue -----------------------------
(* C34, several threads: logs, field changes and flushes by any number of application threads take effect one after another, each thread's
   in its order; a blocking call returns after what it accepted has been written and flushed.  What is written is <<number, field>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Fields

S0(c) == [q |-> <<>>, g |-> 0]
Outcomes(s, op) ==
  CASE op.op = "log" -> {[s |-> [s EXCEPT !.q = Append(@, <<op.i, s.g>>)], res |-> IF op.blk THEN "flushed" ELSE "ok"]}
    [] op.op = "field" -> {[s |-> [s EXCEPT !.g = op.v], res |-> "ok"]}
    [] op.op = "flush" -> {[s |-> s, res |-> IF op.blk THEN "flushed" ELSE "ok"]}
    [] op.op = "read" -> {[s |-> s, res |-> s.q]}

Ops(s) == {[op |-> "log", i |-> Len(s.q) + 1, blk |-> b] : b \in BOOLEAN} \cup {[op |-> "field", v |-> v] : v \in Fields}
            \cup {[op |-> "flush", blk |-> b] : b \in BOOLEAN} \cup {[op |-> "read"]}
Inv(s) == \A i, j \in DOMAIN s.q : i # j => s.q[i][1] # s.q[j][1]
StepOk(s, op, o) ==
  /\ SubSeq(o.s.q, 1, Len(s.q)) = s.q
  /\ op.op = "log" => o.s.q[Len(o.s.q)] = <<op.i, s.g>>
  /\ op.op # "log" => o.s.q = s.q
=============================================================================
