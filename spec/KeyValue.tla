------------------------------ MODULE KeyValue ------------------------------
(* C03: bd-key-value's Store over a storage with faults.  Values are numbers (the driver turns them
   into values of several types), 0 is absence, -1 an entry that cannot be decoded. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Keys, Values,
          Faults   \* none, r: reads fail, d: reads and deletes fail, w: writes fail, wa: writes fail after taking effect

Junk == -1
S0(cfg) == [disk |-> [k \in Keys |-> 0],
            stored |-> [k \in Keys |-> {0}]]   \* ghost: everything ever stored under the key

Wipe(s, k) == [s EXCEPT !.disk[k] = 0]
Write(s, k, v, f) == [s EXCEPT !.disk[k] = IF f = "w" THEN @ ELSE v, !.stored[k] = @ \cup {v}]

Get(s, k, f) ==
  IF f = "r" THEN [s |-> Wipe(s, k), v |-> 0, ok |-> FALSE]
  ELSE IF f = "d" THEN [s |-> s, v |-> 0, ok |-> FALSE]
  ELSE IF s.disk[k] = Junk THEN [s |-> IF f = "x" THEN s ELSE Wipe(s, k), v |-> 0, ok |-> FALSE]
  ELSE [s |-> s, v |-> s.disk[k], ok |-> TRUE]

\* What the storage holds afterwards, key by key, as an observer sees it (-1: undecodable).
Out(s, v, ok) == {[s |-> s, res |-> [v |-> v, ok |-> ok, disk |-> s.disk]]}

Outcomes(s, op) ==
  CASE op.op = "set" -> Out(Write(s, op.k, op.v, op.fault), 0, TRUE)
    [] op.op = "seti" -> Out(Write(s, op.k, op.v, op.fault), 0, op.fault \notin {"w", "wa"})
    [] op.op = "get" -> LET g == Get(s, op.k, op.fault) IN Out(g.s, g.v, TRUE)
    [] op.op = "geti" -> LET g == Get(s, op.k, op.fault) IN Out(s, g.v, g.ok)
    \* an entry written by an earlier release, and a malformed one
    [] op.op = "legacy" -> Out(Write(s, op.k, op.v, "none"), 0, TRUE)
    [] op.op = "corrupt" -> Out([s EXCEPT !.disk[op.k] = Junk], 0, TRUE)
    [] op.op = "restart" -> Out(s, 0, TRUE)

Ops(s) ==
  {[op |-> o, k |-> k, v |-> v, fault |-> f] : o \in {"set", "seti"}, k \in Keys, v \in Values, f \in Faults}
  \cup {[op |-> o, k |-> k, fault |-> f] : o \in {"get", "geti"}, k \in Keys, f \in Faults}
  \cup {[op |-> "legacy", k |-> k, v |-> v] : k \in Keys, v \in Values}
  \cup {[op |-> "corrupt", k |-> k] : k \in Keys} \cup {[op |-> "restart"]}

Inv(s) == \A k \in Keys : s.disk[k] # Junk => s.disk[k] \in s.stored[k]
StepOk(s, op, o) ==
  /\ o.res.v \in (IF "k" \in DOMAIN op THEN s.stored[op.k] ELSE {0})
  /\ \A k \in Keys : "k" \notin DOMAIN op \/ k # op.k => o.s.disk[k] = s.disk[k]
  /\ op.op = "get" /\ op.fault \notin {"d", "x"} /\ s.disk[op.k] = Junk => o.s.disk[op.k] = 0
  /\ op.op \in {"set", "seti", "legacy"} /\ ("fault" \notin DOMAIN op \/ op.fault # "w") => o.s.disk[op.k] = op.v
=============================================================================
