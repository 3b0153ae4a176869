------------------------------- MODULE Device -------------------------------
(* C04: the device identifier (bd-device).  Identifiers are numbered by first appearance; 0: none,
   -1: a stored value that cannot be decoded. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Faults, Known   \* Known: as in FixedSession

Junk == -1
S0(cfg) == [mem |-> 0, disk |-> cfg.disk, used |-> IF cfg.disk > 0 THEN {cfg.disk} ELSE {},
            made |-> 0]   \* ghost: identifiers created by this process

Fresh(s) == IF Known = {} THEN {Cardinality(s.used) + 1} ELSE Known \ s.used
Out(s, r) == [s |-> s, res |-> [id |-> r, disk |-> s.disk]]

Readable(s, f) == f \notin {"r", "d"} /\ s.disk > 0
AfterGet(s, f) == IF f = "d" THEN s.disk ELSE IF f = "r" \/ s.disk = Junk THEN 0 ELSE s.disk

Id(s, f) ==
  IF s.mem # 0 THEN {Out(s, s.mem)}
  ELSE IF Readable(s, f) THEN {Out([s EXCEPT !.mem = s.disk], s.disk)}
  ELSE {Out([s EXCEPT !.mem = x, !.used = @ \cup {x}, !.made = @ + 1,
                      !.disk = IF f = "w" THEN AfterGet(s, f) ELSE x], x) : x \in Fresh(s)}

Boot(s) == [s EXCEPT !.mem = 0, !.made = 0]

Outcomes(s, op) ==
  CASE op.op = "id" -> Id(s, op.fault)
    \* the process dies at its durable write
    [] op.op = "crash" ->
         IF s.mem # 0 \/ Readable(s, "none") THEN {Out(Boot(s), 0)}
         ELSE IF op.at = "before" THEN {Out(Boot([s EXCEPT !.disk = AfterGet(s, "none")]), 0)}
         ELSE {Out(Boot([s EXCEPT !.disk = x, !.used = @ \cup {x}]), 0) : x \in Fresh(s)}
    [] op.op = "restart" -> {Out(Boot(s), 0)}
    [] op.op = "corrupt" -> {Out([s EXCEPT !.disk = Junk], 0)}

Ops(s) == {[op |-> "id", fault |-> f] : f \in Faults} \cup {[op |-> "crash", at |-> a] : a \in {"before", "after"}}
          \cup {[op |-> "restart"], [op |-> "corrupt"]}

Inv(s) == s.made <= 1
StepOk(s, op, o) ==
  /\ op.op = "id" => o.res.id # 0 /\ o.s.mem = o.res.id
  /\ op.op = "id" /\ s.mem # 0 => o.res.id = s.mem /\ o.s = s
  /\ op.op = "id" /\ s.mem = 0 /\ op.fault # "w" => o.s.disk = o.res.id
  /\ op.op = "id" /\ s.mem = 0 /\ s.disk > 0 /\ op.fault \in {"none", "w"} => o.res.id = s.disk
=============================================================================
