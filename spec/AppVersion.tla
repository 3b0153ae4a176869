----------------------------- MODULE AppVersion -----------------------------
(* C05: the application version repository (bd-logger/src/app_version.rs).  A version is the pair of the
   version string and the build discriminator with its kind; versions are numbered, equal numbers are
   equal pairs.  0: nothing stored, -1: undecodable. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Versions, Faults

Junk == -1
S0(cfg) == [disk |-> 0]

Get(s, f) == IF f \in {"r", "d"} \/ s.disk = Junk THEN 0 ELSE s.disk
AfterGet(s, f) == IF f = "d" THEN s.disk ELSE IF f = "r" \/ s.disk = Junk THEN 0 ELSE s.disk
Out(d, c, p) == {[s |-> [disk |-> d], res |-> [changed |-> c, prev |-> p, disk |-> d]]}
Put(s, v, f) == IF f = "w" THEN AfterGet(s, f) ELSE v

Outcomes(s, op) ==
  CASE op.op = "changed" ->
         IF Get(s, op.fault) = 0 THEN Out(Put(s, op.v, op.fault), FALSE, 0)
         ELSE Out(s.disk, s.disk # op.v, 0)
    [] op.op = "set" ->
         IF Get(s, op.fault) = 0 THEN Out(Put(s, op.v, op.fault), FALSE, 0)
         ELSE IF s.disk = op.v THEN Out(s.disk, FALSE, 0)
         ELSE Out(Put(s, op.v, op.fault), FALSE, s.disk)
    [] op.op = "crash" ->   \* dies at the durable write of set
         IF Get(s, "none") = op.v THEN Out(s.disk, FALSE, 0)
         ELSE Out(IF op.at = "after" THEN op.v ELSE AfterGet(s, "none"), FALSE, 0)
    [] op.op = "restart" -> Out(s.disk, FALSE, 0)
    [] op.op = "corrupt" -> Out(Junk, FALSE, 0)

Ops(s) == {[op |-> o, v |-> v, fault |-> f] : o \in {"changed", "set"}, v \in Versions, f \in Faults}
          \cup {[op |-> "crash", v |-> v, at |-> a] : v \in Versions, a \in {"before", "after"}}
          \cup {[op |-> "restart"], [op |-> "corrupt"]}

Inv(s) == s.disk \in Versions \cup {0, Junk}
StepOk(s, op, o) ==
  \* a change is reported with the version recorded before, and then it is recorded: not reported again
  /\ op.op = "set" /\ op.fault = "none" => o.s.disk = op.v
  /\ op.op = "set" => (o.res.prev # 0 <=> s.disk > 0 /\ s.disk # op.v /\ op.fault \in {"none", "w"})
  /\ o.res.prev # 0 => o.res.prev = s.disk
  \* asking consumes nothing
  /\ op.op = "changed" /\ s.disk > 0 /\ op.fault \in {"none", "w"} => o.s.disk = s.disk /\ o.res.changed = (s.disk # op.v)
  /\ s.disk <= 0 => ~o.res.changed /\ o.res.prev = 0
=============================================================================
