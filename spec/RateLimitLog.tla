---------------------------- MODULE RateLimitLog ----------------------------
(* C12: rate-limited log sites (bd-log/src/rate_limit_log.rs).  Times are in milliseconds. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Sites, Periods, Steps, Counts

Never == -1
S0(cfg) == [now |-> 0, last |-> [i \in Sites |-> Never], log |-> [i \in Sites |-> <<>>]]

\* n occurrences at one instant, by one thread or by several: how many are emitted.
Emits(s, i, d) == s.last[i] = Never \/ s.now - s.last[i] > d
Outcomes(s, op) ==
  CASE op.op = "advance" -> {[s |-> [s EXCEPT !.now = @ + op.dt], res |-> [n |-> 0]]}
    [] op.op = "occur" ->
         IF op.n > 0 /\ Emits(s, op.site, op.d)
           THEN {[s |-> [s EXCEPT !.last[op.site] = s.now, !.log[op.site] = Append(@, <<s.now, op.d>>)], res |-> [n |-> 1]]}
           ELSE {[s |-> s, res |-> [n |-> 0]]}

Ops(s) == {[op |-> "advance", dt |-> d] : d \in Steps}
          \cup {[op |-> "occur", site |-> i, d |-> d, n |-> n, threads |-> 1] : i \in Sites, d \in Periods, n \in Counts}

Inv(s) == \A i \in Sites : \A k \in 1 .. Len(s.log[i]) - 1 : s.log[i][k + 1][1] - s.log[i][k][1] > s.log[i][k + 1][2]
StepOk(s, op, o) ==
  op.op = "occur" =>
    /\ s.last[op.site] = Never => o.res.n = 1
    /\ o.res.n = 0 => s.last[op.site] # Never /\ s.now - s.last[op.site] <= op.d
    /\ \A j \in Sites \ {op.site} : o.s.last[j] = s.last[j]
=============================================================================
