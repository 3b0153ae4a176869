--------------------------- MODULE ProcessPolicy ---------------------------
(* C45: what a process makes of its CPU allotment (bd-rt) and of panics (bd-panic). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Max, MaxOps

\* env: the text of NUM_CPUS; once: the number of CPUs looked up once and for all (None: not yet); hook: who reports panics; abort: do they end the process
None == -1
S0(cfg) == [env |-> "unset", once |-> None, hook |-> "std", abort |-> FALSE, alive |-> TRUE, n |-> 0]

\* The number of threads; 0: as many as the machine has (the text says nothing sensible)
Cpus(e) ==
  CASE e = "2" -> 2 [] e = "1" -> 1 [] e = "3.9" -> 3 [] e = "0.25" -> 1 [] e = "-4" -> 1 [] e = "1e1" -> 10 [] e = "4096" -> Max [] e = "1e9" -> Max
    [] e \in {"unset", "", "x", "0", "inf", "NaN", " 5", "7 ", "2 cpus", "1e-320"} -> 0
Envs == {"unset", "2", "1", "3.9", "0.25", "-4", "1e1", "4096", "1e9", "", "x", "0", "inf", "NaN", " 5", "7 ", "2 cpus", "1e-320"}

Ok(n) == [alive |-> TRUE, n |-> n, r |-> "", logs |-> <<>>, shown |-> FALSE]
Once(s) == IF s.once = None THEN Cpus(s.env) ELSE s.once

Outcomes(t, op) ==
  LET s == [t EXCEPT !.n = @ + 1] IN
  CASE op.op = "env" -> {[s |-> [s EXCEPT !.env = op.v], res |-> Ok(-1)]}
    [] op.op = "cpus" -> {[s |-> s, res |-> Ok(Cpus(s.env))]}
    [] op.op \in {"once", "rt"} -> {[s |-> [s EXCEPT !.once = Once(s)], res |-> Ok(Once(s))]}
    \* the last one counts
    [] op.op = "install" -> {[s |-> [s EXCEPT !.hook = IF op.log THEN "log" ELSE "trace", !.abort = op.abort], res |-> Ok(-1)]}
    [] op.op = "panic" ->
         {[s |-> [s EXCEPT !.alive = ~s.abort],
           res |-> [alive |-> ~s.abort, n |-> IF s.abort THEN 1 ELSE -1, r |-> IF s.abort THEN "" ELSE "caught",
                    logs |-> (IF s.hook = "log" THEN <<IF op.p = "other" THEN "none" ELSE "text">> ELSE <<>>) \o (IF s.abort THEN <<"exit">> ELSE <<>>),
                    shown |-> s.hook # "log" /\ op.p # "other"]]}

Ops(s) ==
  IF ~s.alive \/ s.n >= MaxOps THEN {}
  ELSE {[op |-> "env", v |-> v] : v \in Envs \ {s.env}} \cup {[op |-> "cpus"], [op |-> "once"]}
       \* (more threads than that would only cost time)
       \cup (IF Once(s) <= 10 THEN {[op |-> "rt"]} ELSE {})
       \cup {[op |-> "install", abort |-> a, log |-> l] : a \in BOOLEAN, l \in BOOLEAN}
       \cup {[op |-> "panic", at |-> w, p |-> p] : w \in {"here", "thread", "task"}, p \in {"str", "string", "other"}}

Inv(s) == s.once \in {None} \cup 0 .. Max
StepOk(s, op, o) ==
  /\ (op.op = "panic" => (o.s.alive <=> ~s.abort))
  /\ (op.op # "panic" => o.s.alive)
  /\ (s.once # None => o.s.once = s.once)
=============================================================================
