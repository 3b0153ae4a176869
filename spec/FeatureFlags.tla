---------------------------- MODULE FeatureFlags ----------------------------
(* C09: feature flags (bd-runtime-config/src/feature_flags.rs).  A configuration is a list of flags, each
   [name, type, value, roll] with integers as decimal strings; roll is the rollout share in units of
   1/10000 (10000 for everything beyond). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Names, Draws

Flags(cfg) == IF cfg.kind = "good" THEN cfg.flags ELSE <<>>
S0(cfg) == [flags |-> Flags(cfg)]

Has(s, n) == {i \in 1 .. Len(s.flags) : s.flags[i].name = n}
Flag(s, n) == s.flags[CHOOSE i \in Has(s, n) : TRUE]
Get(s, op, type) == IF Has(s, op.name) # {} /\ Flag(s, op.name).type = type THEN Flag(s, op.name).value ELSE op.def
Str(b) == IF b THEN "true" ELSE "false"

\* How often a rollout of p/10000 may be drawn out of n = k * 10000 times: within more than six standard deviations.
Plausible(c, p, n) ==
  LET k == n \div 10000
      d == c - k * p
      var == ((p * (10000 - p)) \div 10000) * k + k
  IN d < 40000 /\ -d < 40000 /\ d * d <= 40 * var + 200

Enabled(s, op) ==
  IF Has(s, op.name) = {} \/ Flag(s, op.name).type # "int" THEN {IF op.def THEN op.n ELSE 0}
  ELSE LET p == Flag(s, op.name).roll IN
    IF p = 0 THEN {0} ELSE IF p >= 10000 THEN {op.n} ELSE 0 .. op.n

Outcomes(s, op) ==
  CASE op.op = "bool" -> {[s |-> s, res |-> Get(s, [op EXCEPT !.def = Str(@)], "bool")]}
    [] op.op = "int" -> {[s |-> s, res |-> Get(s, op, "int")]}
    [] op.op = "str" -> {[s |-> s, res |-> Get(s, op, "str")]}
    [] op.op = "enabled" -> {[s |-> s, res |-> [any |-> Enabled(s, op),
                                p |-> IF Has(s, op.name) # {} /\ Flag(s, op.name).type = "int" THEN Flag(s, op.name).roll ELSE 0, n |-> op.n]]}

Ops(s) ==
  {[op |-> "bool", name |-> n, def |-> d, via |-> v] : n \in Names, d \in BOOLEAN, v \in BOOLEAN}
  \cup {[op |-> "int", name |-> n, def |-> d, via |-> v] : n \in Names, d \in {"7", "0"}, v \in BOOLEAN}
  \cup {[op |-> "str", name |-> n, def |-> d, via |-> v] : n \in Names, d \in {"def", ""}, v \in BOOLEAN}
  \cup {[op |-> "enabled", name |-> n, def |-> d, via |-> v, n |-> k] : n \in Names, d \in BOOLEAN, v \in BOOLEAN, k \in Draws}

Inv(s) == \A i, j \in 1 .. Len(s.flags) : s.flags[i].name = s.flags[j].name => i = j
StepOk(s, op, o) ==
  /\ op.op = "int" /\ o.res # op.def => \E i \in 1 .. Len(s.flags) : s.flags[i] = [Flag(s, op.name) EXCEPT !.type = "int", !.value = o.res]
  /\ o.s = s
=============================================================================
