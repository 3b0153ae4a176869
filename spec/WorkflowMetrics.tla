-------------------------- MODULE WorkflowMetrics --------------------------
(* C44: what the emit-metric actions of workflows record (bd-workflows metrics.rs and engine.rs; bd-client-stats).

   Confs[cfg].wfs: workflows [ms: a transition from the first to the last state for each set of messages, acts: the actions of each of them, excl, bad: cannot
   be used]; an action is [id, tags: [n: name, x: taken from a field?, v: field or value], h: histogram?, x: the field with the increment ("": fixed), v:
   fixed increment].  logs: [lvl, ty, fs: captured fields [k, v, b: binary?], ms: matching fields]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Confs, MaxKept

\* kept: number of workflows in use; got: [h, tags, n, sum] recorded since the last collection, with n and sum of the (scaled by 10) values; n = 0 for counters
S0(cfg) == [cfg |-> cfg.k, kept |-> Len(Confs[cfg.k].wfs), got |-> {}, since |-> 0]

\* What a text says as a number, times 10
None == -1000000
NumOf(x) == CASE x = "0" -> 0 [] x = "1" -> 10 [] x = "2" -> 20 [] x = "3" -> 30 [] x = "4" -> 40 [] x = "5" -> 50 [] x = "7" -> 70
              [] x = "2.9" -> 29 [] x = "-3" -> -30 [] x = "1e1" -> 100 [] x = "+4" -> 40 [] OTHER -> None

RECURSIVE First(_, _)
First(q, k) == IF q = <<>> THEN [ok |-> FALSE, v |-> ""]
               ELSE IF q[1].k = k THEN [ok |-> ~q[1].b, v |-> q[1].v]
               ELSE First(Tail(q), k)

\* captured fields before matching ones; a binary value is no text
Field(l, k) ==
  CASE k = "log_level" -> [ok |-> TRUE, v |-> ToString(l.lvl)]
    [] k = "log_type" -> [ok |-> TRUE, v |-> ToString(l.ty)]
    [] OTHER -> IF First(l.fs, k).ok THEN First(l.fs, k) ELSE First(l.ms, k)

\* tags are a map from names: of several with one name the last counts
TagSet(a) == {a.tags[i] : i \in {k \in DOMAIN a.tags : \A j \in DOMAIN a.tags : a.tags[j].n = a.tags[k].n => j <= k}}
TagVal(t, l) == IF t.x THEN Field(l, t.v) ELSE [ok |-> TRUE, v |-> t.v]
Tags(a, l) ==
  {<<"_id", a.id>>} \cup {<<t.n, TagVal(t, l).v>> : t \in {x \in a.tags : x.n # "_id" /\ TagVal(x, l).ok}}

\* what an action is
Ident(a) == [id |-> a.id, h |-> a.h, x |-> a.x, v |-> IF a.x = "" THEN a.v ELSE 0, tags |-> TagSet(a)]

Triggered(s, m) ==
  UNION {{<<i, j>> : j \in DOMAIN Confs[s.cfg].wfs[i].acts} :
         i \in {k \in 1 .. s.kept : ~Confs[s.cfg].wfs[k].bad /\ \E t \in DOMAIN Confs[s.cfg].wfs[k].ms : \E u \in DOMAIN Confs[s.cfg].wfs[k].ms[t] : Confs[s.cfg].wfs[k].ms[t][u] = m}}
\* every different action once per log
Distinct(s, m) == LET T == Triggered(s, m) IN {Ident(Confs[s.cfg].wfs[p[1]].acts[p[2]]) : p \in T}

Amount(a, l) == IF a.x = "" THEN [ok |-> TRUE, v |-> 10 * a.v]
                ELSE LET f == Field(l, a.x) IN IF f.ok /\ NumOf(f.v) # None THEN [ok |-> TRUE, v |-> NumOf(f.v)] ELSE [ok |-> FALSE, v |-> 0]

\* counters take whole numbers from 0
Value(a, l) == IF a.h THEN Amount(a, l).v ELSE IF Amount(a, l).v < 0 THEN 0 ELSE (Amount(a, l).v \div 10) * 10

AddTo(got, h, tags, v) ==
  LET same == {g \in got : g.h = h /\ g.tags = tags}
      old == IF same = {} THEN [h |-> h, tags |-> tags, n |-> 0, sum |-> 0] ELSE CHOOSE g \in same : TRUE IN
  (got \ same) \cup {[old EXCEPT !.n = @ + (IF h THEN 1 ELSE 0), !.sum = @ + v]}

RECURSIVE Record(_, _, _, _)
Record(s, got, P, l) ==
  IF P = {} THEN got
  ELSE LET p == CHOOSE x \in P : TRUE IN
       Record(s, IF Amount(p, l).ok THEN AddTo(got, p.h, Tags(p, l), Value(p, l)) ELSE got, P \ {p}, l)

Ops(s) ==
  (IF s.since >= MaxKept THEN {} ELSE {[op |-> "log", m |-> m, f |-> f] : m \in {"a", "b", "c"}, f \in DOMAIN Confs[s.cfg].logs})
  \cup (IF s.since > 0 THEN {[op |-> "collect"]} ELSE {})
  \cup (IF s.since = 0 THEN {[op |-> "keep", n |-> n] : n \in {k \in 1 .. Len(Confs[s.cfg].wfs) : k # s.kept /\ k >= Len(Confs[s.cfg].wfs) - 1}} ELSE {})

Outcomes(s, op) ==
  CASE op.op = "log" -> {[s |-> [s EXCEPT !.got = Record(s, s.got, Distinct(s, op.m), Confs[s.cfg].logs[op.f]), !.since = @ + 1], res |-> {}]}
    [] op.op = "keep" -> {[s |-> [s EXCEPT !.kept = op.n], res |-> {}]}
    [] op.op = "collect" -> {[s |-> [s EXCEPT !.got = {}, !.since = 0], res |-> {g \in s.got : g.h \/ g.sum # 0}]}

\* every metric names the action it is of, and each label has one value
Inv(s) == \A g \in s.got : /\ \E t \in g.tags : t[1] = "_id"
                           /\ \A t \in g.tags : \A u \in g.tags : t[1] = u[1] => t = u
                           /\ (~g.h => g.sum >= 0 /\ g.n = 0)
\* what was recorded stays until it is collected; nothing is recorded for what no workflow waits for
StepOk(s, op, o) ==
  /\ (op.op = "log" => \A g \in s.got : \E k \in o.s.got : k.h = g.h /\ k.tags = g.tags /\ k.n >= g.n /\ (g.h \/ k.sum >= g.sum))
  /\ (op.op = "log" /\ Triggered(s, op.m) = {} => o.s.got = s.got)
=============================================================================
