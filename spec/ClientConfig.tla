---------------------------- MODULE ClientConfig ----------------------------
(* C36: the logging configuration sent by the server (bd-logger client_config.rs): validated, applied to the buffers, handed to the
   logging loop, cached in a file and acknowledged.

   A configuration (Confs, 1 based) has buffers [id, t (c: continuous, t: trigger), bad (no, type, size, sel), tags (selecting messages)],
   streams [id, tags, ok], workflows [id, ok] and filters [tags, ok]; some = FALSE is an update without content.  Update i with version v is
   valid unless a buffer or selector is not; invalid streams, workflows and filters are left out.
   disk: [k |-> "none" | "full" (i, v) | "junk" | "dir" (not writable)]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Confs, Fam, MaxV

Tags == {"a", "b"}
Has(q, x) == \E i \in DOMAIN q : q[i] = x
None == [k |-> "none", i |-> 0, v |-> 0]
S0(c) == [conf |-> 0, ver |-> 0, wf |-> c.wf, disk |-> None, n |-> 0]

Valid(c) == c.some /\ \A j \in DOMAIN c.bufs : c.bufs[j].bad = "no"
Names(c, t) == {c.bufs[j].id : j \in {j \in DOMAIN c.bufs : c.bufs[j].t \in t}}
BufsOf(i) == IF i = 0 THEN {} ELSE Names(Confs[i], {"c", "t"})
Live(i) == i # 0 /\ Confs[i].streams # <<>>
\* what the logging loop gets; cb counts what was left out
Sum(c, wf) ==
  [cont |-> Names(c, {"c"}), trig |-> Names(c, {"t"}),
   sel |-> [x \in Tags |-> {c.bufs[j].id : j \in {j \in DOMAIN c.bufs : Has(c.bufs[j].tags, x)}}],
   tail |-> [x \in Tags |-> {c.streams[j].id : j \in {j \in DOMAIN c.streams : c.streams[j].ok /\ Has(c.streams[j].tags, x)}}],
   wf |-> IF wf THEN {c.wfs[j].id : j \in {j \in DOMAIN c.wfs : c.wfs[j].ok}} ELSE {},
   filt |-> [x \in Tags |-> \E j \in DOMAIN c.filts : c.filts[j].ok /\ Has(c.filts[j].tags, x)],
   left |-> Cardinality({j \in DOMAIN c.streams : ~c.streams[j].ok}) + Cardinality({j \in DOMAIN c.filts : ~c.filts[j].ok})]

\* an update has been applied, its content goes to the file if that can be written
Applied(s, i, v) == [s EXCEPT !.conf = i, !.ver = v, !.disk = IF @.k = "dir" THEN @ ELSE [k |-> "full", i |-> i, v |-> v]]
Upd(s, i) == <<Sum(Confs[i], s.wf)>>
Res(t, ack, upd, miss) ==
  [ack |-> ack, upd |-> upd, hs |-> t.ver, bufs |-> BufsOf(t.conf), live |-> Live(t.conf), miss |-> miss, disk |-> [k |-> t.disk.k, v |-> t.disk.v]]
Quiet(t) == {[s |-> t, res |-> Res(t, <<>>, <<>>, 0)]}

Apply(s, i, v) ==
  IF Valid(Confs[i]) THEN LET t == Applied(s, i, v) IN [s |-> t, ok |-> TRUE, upd |-> Upd(s, i), miss |-> IF s.disk.k = "dir" THEN 1 ELSE 0]
  ELSE [s |-> s, ok |-> FALSE, upd |-> <<>>, miss |-> 0]

\* does applying i have to wait for the buffers' users
Waits(s, i) == BufsOf(s.conf) # BufsOf(i) \/ Live(s.conf) # Live(i)
Dead(s) == [s EXCEPT !.conf = 0, !.ver = 0]

Outcomes(s, op) ==
  CASE op.op = "apply" ->
         LET v == s.n + 1
             a == Apply([s EXCEPT !.n = v], op.i, v) IN
         {[s |-> a.s, res |-> Res(a.s, <<[ok |-> a.ok, last |-> a.s.ver, no |-> IF a.ok THEN 0 ELSE v]>>, a.upd, a.miss)]}
    [] op.op = "other" -> Quiet(s)
    [] op.op = "load" ->
         IF s.disk.k \in {"none", "dir"} THEN Quiet(s)
         ELSE LET s1 == [s EXCEPT !.disk = None] IN
              IF s.disk.k = "junk" THEN Quiet(s1)
              ELSE LET a == Apply(s1, s.disk.i, s.disk.v) IN {[s |-> a.s, res |-> Res(a.s, <<>>, a.upd, a.miss)]}
    [] op.op = "restart" -> Quiet(Dead(s))
    \* the process ends while an update is being applied: waiting for the buffers' users, or for the logging loop to take the configuration
    [] op.op = "crash" ->
         LET v == s.n + 1
             load == op.i = 0
             s1 == IF load THEN [s EXCEPT !.disk = IF s.disk.k = "dir" THEN @ ELSE None] ELSE [s EXCEPT !.n = v]
             i == IF load THEN s.disk.i ELSE op.i
             t == IF (load /\ s.disk.k # "full") \/ ~Valid(Confs[i]) THEN s1
                  ELSE IF op.at = "events" /\ ~Waits(s, i) THEN Applied(s1, i, IF load THEN s.disk.v ELSE v)
                  ELSE s1 IN
         Quiet(Dead(t))
    \* damage to the file: all of its proper prefixes and anything else that is no update
    [] op.op = "damage" -> Quiet([s EXCEPT !.disk = [k |-> "junk", i |-> 0, v |-> 0]])
    [] op.op = "lose" -> Quiet([s EXCEPT !.disk = None])
    [] op.op = "block" -> Quiet([s EXCEPT !.disk = [k |-> "dir", i |-> 0, v |-> 0]])
    [] op.op = "flag" -> Quiet([s EXCEPT !.wf = ~@])

Ops(s) ==
  {[op |-> "apply", i |-> i] : i \in IF s.n < MaxV THEN DOMAIN Confs ELSE {}}
    \cup {[op |-> "load"], [op |-> "restart"]}
    \cup (IF "crash" \in Fam /\ s.n < MaxV THEN {[op |-> "crash", i |-> i, at |-> a] : i \in {0} \cup DOMAIN Confs, a \in {"events", "send"}} ELSE {})
    \cup (IF "disk" \in Fam /\ s.disk.k = "full" THEN {[op |-> "damage", how |-> h] : h \in {"cut", "head", "empty", "junk"}} ELSE {})
    \cup (IF "disk" \in Fam /\ s.disk.k \notin {"dir", "none"} THEN {[op |-> "lose"]} ELSE {})
    \cup (IF "disk" \in Fam /\ s.disk.k = "none" THEN {[op |-> "block"]} ELSE {})
    \cup (IF "disk" \in Fam /\ s.disk.k = "dir" THEN {[op |-> "lose"]} ELSE {})
    \cup (IF "flag" \in Fam THEN {[op |-> "flag"], [op |-> "other"]} ELSE {})

Inv(s) ==
  /\ s.conf # 0 => Valid(Confs[s.conf])
  /\ s.disk.k = "full" => Valid(Confs[s.disk.i])
  \* the file is that of the configuration in force, or of an earlier process's
  /\ s.conf # 0 /\ s.disk.k = "full" => s.disk.i = s.conf /\ s.disk.v = s.ver
StepOk(s, op, o) ==
  \* a rejected update changes nothing
  /\ (op.op = "apply" /\ ~o.res.ack[1].ok) => o.s = [s EXCEPT !.n = o.s.n]
  /\ op.op = "apply" => o.res.ack[1].last = o.s.ver
  \* what was not applied when the process ended is not applied by the next one
  /\ (op.op = "crash" /\ op.i = 0 /\ s.disk.k # "dir") => (o.s.disk = None \/ o.s.disk = s.disk)
=============================================================================
