----------------------------- MODULE UploadLoop -----------------------------
(* C35: uploading of logs from buffers (bd-logger consumer.rs, service.rs).  Buffer x has kind cfg.kinds[x]: "cont" (continuous, records
   stay until the batch was acknowledged), "trig" (uploaded as a whole on request, locked meanwhile) or "stream".
   A record is <<id, size, old>>.  Time in ticks: a retry comes before the next tick, a partial batch is sent c.dl ticks after its first record. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Confs, Sizes, Olds, Trigs, Fam, MaxQ

B0(k) == [kind |-> k, gone |-> FALSE, q |-> <<>>, batch |-> <<>>, fl |-> "no", att |-> 0, up |-> FALSE, lb |-> FALSE, dl |-> 0, u |-> 0, out |-> <<>>, old |-> 0]
\* trg: unanswered requests <<number, buffers not yet done>>; block: buffer whose removal waits for its upload
S0(cfg) == [c |-> Confs[cfg.conf], b |-> [x \in DOMAIN cfg.kinds |-> B0(cfg.kinds[x])], n |-> 1, trg |-> {}, tn |-> 0, block |-> 0,
            lim |-> 0, lost |-> 0, old |-> 0]

RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + Bytes(Tail(q))
Ids(q) == [i \in DOMAIN q |-> q[i][1]]
Reached(c, q) == q # <<>> /\ (c.mb <= Bytes(q) \/ c.ml <= Len(q))
Flush(b) == [b EXCEPT !.fl = "sent", !.att = 0, !.u = @ + 1, !.dl = 0, !.out = Append(@, [u |-> b.u + 1, ids |-> Ids(b.batch)])]

RECURSIVE Pump(_, _)
Pump(c, b) ==
  IF b.fl # "no" \/ b.gone THEN b
  ELSE CASE b.kind = "cont" ->
         IF Reached(c, b.batch) THEN Flush(b)
         ELSE IF Len(b.batch) < Len(b.q) THEN Pump(c, [b EXCEPT !.batch = Append(@, b.q[Len(@) + 1])])
         ELSE IF b.batch # <<>> /\ b.dl = 0 THEN [b EXCEPT !.dl = c.dl] ELSE b
    [] b.kind = "trig" ->
         IF ~b.up THEN b
         ELSE IF Reached(c, b.batch) THEN Flush(b)
         ELSE IF b.q = <<>> THEN IF b.batch # <<>> THEN Flush(b) ELSE [b EXCEPT !.up = FALSE]
         ELSE IF b.lb /\ Head(b.q)[3] THEN Pump(c, [b EXCEPT !.q = Tail(@), !.old = @ + 1])
         ELSE Pump(c, [b EXCEPT !.q = Tail(@), !.batch = Append(@, Head(b.q))])
    [] b.kind = "stream" -> IF b.q = <<>> THEN b ELSE Flush([b EXCEPT !.batch = <<Head(b.q)>>])
\* the batch is through: acknowledged or given up
Through(b) == [b EXCEPT !.fl = "no", !.batch = <<>>, !.q = IF b.kind = "trig" THEN @ ELSE SubSeq(@, Len(b.batch) + 1, Len(@))]

Resend(b) == [b EXCEPT !.fl = "sent", !.out = Append(@, [u |-> b.u, ids |-> Ids(b.batch)])]
Tick(c, b) ==
  IF b.fl = "wait" THEN Resend(b)
  ELSE IF b.kind = "cont" /\ b.fl = "no" /\ b.dl > 0 /\ ~b.gone THEN IF b.dl = 1 THEN Flush(b) ELSE [b EXCEPT !.dl = @ - 1]
  ELSE b
Stopped(b) == [b EXCEPT !.batch = <<>>, !.fl = "no", !.dl = 0, !.up = FALSE]

\* everything settles; requests that became complete are answered, a removal that waited is done
Fin(s0, r) ==
  LET s1 == [s0 EXCEPT !.b = [x \in DOMAIN @ |-> Pump(s0.c, @[x])]]
      w == {<<t[1], {x \in t[2] : s1.b[x].up}>> : t \in s1.trg}
      rm == s1.block # 0 /\ ~s1.b[s1.block].up
      s2 == [s1 EXCEPT !.trg = {t \in w : t[2] # {}}, !.block = IF rm THEN 0 ELSE @, !.old = @ + s1.b[1].old + (IF Len(s1.b) > 1 THEN s1.b[2].old ELSE 0)]
      s3 == [s2 EXCEPT !.b = [x \in DOMAIN @ |-> [@[x] EXCEPT !.out = <<>>, !.old = 0, !.gone = @ \/ (rm /\ x = s1.block)]]] IN
  [s |-> s3, res |-> [r |-> r, req |-> [x \in DOMAIN s1.b |-> s1.b[x].out], done |-> {t[1] : t \in {y \in w : y[2] = {}}}, rm |-> rm,
                      lim |-> s3.lim, lost |-> s3.lost, old |-> s3.old]]

RECURSIVE Start(_, _, _)
Start(s, q, w) ==
  IF q = <<>> THEN [s EXCEPT !.tn = @ + 1, !.trg = @ \cup {<<s.tn + 1, w>>}]
  ELSE LET x == Head(q) IN
       IF x \notin DOMAIN s.b \/ s.b[x].kind # "trig" \/ s.b[x].gone \/ s.b[x].up THEN Start(s, Tail(q), w)
       ELSE Start([s EXCEPT !.b[x].up = TRUE, !.b[x].lb = (s.c.lb > 0)], Tail(q), w \cup {x})

GiveUp(s, x) == [s EXCEPT !.b[x] = Through(@), !.lim = @ + 1, !.lost = @ + Len(s.b[x].batch)]
Failed(s, x) == IF s.b[x].att < s.c.rc THEN [s EXCEPT !.b[x].fl = "wait", !.b[x].att = @ + 1] ELSE GiveUp(s, x)
RECURSIVE FailAll(_, _)
FailAll(s, X) == IF X = {} THEN s ELSE LET x == CHOOSE y \in X : TRUE IN FailAll(Failed(s, x), X \ {x})

Outcomes(s, op) ==
  CASE op.op = "write" ->
         IF s.b[op.x].up THEN {Fin([s EXCEPT !.n = @ + 1], "locked")}
         ELSE {Fin([s EXCEPT !.n = @ + 1, !.b[op.x].q = Append(@, <<s.n, op.size, op.old>>)], "ok")}
    [] op.op = "reply" -> {Fin(IF op.how = "ok" THEN [s EXCEPT !.b[op.x] = Through(@)] ELSE Failed(s, op.x), "ok")}
    [] op.op = "tick" -> {Fin([s EXCEPT !.b = [x \in DOMAIN @ |-> Tick(s.c, @[x])]], "ok")}
    [] op.op = "conf" -> {Fin([s EXCEPT !.c = Confs[op.i]], "ok")}
    [] op.op = "trig" -> {Fin(Start(s, op.l, {}), "ok")}
    [] op.op = "remove" -> IF s.b[op.x].up THEN {Fin([s EXCEPT !.block = op.x], "ok")}
                           ELSE {LET f == Fin([s EXCEPT !.b[op.x] = [Stopped(@) EXCEPT !.gone = TRUE]], "ok") IN [f EXCEPT !.res.rm = TRUE]}
    [] op.op = "add" -> {Fin([s EXCEPT !.b[op.x].gone = FALSE, !.b[op.x].q = IF s.b[op.x].kind = "stream" THEN <<>> ELSE @], "ok")}
    \* the process ends ("closed": its connection first) and starts again
    [] op.op = "restart" ->
         LET X == {x \in DOMAIN s.b : s.b[x].fl = "sent"}
             t == IF op.how = "closed" THEN FailAll(s, X) ELSE s IN
         {Fin([t EXCEPT !.trg = {}, !.b = [x \in DOMAIN @ |-> [Stopped(@[x]) EXCEPT !.gone = FALSE, !.q = IF t.b[x].kind = "stream" THEN <<>> ELSE @]]], "ok")}

Ops(s) ==
  UNION {
    (IF ~s.b[x].gone /\ Len(s.b[x].q) < MaxQ THEN {[op |-> "write", x |-> x, size |-> z, old |-> o] : z \in Sizes, o \in Olds} ELSE {})
    \cup (IF s.b[x].fl = "sent" THEN {[op |-> "reply", x |-> x, how |-> h] : h \in {"ok", "fail", "lost"}} ELSE {})
    \cup (IF s.block = 0 /\ "rm" \in Fam THEN (IF s.b[x].gone THEN {[op |-> "add", x |-> x]} ELSE {[op |-> "remove", x |-> x]}) ELSE {})
    : x \in DOMAIN s.b}
  \cup (IF \E x \in DOMAIN s.b : s.b[x].fl = "wait" \/ s.b[x].dl > 0 THEN {[op |-> "tick"]} ELSE {})
  \cup (IF s.block = 0
        THEN {[op |-> "trig", l |-> l] : l \in Trigs}
             \cup (IF "restart" \in Fam THEN {[op |-> "restart", how |-> h] : h \in {"down"} \cup (IF \E x \in DOMAIN s.b : s.b[x].up THEN {} ELSE {"closed"})} ELSE {})
        ELSE {})
  \cup (IF "conf" \in Fam THEN {[op |-> "conf", i |-> i] : i \in DOMAIN Confs} ELSE {})

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Inv(s) == \A x \in DOMAIN s.b :
  LET b == s.b[x] IN
  /\ b.kind # "trig" => IsPrefix(b.batch, b.q)
  /\ b.fl # "no" => b.batch # <<>> /\ ~b.gone
  /\ b.up => b.fl # "no"
StepOk(s, op, o) ==
  LET t == o.s IN
  \A x \in DOMAIN s.b :
    LET b == s.b[x] d == t.b[x] IN
    \* a record of a continuous buffer leaves it only by acknowledgement, or when the retries are used up
    /\ (b.kind = "cont" /\ ~IsPrefix(b.q, d.q)) =>
         \/ (op.op = "reply" /\ op.x = x /\ (op.how = "ok" \/ b.att >= s.c.rc)
             /\ d.q = SubSeq(b.q, Len(b.batch) + 1, Len(b.q)))
         \/ op.op = "restart" /\ op.how = "closed" /\ b.fl = "sent" /\ b.att >= s.c.rc /\ d.q = SubSeq(b.q, Len(b.batch) + 1, Len(b.q))
    \* a failed batch comes again as it was
    /\ (op.op = "tick" /\ b.fl = "wait") => o.res.req[x] = <<[u |-> b.u, ids |-> Ids(b.batch)]>>
    \* batches respect the limits
    /\ (o.res.req[x] # <<>> /\ op.op # "conf" /\ d.u > b.u) => ~Reached(t.c, SubSeq(d.batch, 1, Len(d.batch) - 1))
    \* nothing is sent twice unless it failed or was never acknowledged
    /\ \A i \in DOMAIN o.res.req[x] : o.res.req[x][i].u = b.u => op.op = "tick"
    /\ b.kind = "trig" /\ ~b.up => (d.q = b.q \/ op.op \in {"write", "trig"})
=============================================================================
