----------------------------- MODULE Aggregate -----------------------------
(* C16: the aggregate buffer of bd-buffer: producers write to a ring buffer in memory, a thread of its own
   copies every record to the ring buffer on disk, from which the consumer reads.  Both are instances of
   RingBuf; what waits in one of them (the copying thread in particular) goes on when the other changes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* cfg: over (overwriting on disk), vn, nn (bytes in memory, on disk)
CONSTANTS Cfgs, Sizes, MaxLive, Fam
R == INSTANCE RingBuf WITH Cfgs <- {}, Sizes <- {}, MaxLive <- 0, Fam <- {}

VCfg(c) == [kind |-> "vol", n |-> c.vn, e |-> 4, crc |-> FALSE, blk |-> FALSE, cur |-> FALSE, np |-> 3]
NCfg(c) == [kind |-> IF c.over THEN "nvo" ELSE "nvb", n |-> c.nn, e |-> 8, crc |-> TRUE, blk |-> TRUE, cur |-> ~c.over, np |-> 1]

\* the copying thread waits for a record
Fresh(c, n) == [c |-> c, v |-> [R!S0(VCfg(c)) EXCEPT !.cons = TRUE, !.rw = "block"], n |-> [n EXCEPT !.prod = {1}],
                cop |-> "read", stop |-> FALSE, x |-> "no"]
S0(c) == Fresh(c, R!S0(NCfg(c)))

\* k: the state s while something is going on: evs (completions to be handled), done, dv, dn (counters)
K(s) == [s |-> s, evs |-> <<>>, done |-> <<>>, dv |-> R!Z, dn |-> R!Z, r |-> "ok"]
Ev(side, ds) == [i \in DOMAIN ds |-> [side |-> side, a |-> ds[i].a, r |-> ds[i].r]]
One(S) == CHOOSE x \in S : TRUE

Do(k, side, op) ==
  LET o == One(R!Outcomes(IF side = "v" THEN k.s.v ELSE k.s.n, op)) IN
  IF side = "v" THEN [k EXCEPT !.s.v = o.s, !.evs = @ \o Ev("v", o.res.done), !.dv = R!Plus(@, o.res.d), !.r = o.res.r]
  ELSE [k EXCEPT !.s.n = o.s, !.evs = @ \o Ev("n", o.res.done), !.dn = R!Plus(@, o.res.d), !.r = o.res.r]

\* shutting down: no more writes, outstanding reservations, flush when overwriting, then stop the thread
ShutEnd(k) == LET a == Do([k EXCEPT !.s.stop = TRUE, !.s.x = "done"], "v", [op |-> "shutdown"]) IN Do(a, "n", [op |-> "shutdown"])
ShutFlush(k) ==
  IF ~k.s.c.over THEN ShutEnd(k)
  ELSE LET a == Do(k, "v", [op |-> "drain", a |-> "x"]) IN
       IF a.r = "wait" THEN [a EXCEPT !.s.x = "flush"] ELSE ShutEnd(a)
ShutAwait(k) ==
  LET a == Do(Do(k, "v", [op |-> "lock"]), "v", [op |-> "await", a |-> "x"]) IN
  IF a.r = "wait" THEN [a EXCEPT !.s.x = "await"] ELSE ShutFlush(a)
ShutGoOn(k) == LET a == IF k.s.x = "await" THEN ShutFlush(k) ELSE ShutEnd(k) IN
               [a EXCEPT !.done = IF a.s.x = "done" THEN Append(@, [a |-> "x", r |-> "ok"]) ELSE @]

RECURSIVE CopyRead(_), CopyWrite(_, _)
\* the thread has reserved space on disk (r = "ok"), or could not
CopyWrite(k, r) ==
  IF r = "wait" THEN [k EXCEPT !.s.cop = "write"]
  ELSE IF r = "ok" THEN CopyRead(Do(Do(k, "n", [op |-> "commit", p |-> 1]), "v", [op |-> "finish"]))
  \* a record that can never be written is dropped
  ELSE IF r \in {"Unavailable", "InvalidArgument"} THEN CopyRead(Do(k, "v", [op |-> "finish"]))
  ELSE [k EXCEPT !.s.cop = "gone"]
Copied(k, r) ==
  IF r = "wait" THEN [k EXCEPT !.s.cop = "read"]
  ELSE IF r = "Aborted" THEN [k EXCEPT !.s.cop = "gone"]
  ELSE LET rec == k.s.v.rd[1]
           w == Do(k, "n", [op |-> "reserve", p |-> 1, id |-> rec.id, len |-> rec.len, block |-> TRUE]) IN
       CopyWrite(w, w.r)
CopyRead(k) == IF k.s.stop THEN [k EXCEPT !.s.cop = "gone"]
               ELSE LET a == Do(k, "v", [op |-> "start", how |-> "block"]) IN Copied(a, a.r)

RECURSIVE Pump(_)
Pump(k) ==
  IF k.evs = <<>> THEN k
  ELSE LET e == k.evs[1] t == [k EXCEPT !.evs = Tail(@)] IN
       IF e.side = "v" /\ e.a = "c" THEN Pump(Copied(t, e.r))
       ELSE IF e.side = "n" /\ e.a = "p1" THEN Pump(CopyWrite(t, e.r))
       ELSE IF e.side = "v" /\ e.a = "x"
            THEN Pump(ShutGoOn(t))
       ELSE Pump([t EXCEPT !.done = Append(@, [a |-> e.a, r |-> e.r])])

\* r: the result of the operation itself
End(k, r) == LET p == Pump(k) IN {[s |-> p.s, res |-> [r |-> r, done |-> p.done, dv |-> p.dv, dn |-> p.dn]]}
At(s, side, op) == LET k == Do(K(s), side, op) IN End(k, k.r)

\* dropping everything shuts down first; memory is gone
Reopen(s) ==
  LET a == Do(K(s), "n", [op |-> "dropc"])
      b == IF s.n.cons THEN Pump(a) ELSE K(s)
      z == IF b.s.x = "no" THEN Pump(ShutAwait(b)) ELSE b IN
  {[s |-> Fresh(s.c, R!Image(z.s.n)), res |-> [r |-> "ok", done |-> z.done, dv |-> z.dv, dn |-> z.dn]]}

Outcomes(s, op) ==
  CASE op.op \in {"regp", "dropp", "reserve", "commit", "lock", "unlock", "await"} -> At(s, "v", op)
    [] op.op \in {"regc", "dropc", "start", "stop", "finish", "drain"} -> At(s, "n", op)
    [] op.op = "flush" -> At(s, "v", [op |-> "drain", a |-> op.a])
    [] op.op = "shutdown" -> IF s.x # "no" THEN End(K(s), "ok")
                             ELSE LET k == ShutAwait(K(s)) IN End(k, IF k.s.x = "done" THEN "ok" ELSE "wait")
    \* the counters are not observed across a crash
    [] op.op = "crash" -> {[s |-> Fresh(s.c, R!Image(s.n)), res |-> [r |-> "ok", done |-> <<>>, dv |-> R!Z, dn |-> R!Z]]}
    [] op.op = "reopen" -> Reopen(s)

-----------------------------------------------------------------------------
Ids(s) == R!Ids(s.v) \cup R!Ids(s.n)
FreshId(s) == CHOOSE i \in 1 .. 100 : i \notin Ids(s) /\ \A j \in 1 .. i - 1 : j \in Ids(s)
Busy(s) == s.n.rw # "none" \/ s.n.dw # {} \/ (s.v.dw # {}) \/ s.v.aw # {} \/ s.x \in {"await", "flush"}
Held(s) == {p \in s.v.prod : R!Mine(s.v, p) # <<>>}
CFree(s) == s.n.cons /\ s.n.rw = "none"
When(f, x) == IF f THEN x ELSE {}

Ops(s) ==
  {[op |-> "regp", p |-> p] : p \in {1, 2} \ s.v.prod}
  \cup {[op |-> "reserve", p |-> p, id |-> FreshId(s), len |-> l, block |-> FALSE] : p \in {q \in s.v.prod : Cardinality(Ids(s)) < MaxLive}, l \in Sizes}
  \cup {[op |-> "commit", p |-> p] : p \in Held(s)}
  \cup {[op |-> "dropp", p |-> p] : p \in s.v.prod \ Held(s)}
  \cup When(~s.n.cons, {[op |-> "regc"]})
  \cup When(CFree(s), {[op |-> "start", how |-> "no"], [op |-> "finish"]})
  \cup When(CFree(s) /\ "wait" \in Fam /\ s.x \in {"no", "done"}, {[op |-> "start", how |-> h] : h \in {"block", "async"}})
  \cup When(s.n.rw = "async", {[op |-> "stop"]})
  \cup When(CFree(s) /\ s.c.over, {[op |-> "dropc"]})
  \cup {[op |-> "flush", a |-> a] : a \in {"f1", "f2"} \ s.v.dw}
  \cup When("drain" \in Fam, {[op |-> "drain", a |-> a] : a \in {"d1"} \ s.n.dw})
  \cup When("lock" \in Fam, When(s.v.locks < 2, {[op |-> "lock"]}) \cup When(s.v.locks > (IF s.x = "no" THEN 0 ELSE 1) + (IF s.v.aw \ {"x"} = {} THEN 0 ELSE 1), {[op |-> "unlock"]}))
  \cup When("lock" \in Fam /\ s.v.locks > 0 /\ s.x = "no", {[op |-> "await", a |-> a] : a \in {"a1"} \ s.v.aw})
  \* a shutdown that waits for a reservation races with the copying of that record when not overwriting, and
  \* with a reader that waits for it; what comes of it is left open, so these two are not tried
  \cup When("shutdown" \in Fam /\ s.x \notin {"await", "flush"} /\ (Held(s) = {} \/ (s.c.over /\ s.n.rw = "none")), {[op |-> "shutdown"]})
  \cup When("crash" \in Fam /\ ~Busy(s), {[op |-> "crash"]})
  \cup When("crash" \in Fam /\ ~Busy(s) /\ Held(s) = {}, {[op |-> "reopen"]})

-----------------------------------------------------------------------------
IdSeq(rd) == [i \in DOMAIN rd |-> rd[i].id]
Inv(s) ==
  /\ R!Inv(s.v) /\ R!Inv(s.n)
  \* nothing stays in memory unless there is no room on disk (or the copying thread was stopped)
  /\ s.v.rd # <<>> => s.cop # "read"
  /\ s.cop = "write" => s.n.wr.p = 1 /\ s.n.wr.id = s.v.rd[1].id
  \* a record is on disk, or in memory, or lost
  /\ \A i \in 2 .. Len(s.v.rd) : \A j \in DOMAIN s.n.rd : s.v.rd[i].id # s.n.rd[j].id

StepOk(s, op, o) ==
  \* write order: the disk holds what it held, then what was in memory, then what has just been committed
  /\ op.op # "crash" =>
       LET before == IdSeq(s.n.rd) \o (IF s.cop = "gone" THEN <<>> ELSE IdSeq(s.v.rd)) \o (IF op.op \in {"commit"} THEN IdSeq(s.v.pend) ELSE <<>>) IN
       R!SubSeqOf(IdSeq(o.s.n.rd), before)
  \* a completed flush leaves nothing older in memory
  /\ op.op = "flush" /\ o.res.r = "ok" => o.s.v.rd = <<>>
  /\ s.v.dw # {} /\ o.s.v.dw = {} /\ op.op # "reopen" /\ o.res.dv[3] = 0 =>
        \A k \in DOMAIN s.v.rd : s.v.rd[k].id = s.v.dt =>
           \A i \in 1 .. k : s.v.rd[i].id \notin {o.s.v.rd[j].id : j \in DOMAIN o.s.v.rd} \/ op.op = "flush"
  \* an orderly shutdown of an overwriting buffer leaves nothing in memory
  /\ s.c.over /\ s.x # "done" /\ o.s.x = "done" => o.s.v.rd = <<>>
=============================================================================
