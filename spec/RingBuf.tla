------------------------------ MODULE RingBuf ------------------------------
(* C13, C14, C15: the ring buffers of bd-buffer, in memory ("vol"), on disk with overwriting ("nvo") and
   on disk without ("nvb"), read by a plain or by a cursor consumer.

   The buffer is a circle of n bytes.  rd holds the committed records from the oldest unreleased one to the
   newest; pend what was reserved behind them and is not readable yet.  Every operation is made by an actor
   and either returns or waits; the result of an operation lists the waiting operations it let complete.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* cfg: kind, n (bytes), e (bytes per record besides its data), crc, blk (wait for a reader in the way),
\*      cur (cursor consumer), np (producers)
CONSTANTS Cfgs, Sizes, MaxLive, Fam

Rec(id, off, len, bad) == [id |-> id, off |-> off, len |-> len, bad |-> bad]
NoW == [p |-> 0]
NoR == "none"

S0(cfg) == [c |-> cfg, rd |-> <<>>, pend |-> <<>>, nws |-> 0, prod |-> {}, cons |-> FALSE, rr |-> FALSE, cur |-> 0,
            locks |-> 0, shut |-> FALSE, wr |-> NoW, rw |-> NoR, dw |-> {}, dt |-> 0, aw |-> {}]

Vol(s) == s.c.kind = "vol"

\* counters: records written, read, overwritten, refused, corrupted; bytes written, read; total bytes
\* written, read; bytes overwritten, refused; total data loss
Z == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Plus(a, b) == [i \in 1 .. 12 |-> a[i] + b[i]]
DWritten(s, l) == <<1, 0, 0, 0, 0, l, 0, l + s.c.e, 0, 0, 0, 0>>
DRead(s, l) == <<0, 1, 0, 0, 0, 0, l, 0, l + s.c.e, 0, 0, 0>>
DOver(s, l) == <<0, 0, 1, 0, 0, 0, 0, 0, 0, l, 0, 0>>
DRefused(l) == <<0, 0, 0, 1, 0, 0, 0, 0, 0, 0, l, 0>>
DBadSize == <<0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>
DCorrupt == <<0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0>>

-----------------------------------------------------------------------------
(* Geometry *)
Sz(s, r) == r.len + s.c.e
Meet(alo, ahi, blo, bhi) == alo <= ahi /\ blo <= bhi /\ alo <= bhi /\ blo <= ahi
\* where a record of sz bytes goes
Off(s, sz) == IF s.nws + sz <= s.c.n THEN s.nws ELSE 0
\* does it, or the gap it leaves at the end, touch r?
Hits(s, sz, r) == \/ Meet(Off(s, sz), Off(s, sz) + sz - 1, r.off, r.off + Sz(s, r) - 1)
                  \/ (s.nws + sz > s.c.n /\ Meet(s.nws, s.c.n - 1, r.off, r.off + Sz(s, r) - 1))

\* records a cursor has passed and that count as read, oldest first (holes that were passed by silently do not)
Passed(s) == SelectSeq(SubSeq(s.rd, 1, s.cur), LAMBDA r : r.bad # 2)
\* what the reader holds that is oldest
Held(s) == IF s.c.cur THEN (IF Passed(s) = <<>> THEN {} ELSE {Passed(s)[1]}) ELSE IF s.rr THEN {s.rd[1]} ELSE {}

\* What was reserved and not committed, the oldest of it
FirstPend(s) == IF Vol(s) /\ s.pend # <<>> THEN {s.pend[1]} ELSE {}

Mine(s, p) == SelectSeq(s.pend, LAMBDA r : r.own = p)

Ids(s) == {s.rd[i].id : i \in DOMAIN s.rd} \cup {s.pend[i].id : i \in DOMAIN s.pend} \cup {s.wr.id : x \in IF s.wr.p = 0 THEN {} ELSE {1}}
FreshId(s) == CHOOSE i \in 1 .. 100 : i \notin Ids(s) /\ \A j \in 1 .. i - 1 : j \in Ids(s)

-----------------------------------------------------------------------------
(* Reservations.  Attempts return [s, r, d] where r = "wait-r" or "wait-a" means waiting for the reader, or
   for the release of older records. *)
RECURSIVE DropOld(_, _, _)
\* overwrites the oldest records in the way
DropOld(s, sz, d) ==
  IF s.rd # <<>> /\ Hits(s, sz, s.rd[1])
  THEN DropOld([s EXCEPT !.rd = Tail(@), !.cur = IF @ > 0 THEN @ - 1 ELSE 0], sz, Plus(d, DOver(s, s.rd[1].len)))
  ELSE [s |-> s, d |-> d]

Place(s, p, id, len) ==
  LET sz == len + s.c.e
      k == DropOld(s, sz, Z) IN
  [s |-> [k.s EXCEPT !.pend = Append(@, [id |-> id, off |-> Off(s, sz), len |-> len, com |-> FALSE, own |-> p]),
                     !.nws = Off(s, sz) + sz, !.wr = NoW],
   r |-> "ok", d |-> k.d]

\* from the point where older records must make way
Adv(s, p, id, len, block) ==
  LET sz == len + s.c.e IN
  IF s.c.kind = "nvb" /\ s.rd # <<>> /\ Hits(s, sz, s.rd[1])
  THEN IF block THEN [s |-> [s EXCEPT !.wr = [p |-> p, id |-> id, len |-> len, block |-> block, ph |-> "a"]], r |-> "wait", d |-> Z]
       ELSE [s |-> [s EXCEPT !.wr = NoW], r |-> "Unavailable", d |-> Z]
  ELSE Place(s, p, id, len)

\* from the point where a reader must get out of the way
Rdr(s, p, id, len, block) ==
  LET sz == len + s.c.e IN
  IF \E h \in Held(s) : Hits(s, sz, h)
  THEN IF s.c.blk THEN [s |-> [s EXCEPT !.wr = [p |-> p, id |-> id, len |-> len, block |-> block, ph |-> "r"]], r |-> "wait", d |-> Z]
       ELSE [s |-> s, r |-> "ResourceExhausted", d |-> DRefused(len)]
  ELSE IF \E h \in FirstPend(s) : Hits(s, sz, h) THEN [s |-> s, r |-> "ResourceExhausted", d |-> DRefused(len)]
  ELSE Adv(s, p, id, len, block)

Reserve(s, p, id, len, block) ==
  IF Mine(s, p) # <<>> THEN [s |-> s, r |-> "InvalidArgument", d |-> Z]
  ELSE IF s.locks > 0 \/ s.shut THEN [s |-> s, r |-> "FailedPrecondition", d |-> DRefused(len)]
  ELSE IF len <= 0 \/ len + s.c.e > s.c.n THEN [s |-> s, r |-> "InvalidArgument", d |-> DBadSize]
  ELSE Rdr(s, p, id, len, block)

AsRec(r, bad) == Rec(r.id, r.off, r.len, bad)

RECURSIVE PopCom(_, _)
PopCom(s, d) ==
  IF s.pend # <<>> /\ s.pend[1].com
  THEN PopCom([s EXCEPT !.rd = Append(@, AsRec(s.pend[1], 0)), !.pend = Tail(@)], Plus(d, DWritten(s, s.pend[1].len)))
  ELSE [s |-> s, r |-> "ok", d |-> d]

CommitVol(s, p) == PopCom([s EXCEPT !.pend = [i \in DOMAIN @ |-> IF @[i].own = p THEN [@[i] EXCEPT !.com = TRUE, !.own = -1] ELSE @[i]]], Z)

CommitNv(s, p) ==
  LET m == Mine(s, p)[1]
      holes == SelectSeq(s.pend, LAMBDA r : r.own # p)
      \* a cursor that stood at the end goes straight to the new record
      past == s.c.cur /\ s.cur = Len(s.rd)
      hs == [i \in DOMAIN holes |-> AsRec(holes[i], IF past THEN 2 ELSE 1)] IN
  [s |-> IF s.rd = <<>> THEN [s EXCEPT !.rd = <<AsRec(m, 0)>>, !.pend = <<>>]
         ELSE [s EXCEPT !.rd = @ \o hs \o <<AsRec(m, 0)>>, !.pend = <<>>, !.cur = IF past THEN @ + Len(hs) ELSE @],
   r |-> "ok", d |-> DWritten(s, m.len)]

Commit(s, p) ==
  IF Mine(s, p) = <<>> THEN [s |-> s, r |-> "InvalidArgument", d |-> Z]
  ELSE IF Vol(s) THEN CommitVol(s, p) ELSE CommitNv(s, p)

-----------------------------------------------------------------------------
(* Reading *)
RECURSIVE AutoRel(_, _)
\* corrupt records a cursor has skipped are released with what is before them
AutoRel(s, d) ==
  LET q == Passed(s) IN
  IF s.c.cur /\ q # <<>> /\ q[1].bad = 1
  THEN LET k == CHOOSE i \in 1 .. s.cur : s.rd[i] = q[1] IN
       AutoRel([s EXCEPT !.rd = SubSeq(@, k + 1, Len(@)), !.cur = @ - k], Plus(d, DRead(s, q[1].len)))
  ELSE [s |-> s, d |-> d]

RECURSIVE Read(_, _)
\* skips what is corrupt; r = "none" when there is nothing to read
Read(s, d) ==
  IF s.c.cur
  THEN IF s.cur >= Len(s.rd) THEN [s |-> s, r |-> "none", d |-> d]
       ELSE IF s.rd[s.cur + 1].bad # 0
            THEN LET k == AutoRel([s EXCEPT !.cur = @ + 1], Plus(d, DCorrupt)) IN Read(k.s, k.d)
            ELSE [s |-> [s EXCEPT !.cur = @ + 1], r |-> "rec:" \o ToString(s.rd[s.cur + 1].id), d |-> d]
  ELSE IF s.rd = <<>> THEN [s |-> s, r |-> "none", d |-> d]
       ELSE IF s.rd[1].bad # 0 THEN Read([s EXCEPT !.rd = Tail(@)], Plus(Plus(d, DCorrupt), DRead(s, s.rd[1].len)))
       ELSE [s |-> [s EXCEPT !.rr = TRUE], r |-> "rec:" \o ToString(s.rd[1].id), d |-> d]

\* how: "no" (do not wait), "block", "async"
Start(s, how) ==
  IF ~s.c.cur /\ s.rr THEN [s |-> s, r |-> "InvalidArgument", d |-> Z]
  ELSE LET k == Read(s, Z) IN
       IF k.r # "none" THEN k
       ELSE IF how = "no" THEN [k EXCEPT !.r = "Unavailable"]
       ELSE IF how = "block" /\ s.shut THEN [k EXCEPT !.r = "Aborted"]
       ELSE [k EXCEPT !.r = "wait", !.s.rw = how]

Finish(s) ==
  IF s.c.cur
  THEN LET q == Passed(s) IN
       IF q = <<>> THEN [s |-> s, r |-> "FailedPrecondition", d |-> Z]
       ELSE LET k == CHOOSE i \in 1 .. s.cur : s.rd[i] = q[1]
                a == AutoRel([s EXCEPT !.rd = SubSeq(@, k + 1, Len(@)), !.cur = @ - k], DRead(s, q[1].len)) IN
            [s |-> a.s, r |-> "ok", d |-> a.d]
  ELSE IF ~s.rr THEN [s |-> s, r |-> "InvalidArgument", d |-> Z]
       ELSE [s |-> [s EXCEPT !.rd = Tail(@), !.rr = FALSE], r |-> "ok", d |-> DRead(s, s.rd[1].len)]

\* a plain reader that goes away leaves a record whose checksum it has already cleared
DropC(s) == [s |-> [s EXCEPT !.cons = FALSE, !.rr = FALSE,
                             !.rd = IF s.rr /\ s.c.crc THEN <<[@[1] EXCEPT !.bad = 1]>> \o Tail(@) ELSE @],
             r |-> "ok", d |-> Z]

-----------------------------------------------------------------------------
(* What a crash leaves in the file *)
Image(s) ==
  LET rd == IF s.rr /\ s.c.crc THEN <<[s.rd[1] EXCEPT !.bad = 1]>> \o Tail(s.rd) ELSE s.rd IN
  [S0(s.c) EXCEPT !.rd = [i \in DOMAIN rd |-> [rd[i] EXCEPT !.bad = IF @ = 0 THEN 0 ELSE 1]], !.nws = s.nws,
                  !.pend = [i \in DOMAIN s.pend |-> [s.pend[i] EXCEPT !.own = 0]]]

\* bytes of the file that belong to no record to be delivered
Unused(s) == (0 .. s.c.n - 1) \ UNION {s.rd[i].off .. s.rd[i].off + s.rd[i].len + s.c.e - 1 : i \in DOMAIN s.rd}

GoodIds(rd) == [i \in DOMAIN SelectSeq(rd, LAMBDA r : r.bad = 0) |-> SelectSeq(rd, LAMBDA r : r.bad = 0)[i].id]
NBad(rd) == Cardinality({i \in DOMAIN rd : rd[i].bad # 0})

\* Opens a copy of the file, damaged as k says, reads everything, then writes and reads once.
\* wild: what is delivered is only bounded (see MatchProbe).
Probe(s, op) ==
  LET im == Image(s)
      rd == im.rd
      hit == IF op.k = "rec" THEN [rd EXCEPT ![op.i].bad = 1] ELSE rd IN
  CASE op.k \in {"none", "free", "rec"} -> [open |-> "ok", ids |-> GoodIds(hit), corrupted |-> NBad(hit), lost |-> 0, again |-> TRUE, wild |-> FALSE]
    [] op.k = "size" -> [open |-> "ok", ids |-> GoodIds(rd), corrupted |-> op.i, lost |-> 0, again |-> TRUE, wild |-> TRUE]
    [] op.k = "torn" -> [open |-> "ok", ids |-> <<>>, corrupted |-> 0, lost |-> 0, again |-> TRUE, wild |-> TRUE]
    [] op.k = "hdr" -> [open |-> "DataLoss", ids |-> <<>>, corrupted |-> 0, lost |-> 0, again |-> TRUE, wild |-> FALSE]
    [] op.k = "resize" -> [open |-> "ok", ids |-> <<>>, corrupted |-> 0, lost |-> 0, again |-> TRUE, wild |-> FALSE]

RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF a[1] = b[1] THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))

\* What a damaged file may show.  Never a record that was not written (foreign).
MatchProbe(s, op, b) ==
  LET p == Probe(s, op)
      full == GoodIds(Image(s).rd) IN
  /\ b.foreign = 0
  /\ CASE op.k \in {"none", "free", "rec", "resize"} ->
            b.open = p.open /\ b.good = p.ids /\ Len(b.ids) = Len(b.good) /\ b.corrupted = p.corrupted /\ b.lost = 0 /\ b.again = "ok"
       \* (bytes of the header that carry nothing may be damaged without effect)
       [] op.k = "hdr" -> \/ b.open = "DataLoss" /\ b.ids = <<>> /\ b.again = "ok"
                          \/ b.open = "ok" /\ b.good = full /\ Len(b.ids) = Len(b.good) /\ b.again = "ok"
       \* all records before the damaged one, then possibly some of the later ones, and the loss is counted
       [] op.k = "size" -> /\ b.open = "ok" /\ b.again = "ok" /\ b.corrupted + b.lost > 0
                           /\ SubSeqOf(GoodIds(SubSeq(Image(s).rd, 1, op.i - 1)), b.good)
                           /\ Len(b.ids) = Len(b.good)
                           /\ ~s.c.cur => SubSeqOf(b.good, full)
       [] op.k = "torn" -> b.again = "ok"

-----------------------------------------------------------------------------
(* Everything that waits and can go on does. *)
Done(a, r) == <<[a |-> a, r |-> r]>>

WakeW(k, ev) ==
  LET s == k.s w == s.wr IN
  IF w.p = 0 THEN k
  ELSE IF s.shut THEN [k EXCEPT !.s.wr = NoW, !.done = @ \o Done("p" \o ToString(w.p), "Aborted")]
  ELSE IF ev \notin {"finish", "start", "dropc"} THEN k
  ELSE LET a == IF w.ph = "r" THEN Rdr(s, w.p, w.id, w.len, w.block) ELSE Adv(s, w.p, w.id, w.len, w.block) IN
       IF a.r = "wait" THEN [k EXCEPT !.s = a.s]
       ELSE [s |-> a.s, d |-> Plus(k.d, a.d), done |-> k.done \o Done("p" \o ToString(w.p), a.r)]

WakeR(k) ==
  LET s == k.s IN
  IF s.rw = NoR THEN k
  ELSE LET a == Read(s, Z) IN
       IF a.r # "none" /\ ~(s.rw = "block" /\ s.shut) THEN [s |-> [a.s EXCEPT !.rw = NoR], d |-> Plus(k.d, a.d), done |-> k.done \o Done("c", a.r)]
       ELSE IF s.rw = "block" /\ s.shut THEN [k EXCEPT !.s.rw = NoR, !.done = @ \o Done("c", "Aborted")]
       ELSE [k EXCEPT !.s = a.s, !.d = Plus(@, a.d)]

SetDone(as, r) == [i \in 1 .. Cardinality(as) |-> [a |-> SetToSeq(as)[i], r |-> r]]

WakeD(k) ==
  IF k.s.dw # {} /\ ~\E i \in DOMAIN k.s.rd : k.s.rd[i].id = k.s.dt
  THEN [k EXCEPT !.s.dw = {}, !.s.dt = 0, !.done = @ \o SetDone(k.s.dw, "ok")]
  ELSE k

WakeA(k) ==
  IF k.s.aw # {} /\ ~\E i \in DOMAIN k.s.pend : k.s.pend[i].own # 0
  THEN [k EXCEPT !.s.aw = {}, !.done = @ \o SetDone(k.s.aw, "ok")]
  ELSE k

Settle(a, ev) ==
  LET k == WakeA(WakeD(WakeR(WakeW([s |-> a.s, d |-> a.d, done |-> <<>>], ev)))) IN
  {[s |-> k.s, res |-> [r |-> a.r, done |-> k.done, d |-> k.d]]}

Ret(s, r) == [s |-> s, r |-> r, d |-> Z]

Outcomes(s, op) ==
  CASE op.op = "regp" -> Settle(IF ~Vol(s) /\ s.prod # {} THEN Ret(s, "FailedPrecondition") ELSE Ret([s EXCEPT !.prod = @ \cup {op.p}], "ok"), "")
    [] op.op = "dropp" -> Settle(Ret([s EXCEPT !.prod = @ \ {op.p}, !.pend = [i \in DOMAIN @ |-> IF @[i].own = op.p THEN [@[i] EXCEPT !.own = 0] ELSE @[i]]], "ok"), "")
    [] op.op = "regc" -> Settle(IF s.cons THEN Ret(s, "FailedPrecondition") ELSE Ret([s EXCEPT !.cons = TRUE], "ok"), "")
    \* a kind of consumer this buffer does not have
    [] op.op = "regx" -> Settle(Ret(s, IF Vol(s) THEN "Unimplemented" ELSE "FailedPrecondition"), "")
    [] op.op = "dropc" -> Settle(DropC(s), "dropc")
    [] op.op = "reserve" -> Settle(Reserve(s, op.p, op.id, op.len, op.block), "")
    [] op.op = "commit" -> Settle(Commit(s, op.p), "commit")
    [] op.op = "start" -> Settle(Start(s, op.how), "start")
    [] op.op = "stop" -> Settle(Ret([s EXCEPT !.rw = NoR], "ok"), "")
    [] op.op = "finish" -> Settle(Finish(s), "finish")
    [] op.op = "lock" -> Settle(Ret([s EXCEPT !.locks = @ + 1], "ok"), "")
    [] op.op = "unlock" -> Settle(Ret([s EXCEPT !.locks = @ - 1], "ok"), "")
    [] op.op = "shutdown" -> Settle(Ret([s EXCEPT !.shut = TRUE], "ok"), "shutdown")
    [] op.op = "drain" -> Settle(IF s.rd = <<>> THEN Ret(s, "ok")
                                 ELSE Ret([s EXCEPT !.dw = @ \cup {op.a}, !.dt = s.rd[Len(s.rd)].id], "wait"), "")
    [] op.op = "await" -> Settle(IF \E i \in DOMAIN s.pend : s.pend[i].own # 0 THEN Ret([s EXCEPT !.aw = @ \cup {op.a}], "wait")
                                 ELSE Ret(s, "ok"), "")
    [] op.op \in {"crash", "reopen"} -> Settle(Ret(Image(s), "ok"), "")
    [] op.op = "probe" -> {[s |-> s, res |-> [r |-> "ok", done |-> <<>>, d |-> Z, probe |-> [st |-> s, op |-> op]]]}

Waiting(s) == s.wr.p # 0 \/ s.rw # NoR \/ s.dw # {} \/ s.aw # {}
\* handles of the actor that are free to be used
PFree(s, p) == p \in s.prod /\ s.wr.p # p
CFree(s) == s.cons /\ s.rw = NoR

When(f, x) == IF f THEN x ELSE {}

Ops(s) ==
  {[op |-> "regp", p |-> p] : p \in (1 .. s.c.np) \ s.prod}
  \cup {[op |-> "reserve", p |-> p, id |-> FreshId(s), len |-> l, block |-> b] :
           p \in {q \in s.prod : PFree(s, q) /\ (Cardinality(Ids(s)) < MaxLive)}, l \in Sizes,
           b \in IF s.c.kind = "nvb" THEN BOOLEAN ELSE {TRUE}}
  \cup {[op |-> "commit", p |-> p] : p \in {q \in s.prod : PFree(s, q)}}
  \cup When(~s.cons \/ "misuse" \in Fam, {[op |-> "regc"]})
  \cup When("misuse" \in Fam /\ (s.c.kind # "nvb" \/ s.cons), {[op |-> "regx"]})
  \cup When(CFree(s), {[op |-> "start", how |-> "no"], [op |-> "finish"]})
  \cup When(CFree(s) /\ "wait" \in Fam, {[op |-> "start", how |-> h] : h \in {"block", "async"}})
  \cup When(s.rw = "async", {[op |-> "stop"]})
  \cup When(CFree(s) /\ ~s.c.cur /\ "handles" \in Fam, {[op |-> "dropc"]})
  \cup When("handles" \in Fam, {[op |-> "dropp", p |-> p] : p \in {q \in s.prod : PFree(s, q) /\ (Mine(s, q) = <<>> \/ s.c.crc)}})
  \cup When("lock" \in Fam, When(s.locks < 2, {[op |-> "lock"]}) \cup When(s.locks > (IF s.aw = {} THEN 0 ELSE 1), {[op |-> "unlock"]}))
  \cup When("lock" \in Fam /\ s.locks > 0, {[op |-> "await", a |-> a] : a \in {"a1", "a2"} \ s.aw})
  \cup When("shutdown" \in Fam, {[op |-> "shutdown"]})
  \cup When("drain" \in Fam, {[op |-> "drain", a |-> a] : a \in {"d1", "d2"} \ s.dw})
  \cup When("crash" \in Fam /\ ~Vol(s) /\ ~Waiting(s), {[op |-> o] : o \in {"crash", "reopen"}})
  \cup When("probe" \in Fam /\ ~Vol(s),
       {[op |-> "probe", k |-> k, i |-> 0, x |-> 0, off |-> 0, len |-> 0, free |-> <<>>] : k \in {"none", "resize", "hdr", "torn"}}
       \cup {[op |-> "probe", k |-> k, i |-> i, x |-> 0, off |-> s.rd[i].off, len |-> s.rd[i].len, free |-> <<>>] : k \in {"rec", "size"}, i \in DOMAIN s.rd}
       \cup {[op |-> "probe", k |-> "free", i |-> 0, x |-> 0, off |-> 0, len |-> 0, free |-> SetToSeq(Unused(s))]})

-----------------------------------------------------------------------------
(* The properties, stated on the specification *)
Live(s) == {[lo |-> s.rd[i].off, hi |-> s.rd[i].off + Sz(s, s.rd[i]) - 1] : i \in DOMAIN s.rd}
           \cup {[lo |-> s.pend[i].off, hi |-> s.pend[i].off + Sz(s, s.pend[i]) - 1] : i \in {j \in DOMAIN s.pend : s.pend[j].own # 0}}

Inv(s) ==
  \* nothing that is readable, being read or being written shares a byte with another
  /\ Cardinality(Live(s)) = Len(s.rd) + Cardinality({j \in DOMAIN s.pend : s.pend[j].own # 0})
  /\ \A a, b \in Live(s) : a # b => ~Meet(a.lo, a.hi, b.lo, b.hi)
  /\ \A a \in Live(s) : a.lo >= 0 /\ a.hi < s.c.n
  /\ s.cur <= Len(s.rd)
  \* nobody waits without a reason
  /\ s.rw # NoR => Read(s, Z).r = "none"
  /\ s.wr.p # 0 => ~s.shut /\ \E i \in DOMAIN s.rd : Hits(s, s.wr.len + s.c.e, s.rd[i])
  /\ s.dw # {} => s.rd # <<>>

IdSeq(rd) == [i \in DOMAIN rd |-> rd[i].id]
StepOk(s, op, o) ==
  LET gone == {s.rd[i].id : i \in DOMAIN s.rd} \ {o.s.rd[i].id : i \in DOMAIN o.s.rd} IN
  \* records leave by being released, as corrupt, or (never without overwriting) by being overwritten, and are counted
  /\ s.c.kind = "nvb" => o.res.d[3] = 0
  /\ Cardinality(gone) > 0 =>
       \/ op.op \in {"finish", "start", "reserve", "dropc", "crash", "reopen"}
       \/ (op.op \in {"commit"} /\ s.rw # NoR)
  /\ s.c.kind = "nvb" /\ op.op = "reserve" => gone = {}
  \* the oldest go first
  /\ \A i \in 1 .. Len(s.rd) : s.rd[i].id \in gone => \A j \in 1 .. i : s.rd[j].id \in gone
  \* refusals change nothing
  /\ o.res.r \in {"InvalidArgument", "FailedPrecondition", "ResourceExhausted"} /\ op.op # "start" => o.s = s
=============================================================================
