---------------------------- MODULE StatsFiles ----------------------------
(* C22: aggregation of client statistics into snapshot files and their upload (bd-client-stats).
   What is recorded is a bag <<counter c, dynamic counter d, samples of 1.0, samples of 200.5, flush times>>.
   File operations may fail (f: what fails during an operation) and the process may end during one (c). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Fam, Confs, MaxNow

Zero == <<0, 0, 0, 0, 0>>
Plus(a, b) == [i \in 1 .. 5 |-> a[i] + b[i]]
M(m, n) == CASE m = "c" -> <<n, 0, 0, 0, 0>> [] m = "d" -> <<0, n, 0, 0, 0>> [] m = "h1" -> <<0, 0, n, 0, 0>> [] m = "h2" -> <<0, 0, 0, n, 0>>
Front1(q) == SubSeq(q, 1, Len(q) - 1)
Last(q) == q[Len(q)]

(* mem: recorded, not yet flushed; mi: index in memory (once loaded: in), sequence of [id, s, e]; pi: index on disk;
   fs: snapshot files; out: id of the outstanding upload; offs: offers by number [id, b, s, e];
   made, done: everything flushed, everything in acknowledged snapshots (acks); clean: nothing failed or hit the limit *)
S0(c) == [mem |-> Zero, now |-> 0, max |-> c.max, win |-> c.win, in |-> FALSE, mi |-> <<>>, pi |-> [k |-> "none", v |-> <<>>],
          fs |-> {}, next |-> 1, out |-> 0, offs |-> <<>>, made |-> Zero, done |-> Zero, acks |-> {}, clean |-> TRUE,
          st |-> "run", f |-> "", c |-> "", ups |-> <<>>]

On(s) == s.st = "run"
\* --- file operations
WIdx(s, v) ==
  IF ~On(s) THEN s
  ELSE IF s.f = "widx" THEN [s EXCEPT !.st = "err", !.clean = FALSE]
  ELSE CASE s.c = "widx:before" -> [s EXCEPT !.st = "crash", !.clean = FALSE]
         [] s.c = "widx:torn" -> [s EXCEPT !.st = "crash", !.pi = [k |-> "bad", v |-> <<>>], !.clean = FALSE]
         [] s.c = "widx:after" -> [s EXCEPT !.st = "crash", !.pi = [k |-> "ok", v |-> v], !.clean = FALSE]
         [] OTHER -> [s EXCEPT !.pi = [k |-> "ok", v |-> v], !.mi = v]
Without(fs, id) == {x \in fs : x.id # id}
WDat(s, id, b) ==
  IF ~On(s) THEN s
  ELSE LET New(k) == Without(s.fs, id) \cup {[id |-> id, k |-> k, b |-> b]} IN
       IF s.f = "wdat" THEN [s EXCEPT !.st = "err", !.clean = FALSE]
       ELSE CASE s.c = "wdat:before" -> [s EXCEPT !.st = "crash", !.clean = FALSE]
              [] s.c = "wdat:torn" -> [s EXCEPT !.st = "crash", !.fs = New("bad"), !.clean = FALSE]
              [] s.c = "wdat:after" -> [s EXCEPT !.st = "crash", !.fs = New("ok")]
              [] OTHER -> [s EXCEPT !.fs = New("ok")]
DDat(s, id) ==
  IF ~On(s) THEN s
  ELSE IF s.f = "ddat" THEN [s EXCEPT !.st = "err", !.clean = FALSE]
  ELSE CASE s.c = "ddat:before" -> [s EXCEPT !.st = "crash", !.clean = FALSE]
         [] s.c = "ddat:after" -> [s EXCEPT !.st = "crash", !.fs = Without(@, id), !.clean = FALSE]
         [] OTHER -> [s EXCEPT !.fs = Without(@, id)]
Readable(s, id) == s.f # "rdat" /\ \E x \in s.fs : x.id = id /\ x.k = "ok"
Content(s, id) == (CHOOSE x \in s.fs : x.id = id).b
Init1(s) ==
  IF ~On(s) \/ s.in THEN s
  ELSE IF s.f # "ridx" /\ s.pi.k = "ok" THEN [s EXCEPT !.in = TRUE, !.mi = s.pi.v]
  ELSE IF s.f = "rm" THEN [s EXCEPT !.st = "err", !.clean = FALSE]
  ELSE LET w == [s EXCEPT !.fs = {}, !.pi = [k |-> "none", v |-> <<>>], !.clean = @ /\ s.fs = {}] IN
       IF s.f = "mk" THEN [w EXCEPT !.st = "err", !.clean = FALSE] ELSE [w EXCEPT !.in = TRUE, !.mi = <<>>]

\* --- flush: the open snapshot, or a new one
Snapshot(s0) ==
  LET s == Init1(s0) IN
  IF ~On(s) THEN s
  ELSE LET old == s.mi # <<>> /\ Last(s.mi).e = -1 /\ Last(s.mi).s + s.win <= s.now
           new == s.mi = <<>> \/ Last(s.mi).e # -1 \/ old IN
       IF ~new THEN s
       ELSE LET closed == IF old THEN [s.mi EXCEPT ![Len(s.mi)].e = s.now] ELSE s.mi
                full == s.max <= Len(s.mi) /\ s.mi # <<>>
                d == IF full THEN [DDat(s, s.mi[1].id) EXCEPT !.clean = FALSE] ELSE s
                v == (IF full THEN Tail(closed) ELSE closed) \o <<[id |-> s.next, s |-> s.now, e |-> -1]>> IN
            WIdx([d EXCEPT !.next = @ + 1], v)
Merge(s0, delta) ==
  LET s == Snapshot(s0) IN
  IF ~On(s) THEN s
  ELSE LET id == Last(s.mi).id
           b == Plus(delta, IF Readable(s, id) THEN Content(s, id) ELSE Zero)
           s1 == [s EXCEPT !.clean = @ /\ (Readable(s, id) \/ ~\E x \in s.fs : x.id = id)] IN
       IF b = Zero THEN WIdx(s1, Front1(s1.mi)) ELSE WDat(s1, id, b)
Flush(s) == LET m == Merge([s EXCEPT !.mem = Zero, !.made = Plus(@, s.mem)], s.mem) IN
            IF m.st = "crash" THEN m ELSE [m EXCEPT !.mem[5] = @ + 1]

\* --- upload of the oldest snapshot
DelPending(s) == LET d == DDat(s, s.mi[1].id) IN WIdx(d, Tail(d.mi))
RECURSIVE Upload(_, _)
Upload(s0, onlyOld) ==
  LET s == Init1(s0) IN
  IF ~On(s) \/ s.mi = <<>> THEN s
  ELSE LET h == s.mi[1] IN
       IF onlyOld /\ h.s + s.win > s.now THEN s
       ELSE LET t == IF h.e = -1 THEN WIdx(s, [s.mi EXCEPT ![1].e = s.now]) ELSE s IN
            IF ~On(t) THEN t
            ELSE IF ~Readable(t, h.id) THEN Upload([DelPending(t) EXCEPT !.clean = FALSE], onlyOld)
            ELSE LET b == Content(t, h.id)
                     known == {i \in DOMAIN t.offs : t.offs[i].id = h.id}
                     o == [id |-> h.id, b |-> b, s |-> h.s, e |-> t.mi[1].e]
                     i == IF known = {} THEN Len(t.offs) + 1 ELSE CHOOSE i \in known : TRUE IN
                 [t EXCEPT !.out = h.id, !.offs = IF known = {} THEN Append(@, o) ELSE @,
                           !.ups = Append(@, [n |-> i, b |-> b, s |-> h.s, e |-> t.mi[1].e])]
Acked(s) ==
  LET s1 == [Init1(s) EXCEPT !.out = 0] IN
  LET s2 == IF ~On(s1) \/ s1.mi = <<>> \/ s1.mi[1].id # s.out THEN s1
            ELSE DelPending([s1 EXCEPT !.acks = @ \cup {s.out},
                                       !.done = Plus(@, IF s.out \notin s.acks /\ \E x \in s1.fs : x.id = s.out /\ x.k = "ok" THEN Content(s1, s.out) ELSE Zero)]) IN
  IF s2.st = "crash" THEN s2 ELSE Upload([s2 EXCEPT !.st = "run"], TRUE)

Restart(s) == [s EXCEPT !.mem = Zero, !.in = FALSE, !.mi = <<>>, !.out = 0]
Run(s, op, F(_)) == LET t == F([s EXCEPT !.f = op.f, !.c = op.c, !.ups = <<>>]) IN
                    LET u == IF t.st = "crash" THEN Restart(t) ELSE t IN
                    {[s |-> [u EXCEPT !.st = "run", !.f = "", !.c = "", !.ups = <<>>], res |-> [r |-> "ok", ups |-> t.ups, files |-> Cardinality(u.fs)]]}
Quiet(s) == {[s |-> s, res |-> [r |-> "ok", ups |-> <<>>, files |-> Cardinality(s.fs)]]}

Outcomes(s, op) ==
  CASE op.op = "rec" -> Quiet([s EXCEPT !.mem = Plus(@, M(op.m, op.n))])
    [] op.op = "adv" -> Quiet([s EXCEPT !.now = @ + op.n])
    [] op.op = "conf" -> Quiet([s EXCEPT !.max = op.max, !.win = op.win])
    [] op.op = "restart" -> Quiet(Restart(s))
    [] op.op = "damage" ->
         IF op.w = "idx" THEN Quiet([s EXCEPT !.pi = [k |-> IF s.pi.k = "none" THEN "none" ELSE "bad", v |-> <<>>], !.clean = FALSE])
         ELSE Quiet([s EXCEPT !.fs = IF op.how = "del" THEN {} ELSE {[x EXCEPT !.k = "bad"] : x \in @}, !.clean = FALSE])
    [] op.op = "flush" -> Run(s, op, Flush)
    [] op.op = "tick" -> IF s.out # 0 THEN Quiet(s) ELSE Run(s, op, LAMBDA t : Upload(t, FALSE))
    [] op.op = "ack" -> IF op.how = "ok" THEN Run(s, op, Acked) ELSE Quiet([s EXCEPT !.out = 0])

FaultsOf(o) == IF "fail" \notin Fam THEN {""}
               ELSE {"", "widx", "ddat", "rdat"} \cup (IF o = "flush" THEN {"wdat", "ridx", "rm", "mk"} ELSE IF o = "tick" THEN {"rm", "mk"} ELSE {})
CrashOf(o) == IF "crash" \notin Fam THEN {""}
              ELSE {"", "widx:before", "widx:torn", "widx:after", "ddat:before", "ddat:after"}
                   \cup (IF o = "flush" THEN {"wdat:before", "wdat:torn", "wdat:after"} ELSE {})
FC(o) == {p \in FaultsOf(o) \X CrashOf(o) : p[1] = "" \/ p[2] = ""}
Ops(s) ==
  (IF s.mem[1] + s.mem[2] + s.mem[3] < 3 THEN {[op |-> "rec", m |-> "c", n |-> 1]} ELSE {})
  \cup (IF "many" \in Fam /\ s.mem[3] = 0 THEN {[op |-> "rec", m |-> "d", n |-> 5], [op |-> "rec", m |-> "h1", n |-> 4], [op |-> "rec", m |-> "h2", n |-> 3]} ELSE {})
  \cup {[op |-> "flush", f |-> p[1], c |-> p[2], trig |-> p[1] = ""] : p \in FC("flush")}
  \cup (IF s.out = 0 THEN {[op |-> "tick", f |-> p[1], c |-> p[2]] : p \in FC("tick")} ELSE {[op |-> "tick", f |-> "", c |-> ""]})
  \cup (IF s.out # 0 THEN {[op |-> "ack", how |-> "ok", f |-> p[1], c |-> p[2]] : p \in FC("ack")} \cup {[op |-> "ack", how |-> h] : h \in {"no", "lost"}} ELSE {})
  \cup (IF s.now < MaxNow THEN {[op |-> "adv", n |-> n] : n \in {1, 5}} ELSE {})
  \cup {[op |-> "restart"]}
  \cup (IF "damage" \in Fam THEN {[op |-> "damage", w |-> w, how |-> h, x |-> 0] : w \in {"idx", "dat"}, h \in {"del", "cut", "flip", "empty"}} ELSE {})
  \cup {[op |-> "conf", max |-> Confs[i].max, win |-> Confs[i].win] : i \in DOMAIN Confs}

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN Plus(x.b, Sum(S \ {x}))
Idx(s) == IF s.in THEN s.mi ELSE s.pi.v
Inv(s) ==
  /\ \A i, j \in DOMAIN Idx(s) : i # j => Idx(s)[i].id # Idx(s)[j].id
  /\ \A i, j \in DOMAIN Idx(s) : i < j => Idx(s)[i].s <= Idx(s)[j].s /\ Idx(s)[i].id < Idx(s)[j].id
  \* nothing is lost and nothing counted twice unless something failed, was damaged or hit the limit
  /\ s.clean => s.made = Plus(s.done, Sum(s.fs))
  /\ \A i \in 1 .. 5 : s.made[i] >= s.done[i]
  \* an offered snapshot is closed, also after a restart
  /\ \A i \in DOMAIN Idx(s) : (\E k \in DOMAIN s.offs : s.offs[k].id = Idx(s)[i].id) => Idx(s)[i].e # -1
StepOk(s, op, o) ==
  /\ Len(o.res.ups) <= 1
  /\ \A i \in DOMAIN o.res.ups :
       LET u == o.res.ups[i] IN
       \* a snapshot is retried as it was, and the oldest one first
       /\ u.n \in DOMAIN s.offs => /\ s.offs[u.n].b = u.b /\ s.offs[u.n].s = u.s /\ s.offs[u.n].e = u.e
       /\ op.op = "tick" => s.out = 0
       /\ \A j \in DOMAIN Idx(o.s) : Idx(o.s)[j].id >= o.s.offs[u.n].id
=============================================================================
