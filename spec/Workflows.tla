----------------------------- MODULE Workflows -----------------------------
(* C25, C26, C27: the workflows engine (bd-workflows: engine.rs, workflow.rs) without buffer uploads.

   cfg.defs: workflow definitions [id, excl, lim (matched logs, 0: none), dur (seconds, 0: none), st], where st[i] is
   the sequence of transitions of state i: [m (letters it matches), n (matches it needs, -1: a timeout), to, acts];
   cfg.confs: configurations, sequences of indices of defs; cfg.lims: limits of active traversals;
   cfg.conf, cfg.lim: what the engine starts with. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Letters, Gaps, Sessions, Fam

None == [k |-> "none"]
Bad == [k |-> "bad"]
Range0(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Pick(q, T(_)) == LET RECURSIVE F(_) F(i) == IF i > Len(q) THEN <<>> ELSE (IF T(i) THEN <<i>> ELSE <<>>) \o F(i + 1) IN F(1)

(* A run: trs, its traversals [st, cnt]; m, logs matched so far; first, when it first matched (-1: not yet). *)
NewTr(d, i) == IF d.st[i] = <<>> THEN <<>> ELSE <<[st |-> i, cnt |-> [k \in DOMAIN d.st[i] |-> 0]]>>
NewRun(d) == [trs |-> NewTr(d, 1), m |-> 0, first |-> -1]
InitTr(t) == t.st = 1 /\ \A k \in DOMAIN t.cnt : t.cnt[k] = 0
InitRun(r) == \A i \in DOMAIN r.trs : InitTr(r.trs[i])
InitWf(w) == \A i \in DOMAIN w.runs : InitRun(w.runs[i])

\* a traversal sees a log: every transition that reached its count is followed
TrLog(d, tr, x) ==
  LET ts == d.st[tr.st]
      Hit(k) == ts[k].n >= 0 /\ x \in Range0(ts[k].m)
      cnt == [k \in DOMAIN ts |-> IF Hit(k) THEN tr.cnt[k] + 1 ELSE tr.cnt[k]]
      go == Pick(ts, LAMBDA k : Hit(k) /\ cnt[k] = ts[k].n) IN
  [m |-> Cardinality({k \in DOMAIN ts : Hit(k)}), go |-> Len(go), tr |-> [tr EXCEPT !.cnt = cnt],
   outs |-> Flat([k \in DOMAIN go |-> NewTr(d, ts[go[k]].to)]), acts |-> UNION {Range0(ts[go[k]].acts) : k \in DOMAIN go}]

\* a run sees a log: its traversals from the last to the first
RunLog(d, run, x, t) ==
  LET RECURSIVE F(_, _)
      F(i, a) ==
        IF i = 0 THEN [a EXCEPT !.st = IF a.run.trs = <<>> THEN "done" ELSE "run"]
        ELSE LET p == TrLog(d, a.run.trs[i], x)
                 b == [a EXCEPT !.run.trs[i] = p.tr, !.run.m = @ + p.m, !.m = @ + p.m, !.acts = @ \cup p.acts] IN
             IF (d.lim > 0 /\ b.run.m > d.lim) \/ (d.dur > 0 /\ b.run.first >= 0 /\ t - b.run.first > d.dur)
             THEN [b EXCEPT !.st = "stop", !.acts = {}]
             ELSE LET c == [b EXCEPT !.run.first = IF @ < 0 /\ p.m > 0 THEN t ELSE @] IN
                  IF p.go = 0 THEN F(i - 1, c)
                  ELSE F(i - 1, [c EXCEPT !.run.trs = SubSeq(@, 1, i - 1) \o p.outs \o SubSeq(@, i + 1, Len(@)), !.adv = @ + 1,
                                          !.comp = IF p.outs = <<>> THEN @ + 1 ELSE @,
                                          !.new = IF p.outs = <<>> THEN @ ELSE @ + Len(p.outs) - 1])
  IN F(Len(run.trs), [run |-> run, st |-> "run", m |-> 0, acts |-> {}, adv |-> 0, comp |-> 0, new |-> 0])

(* Counters: 1 runs started, 2 runs advanced, 3 runs stopped, 4 runs completed, 5 traversals started, 6 advanced,
   7 stopped, 8 completed, 9 limit hits, 10 resets, 11 potential forks, 12 matched logs. *)
Zero == [i \in 1 .. 12 |-> 0]
Plus(a, b) == [i \in 1 .. 12 |-> a[i] + b[i]]
Add(q, i, k) == [q EXCEPT ![i] = @ + k]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* a workflow sees a log; n: active traversals of the whole engine, lim: how many are allowed
WfLog(d, runs0, x, t, n0, lim) ==
  LET r0 == NewRun(d)
      needs == \A i \in DOMAIN runs0 : ~InitRun(runs0[i])
      fits == Len(r0.trs) + n0 <= lim
      a0 == IF ~needs THEN [runs |-> runs0, n |-> n0, c |-> Zero, acts |-> {}, prog |-> FALSE]
            ELSE IF ~fits THEN [runs |-> runs0, n |-> n0, c |-> Add(Zero, 9, 1), acts |-> {}, prog |-> FALSE]
            ELSE [runs |-> IF d.excl THEN <<r0>> \o runs0 ELSE Append(runs0, r0), n |-> n0 + Len(r0.trs),
                  c |-> Add(Add(Zero, 1, 1), 5, Len(r0.trs)), acts |-> {}, prog |-> FALSE]
      RECURSIVE F(_, _)
      F(i, a) ==
        IF i = 0 THEN a
        ELSE
          LET p == RunLog(d, a.runs[i], x, t)
              n1 == a.n + p.new - p.comp
              over == n1 > lim
              left == Len(p.run.trs)
              c1 == Add(Add(Add(Add(a.c, 5, p.new), 6, p.adv), 8, p.comp), 12, p.m)
              b == CASE p.st = "stop" \/ over -> [a EXCEPT !.runs = Drop(@, i), !.n = n1 - left, !.acts = @ \cup p.acts,
                                                            !.c = Add(Add(Add(c1, 3, 1), 7, left), 9, IF over THEN 1 ELSE 0)]
                     [] p.st = "done" /\ ~over -> [a EXCEPT !.runs = Drop(@, i), !.n = n1, !.acts = @ \cup p.acts, !.prog = TRUE,
                                                            !.c = Add(Add(c1, 2, 1), 4, 1)]
                     [] OTHER -> [a EXCEPT !.runs[i] = p.run, !.n = n1, !.acts = @ \cup p.acts, !.prog = @ \/ p.m > 0,
                                           !.c = Add(c1, 2, IF p.adv > 0 THEN 1 ELSE 0)] IN
          IF ~d.excl \/ Len(b.runs) <= 1 \/ ~b.prog THEN F(i - 1, b)
          \* the initial run matched: it replaces the active one
          ELSE IF i = 1 THEN LET k == Len(b.runs[2].trs) IN
                             F(0, [b EXCEPT !.runs = Drop(@, 2), !.n = @ - k, !.c = Add(Add(Add(@, 3, 1), 7, k), 10, 1)])
          \* the active run matched: the initial one does not see the log
          ELSE F(0, [b EXCEPT !.c = Add(@, 11, IF RunLog(d, NewRun(d), x, t).m > 0 THEN 1 ELSE 0)])
  IN F(Len(a0.runs), a0)

Progress(c) == \E i \in {1, 2, 3, 4, 5, 6, 7, 8, 10, 12} : c[i] > 0

\* s.wf: [d (index of its definition), runs]
Def(s, w) == s.c.defs[w.d]
Trs(runs) == Sum([i \in DOMAIN runs |-> Len(runs[i].trs)])
Active(s) == Sum([i \in DOMAIN s.wf |-> Trs(s.wf[i].runs)])

EngineLog(s, x) ==
  LET RECURSIVE F(_, _)
      F(i, a) ==
        IF i > Len(a.s.wf) THEN a
        ELSE LET w == a.s.wf[i]
                 r == WfLog(Def(s, w), w.runs, x, s.t, a.n, s.lim)
                 v == [w EXCEPT !.runs = r.runs] IN
             F(i + 1, [s |-> [a.s EXCEPT !.wf[i] = v, !.dirty = @ \/ (Progress(r.c) /\ ~(InitWf(w) /\ InitWf(v)))],
                       n |-> r.n, c |-> Plus(a.c, r.c), acts |-> a.acts \cup r.acts])
  IN F(1, [s |-> s, n |-> Active(s), c |-> Zero, acts |-> {}])

ClearRuns(s) == [s EXCEPT !.wf = [i \in DOMAIN @ |-> [@[i] EXCEPT !.runs = <<>>]], !.dirty = TRUE]

\* adding workflows one by one, dropping runs (from the last) of the one that would go over the limit
AddWf(s, ws) ==
  LET RECURSIVE Trim(_, _)
      Trim(runs, room) == IF runs = <<>> \/ Trs(runs) <= room THEN runs ELSE Trim(SubSeq(runs, 1, Len(runs) - 1), room)
      RECURSIVE F(_, _, _, _)
      F(i, q, rs, lh) ==
        IF i > Len(ws) THEN [s |-> [s EXCEPT !.wf = q], ws |-> Len(ws), rs |-> rs, lh |-> lh]
        ELSE LET keep == Trim(ws[i].runs, s.lim - Sum([k \in DOMAIN q |-> Trs(q[k].runs)])) IN
             F(i + 1, Append(q, [ws[i] EXCEPT !.runs = keep]), rs + Len(keep), lh + Len(ws[i].runs) - Len(keep))
  IN F(1, s.wf, 0, 0)

Optimized(s) ==
  LET kept(w) == [w EXCEPT !.runs = SelectSeq(@, LAMBDA r : ~InitRun(r))]
      all == [i \in DOMAIN s.wf |-> kept(s.wf[i])] IN
  [k |-> "ok", sess |-> s.sess, wf |-> SelectSeq(all, LAMBDA w : w.runs # <<>>)]

Fresh(c, lim) == [c |-> c, wf |-> <<>>, sess |-> "", t |-> 0, disk |-> None, dirty |-> FALSE, saved |-> FALSE, lim |-> lim]
Fixed(s, conf) == [i \in DOMAIN conf |-> [d |-> conf[i], runs |-> <<>>]]

\* start-up: state is only used for a workflow whose definition is the one it was saved with
Start(s, conf) ==
  LET saved(d) == IF s.disk.k # "ok" THEN {}
                  ELSE {i \in DOMAIN s.disk.wf : s.disk.wf[i].d = d}
      ws == [i \in DOMAIN conf |-> [d |-> conf[i], runs |-> IF saved(conf[i]) = {} THEN <<>> ELSE s.disk.wf[CHOOSE k \in saved(conf[i]) : TRUE].runs]] IN
  AddWf([s EXCEPT !.wf = <<>>, !.sess = IF s.disk.k # "ok" THEN "" ELSE s.disk.sess, !.dirty = FALSE, !.saved = FALSE,
                  !.disk = IF @ = Bad THEN None ELSE @], ws)

S0(c) == Start(Fresh(c, c.lims[c.lim]), c.confs[c.conf]).s

Outcomes(s, op) ==
  CASE op.op = "log" ->
         LET s1 == [s EXCEPT !.t = @ + op.dt]
             s2 == IF s1.sess # "" /\ s1.sess # op.sess THEN ClearRuns(s1) ELSE s1
             s3 == [s2 EXCEPT !.sess = op.sess]
             r == EngineLog(s3, op.m) IN
         {[s |-> r.s, res |-> [n |-> r.n, acts |-> r.acts, c |-> r.c]]}
    [] op.op = "persist" ->
         LET writes == s.dirty /\ (op.force \/ ~s.saved) IN
         {[s |-> IF writes THEN [s EXCEPT !.disk = Optimized(s), !.dirty = FALSE, !.saved = TRUE] ELSE s, res |-> [wrote |-> writes]]}
    [] op.op = "damage" -> {[s |-> [s EXCEPT !.disk = IF @ = None THEN None ELSE Bad], res |-> [wrote |-> FALSE]]}
    [] op.op = "restart" ->
         LET r == Start([s EXCEPT !.lim = s.c.lims[op.lim]], s.c.confs[op.conf]) IN
         {[s |-> r.s, res |-> [ws |-> r.ws, we |-> 0, rs |-> r.rs, re |-> 0, te |-> 0, lh |-> r.lh, bad |-> s.disk = Bad]]}
    [] op.op = "update" ->
         LET conf == s.c.confs[op.conf]
             keep == SelectSeq(s.wf, LAMBDA w : w.d \in Range0(conf))
             gone == SelectSeq(s.wf, LAMBDA w : w.d \notin Range0(conf))
             new == SelectSeq(conf, LAMBDA d : \A i \in DOMAIN keep : keep[i].d # d)
             r == AddWf([s EXCEPT !.wf = keep, !.dirty = @ \/ \E i \in DOMAIN gone : ~InitWf(gone[i])], Fixed(s, new)) IN
         {[s |-> r.s, res |-> [ws |-> r.ws, we |-> Len(gone), rs |-> 0, re |-> Sum([i \in DOMAIN gone |-> Len(gone[i].runs)]),
                               te |-> Sum([i \in DOMAIN gone |-> Trs(gone[i].runs)]), lh |-> 0, bad |-> FALSE]]}

Ops(s) ==
  {[op |-> "log", m |-> x, dt |-> g, sess |-> u] : x \in Letters, g \in Gaps, u \in Sessions}
  \cup (IF "persist" \in Fam THEN {[op |-> "persist", force |-> f] : f \in BOOLEAN} ELSE {})
  \cup (IF "damage" \in Fam /\ s.disk.k = "ok" THEN {[op |-> "damage"]} ELSE {})
  \cup (IF "restart" \in Fam THEN {[op |-> "restart", conf |-> i, lim |-> k] : i \in DOMAIN s.c.confs, k \in DOMAIN s.c.lims} ELSE {})
  \cup (IF "update" \in Fam THEN {[op |-> "update", conf |-> i] : i \in DOMAIN s.c.confs} ELSE {})

\* ------------------------------------------------------------------------------------------
WfOk(s, w) ==
  LET d == Def(s, w) IN
  \* a workflow restarted exclusively has one run besides the initial one
  /\ d.excl => Len(w.runs) <= 2
  /\ Cardinality({i \in DOMAIN w.runs : InitRun(w.runs[i]) /\ w.runs[i].m = 0}) <= 1
  /\ \A i \in DOMAIN w.runs :
       /\ w.runs[i].trs # <<>>
       /\ d.lim > 0 => w.runs[i].m <= d.lim
       /\ \A k \in DOMAIN w.runs[i].trs :
            LET tr == w.runs[i].trs[k] IN
            /\ Len(tr.cnt) = Len(d.st[tr.st])
            \* a transition whose count is reached is taken at that moment
            /\ \A j \in DOMAIN tr.cnt : d.st[tr.st][j].n > 0 => tr.cnt[j] < d.st[tr.st][j].n
Inv(s) ==
  /\ Active(s) <= s.lim
  /\ \A i \in DOMAIN s.wf : WfOk(s, s.wf[i])

StepOk(s, op, o) ==
  /\ op.op = "log" =>
       LET c == o.res.c IN
       /\ o.res.n = Active(o.s)
       \* traversals are conserved
       /\ o.res.n = (IF s.sess \in {"", op.sess} THEN Active(s) ELSE 0) + c[5] - c[7] - c[8]
       \* without a match nothing is emitted
       /\ (o.res.acts # {} => c[12] > 0 /\ c[6] > 0)
       \* every workflow behaves as if it was alone, unless the limit of traversals intervenes
       /\ (c[9] = 0 =>
            \A i \in DOMAIN s.wf :
              o.s.wf[i].runs = WfLog(Def(s, s.wf[i]), IF s.sess \in {"", op.sess} THEN s.wf[i].runs ELSE <<>>, op.m, s.t + op.dt, 0, 1000).runs)
  /\ op.op = "update" => \A i \in DOMAIN s.wf : s.wf[i].d \in Range0(s.c.confs[op.conf]) => \E k \in DOMAIN o.s.wf : o.s.wf[k] = s.wf[i]
  /\ op.op = "restart" =>
       /\ Len(o.s.wf) = Len(s.c.confs[op.conf])
       \* every run comes from the saved state of the same definition
       /\ \A i \in DOMAIN o.s.wf : o.s.wf[i].runs # <<>> =>
            /\ s.disk.k = "ok"
            /\ \E k \in DOMAIN s.disk.wf : s.disk.wf[k].d = o.s.wf[i].d /\ SubSeq(s.disk.wf[k].runs, 1, Len(o.s.wf[i].runs)) = o.s.wf[i].runs
=============================================================================
