------------------------------- MODULE Sankey -------------------------------
(* C38: sankey paths (bd-workflows: workflow.rs SankeyState/SankeyPath, sankey_diagram.rs, metrics.rs).
   One exclusive workflow: a: 1 -> 2, b: 2 -> 2, e: 2 -> 2, f: 2 -> 3 (its end).
   cfg.ext[letter]: extractions [id, v ("$": the field of the log, else fixed), counts];
   cfg.emit[letter]: sankeys emitted [id, tags (sequence of <<name, "$" or fixed>>)], by id;  cfg.limit[id]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cfgs, Values, Mem, Fam

Pick(q, T(_)) == SelectSeq(q, T)
Set(q) == {q[i] : i \in DOMAIN q}
Without(q, x) == Pick(q, LAMBDA y : y # x)
Index(q, x) == CHOOSE i \in DOMAIN q : q[i] = x

(* st; paths: sankey id |-> sequence of [v, c (counts toward the limit)];
   q: paths given to the processor [id, p]; fly: what it waits for ("no", "intent", "upload"), for the head of q;
   mem: processed paths, the least recently seen first; seen: all completed paths, in order, which numbers them *)
S0(c) == [c |-> c, st |-> 1, paths |-> <<>>, q |-> <<>>, fly |-> "no", mem |-> <<>>, seen |-> <<>>, dirty |-> FALSE, disk |-> <<>>, fresh |-> 0]

\* a value is added; beyond the limit the oldest of those that count goes
Push(p, v, counts, limit) ==
  LET n == Append(p, [v |-> v, c |-> counts])
      cs == {i \in DOMAIN n : n[i].c}
      i == CHOOSE i \in cs : \A j \in cs : i <= j IN
  IF counts /\ Cardinality(cs) > limit THEN SubSeq(n, 1, i - 1) \o SubSeq(n, i + 1, Len(n)) ELSE n
RECURSIVE Extract(_, _, _, _)
Extract(c, paths, es, f) ==
  IF es = <<>> THEN paths
  ELSE LET e == es[1]
           v == IF e.v = "$" THEN f ELSE e.v
           old == IF e.id \in DOMAIN paths THEN paths[e.id] ELSE <<>> IN
       Extract(c, IF v = "" THEN paths ELSE (e.id :> Push(old, v, e.counts, c.limit[e.id])) @@ paths, Tail(es), f)

Vals(p) == [i \in DOMAIN p |-> p[i].v]
Num(s, x) == Index(s.seen, x)
Note(s, xs) == LET RECURSIVE F(_, _) F(seen, i) == IF i > Len(xs) THEN seen ELSE F(IF xs[i] \in Set(seen) THEN seen ELSE Append(seen, xs[i]), i + 1)
               IN [s EXCEPT !.seen = F(@, 1)]

\* the processor: one path at a time, those remembered are only refreshed
RECURSIVE Go(_)
Go(s) ==
  IF s.fly # "no" \/ s.q = <<>> THEN s
  ELSE IF s.q[1] \in Set(s.mem) THEN Go([s EXCEPT !.q = Tail(@), !.mem = Append(Without(@, s.q[1]), s.q[1])])
  ELSE [s EXCEPT !.fly = "intent"]
Req(s, t) == IF t.fly = "no" THEN <<>>
             ELSE <<[k |-> t.fly, id |-> t.q[1].id, n |-> Num(t, t.q[1]), nodes |-> IF t.fly = "upload" THEN t.q[1].p ELSE <<>>]>>
Remember(s, x) == LET m == Append(Without(s.mem, x), x) IN [s EXCEPT !.mem = IF Len(m) > Mem THEN Tail(m) ELSE m]
Done(s) == Go([s EXCEPT !.q = Tail(@), !.fly = "no"])

RECURSIVE Cap(_, _)
Cap(q, xs) == IF xs = <<>> \/ Len(q) = 10 THEN q ELSE Cap(Append(q, xs[1]), Tail(xs))
\* the channel holds ten, besides the one being worked on
Give(s, xs) == [s EXCEPT !.q = IF s.fly = "no" THEN Cap(@, xs) ELSE <<@[1]>> \o Cap(Tail(@), xs)]

To(st, m) == CASE m = "a" -> 2 [] st = 1 -> 0 [] m \in {"b", "e"} -> 2 [] m = "f" -> 3 [] OTHER -> 0
Log(s, op) ==
  LET to == To(s.st, op.m) IN
  IF to = 0 THEN [s |-> s, res |-> [mets |-> {}, reqs |-> <<>>]]
  ELSE LET from == IF op.m = "a" THEN <<>> ELSE s.paths
           ps == Extract(s.c, from, s.c.ext[op.m], op.f)
           em == Pick(s.c.emit[op.m], LAMBDA e : e.id \in DOMAIN ps)
           xs == [i \in DOMAIN em |-> [id |-> em[i].id, p |-> Vals(ps[em[i].id])]]
           left == [i \in DOMAIN ps \ {em[i].id : i \in DOMAIN em} |-> ps[i]]
           t == Note([s EXCEPT !.st = IF to = 3 THEN 1 ELSE 2, !.paths = IF to = 3 THEN <<>> ELSE left, !.dirty = TRUE], xs)
           u == Go(Give(t, xs))
           TagOf(e) == {<<x[1], IF x[2] = "$" THEN op.f ELSE x[2]>> : x \in {x \in Set(e.tags) : x[2] # "$" \/ op.f # ""}} IN
       [s |-> u, res |-> [mets |-> {[id |-> em[i].id, n |-> Num(u, xs[i]), tags |-> TagOf(em[i])] : i \in DOMAIN em},
                          reqs |-> IF s.fly = "no" THEN Req(s, u) ELSE <<>>]]

Answer(s, op) ==
  LET x == s.q[1]
      t == IF s.fly = "intent"
           THEN CASE op.a = "yes" -> [s EXCEPT !.fly = "upload"]
                  [] op.a = "no" -> Done(Remember(s, x))
                  [] OTHER -> Done(s)
           ELSE IF op.a = "yes" THEN Done(Remember(s, x)) ELSE Done(s) IN
  [s |-> t, res |-> [reqs |-> Req(s, t)]]

\* fresh paths, completed one after the other and refused
Fresh(c, i) == LET a == Log(S0(c), [m |-> "a", f |-> "n" \o ToString(i)]).s IN Log([a EXCEPT !.q = <<>>], [m |-> "f", f |-> ""]).s.q
RECURSIVE Fill(_, _)
Fill(s, k) ==
  IF k = 0 THEN s
  ELSE LET xs == Fresh(s.c, s.fresh)
           RECURSIVE F(_, _)
           F(t, i) == IF i > Len(xs) THEN t ELSE F(Remember(t, xs[i]), i + 1) IN
       Fill([F(Note(s, xs), 1) EXCEPT !.fresh = @ + 1, !.st = 1, !.paths = <<>>, !.dirty = TRUE], k - 1)

Outcomes(s, op) == {
  CASE op.op = "log" -> Log(s, op)
    [] op.op = "answer" -> Answer(s, op)
    [] op.op = "fill" -> [s |-> Fill(s, op.k), res |-> [reqs |-> <<>>]]
    [] op.op = "persist" -> [s |-> IF s.dirty THEN [s EXCEPT !.dirty = FALSE, !.disk = <<[st |-> s.st, paths |-> s.paths]>>] ELSE s, res |-> [reqs |-> <<>>]]
    [] op.op = "restart" -> [s |-> LET z == [S0(s.c) EXCEPT !.seen = s.seen, !.disk = s.disk, !.fresh = s.fresh] IN
                                   IF s.disk = <<>> THEN z ELSE [z EXCEPT !.st = s.disk[1].st, !.paths = s.disk[1].paths],
                             res |-> [reqs |-> <<>>]]}

Ops(s) ==
  {[op |-> "log", m |-> m, f |-> v] : m \in {"a", "b", "e", "f"}, v \in Values}
  \cup (IF s.fly = "no" THEN {} ELSE {[op |-> "answer", a |-> a] : a \in {"yes", "no", "close"}})
  \cup (IF "fill" \in Fam /\ s.fly = "no" /\ s.st = 1 /\ s.fresh < 200 /\ s.mem # <<>> THEN {[op |-> "fill", k |-> k] : k \in {Mem - 2, Mem - 1}} ELSE {})
  \cup (IF "restart" \in Fam THEN {[op |-> "persist"], [op |-> "restart"]} ELSE {})

Inv(s) ==
  /\ Len(s.mem) <= Mem /\ Cardinality(Set(s.mem)) = Len(s.mem)
  /\ \A i \in DOMAIN s.paths : Cardinality({k \in DOMAIN s.paths[i] : s.paths[i][k].c}) <= s.c.limit[i]
  /\ s.fly # "no" => s.q[1] \notin Set(s.mem)
StepOk(s, op, o) ==
  /\ op.op \in {"log", "answer"} =>
       \A x \in Set(s.mem) \ Set(o.s.mem) : Len(s.mem) = Mem
  /\ \A x \in Set(o.s.mem) \ Set(s.mem) : op.op = "fill" \/ (op.op = "answer" /\ ((op.a = "no" /\ s.fly = "intent") \/ (op.a = "yes" /\ s.fly = "upload")))
=============================================================================
