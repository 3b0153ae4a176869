---------------------------- MODULE ServerStats ----------------------------
(* C10: the server-side metrics collector (bd-server-stats/src/stats.rs).

   A metric is known by its full name (the scope names and its own, empty ones left out), its labels and
   its kind.  m maps every metric ever asked for to its value and number of observations. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Cfgs, Univ    \* the operations of the bounded instance

OF == "label_overflow"
OfName == <<"stats", "label_tracker", "label_overflow">>
Coll == {0, 1}
Zero == [v |-> 0, n |-> 0]
Key(c, name, labels, kind) == [c |-> c, name |-> name, labels |-> labels, kind |-> kind]
OfKey(c) == Key(c, OfName, {}, "counter")

S0(cfg) == [limit |-> cfg.limit, m |-> [k \in {OfKey(c) : c \in Coll} |-> Zero],
            adm |-> [c \in Coll |-> {}],       \* admitted <<label name, value>> pairs
            vecs |-> <<>>, lates |-> <<>>, autos |-> [i \in {} |-> 0], cbs |-> [c \in Coll |-> <<>>], chained |-> FALSE]

Pairs(l) == {<<l[i][1], l[i][2]>> : i \in 1 .. Len(l)}
Override(base, l) == {p \in base : \A q \in l : q[1] # p[1]} \cup l
NonEmpty(name) == SelectSeq(name, LAMBDA x : x # "")
ScopeName(op) == NonEmpty(<<op.root>> \o [i \in 1 .. Len(op.chain) |-> op.chain[i].n])
\* (a metric's own empty name stays)
FullName(op, name) == ScopeName(op) \o <<name>>
ScopeLabels(op) == FoldLeft(LAMBDA acc, st : Override(acc, Pairs(st.labels)), {}, op.chain)

Bump(m, k, v, n) == IF k \in DOMAIN m THEN [m EXCEPT ![k] = [v |-> @.v + v, n |-> @.n + n]]
                    ELSE [x \in DOMAIN m \cup {k} |-> IF x = k THEN [v |-> v, n |-> n] ELSE m[x]]
Set(m, k, v) == LET b == Bump(m, k, 0, 0) IN [b EXCEPT ![k].v = v]

\* The labels are admitted one after the other; the first that finds no room spoils the set.
Admit(adm, limit, ps) ==
  FoldLeft(LAMBDA a, p : IF ~a.ok \/ p \in a.adm THEN a
                         ELSE IF Cardinality(a.adm) < limit THEN [a EXCEPT !.adm = @ \cup {p}]
                         ELSE [a EXCEPT !.ok = FALSE],
           [adm |-> adm, ok |-> TRUE], ps)

LabelPairs(names, vals) == [i \in 1 .. Len(names) |-> <<names[i], vals[i]>>]
Elems(f) == {f[i] : i \in DOMAIN f}

Rows(m, c) == {[name |-> k.name, labels |-> k.labels, kind |-> k.kind, v |-> m[k].v, n |-> m[k].n] : k \in {x \in DOMAIN m : x.c = c}}
\* Callbacks run first, then this collector's metrics are read, then those of the chained one (whose
\* callbacks run then).
RunCbs(m, cb) == FoldLeft(LAMBDA a, x : Bump(a, x.k, x.v, 0), m, cb)
Gather(s, c) ==
  LET m1 == RunCbs(s.m, s.cbs[c])
      m2 == IF c = 0 /\ s.chained THEN RunCbs(m1, s.cbs[1]) ELSE m1
  IN [m |-> m2, rows |-> [n |-> Cardinality({k \in DOMAIN m2 : k.c = c \/ (c = 0 /\ s.chained)}),
                          set |-> Rows(m2, c) \cup (IF c = 0 /\ s.chained THEN Rows(m2, 1) ELSE {})]]

One(s, r) == {[s |-> s, res |-> r]}

Use(s, op) ==
  LET lt == s.lates[op.id]
      vec == s.vecs[lt.vec]
      ps == LabelPairs(vec.names, op.values)
      a == Admit(s.adm[vec.c], s.limit, ps)
      lab == IF lt.key # {} THEN {} ELSE IF a.ok THEN Elems(ps) ELSE {<<vec.names[i], OF>> : i \in 1 .. Len(vec.names)}
      k == IF lt.key # {} THEN CHOOSE x \in lt.key : TRUE ELSE Key(vec.c, vec.name, lab, vec.kind)
      m1 == IF lt.key = {} /\ ~a.ok THEN Bump(s.m, OfKey(vec.c), 1, 0) ELSE s.m
  IN One([s EXCEPT !.m = Bump(m1, k, op.v, IF vec.kind = "hist" THEN 1 ELSE 0),
                   !.adm[vec.c] = IF lt.key = {} THEN a.adm ELSE @,
                   !.lates[op.id].key = {k}], 0)

\* Concurrent use: every increment counts once; sets whose labels were all admitted before never
\* overflow; the overflow set and the overflow counter agree; the limit may be passed by no more than
\* the number of values being added at the same moment.
Sum(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
Storm(s, op) ==
  LET vec == s.vecs[op.vec]
      all == FlattenSeq(op.threads)
      Times(vals) == Cardinality({i \in 1 .. Len(all) : all[i] = vals})
      sets == Elems(all)
      ofk == Key(vec.c, vec.name, {<<vec.names[i], OF>> : i \in 1 .. Len(vec.names)}, vec.kind)
      Was(k) == IF k \in DOMAIN s.m THEN s.m[k].v ELSE 0
  IN [vec |-> vec, total |-> Len(all), Times |-> [v \in sets |-> Times(v)], of |-> Was(OfKey(vec.c)), ofset |-> Was(ofk),
      before |-> [v \in sets |-> Was(Key(vec.c, vec.name, Elems(LabelPairs(vec.names, v)), vec.kind))],
      sure |-> {v \in sets : Elems(LabelPairs(vec.names, v)) \subseteq s.adm[vec.c]},
      cap |-> s.limit + Len(op.threads) * Len(vec.names),
      allpairs |-> s.adm[vec.c] \cup UNION {Elems(LabelPairs(vec.names, v)) : v \in sets},
      limit |-> s.limit, shared |-> Was(Key(vec.c, FullName(op, "shared"), {}, "counter"))]

StormOk(op, a, b) ==
  LET rows == Elems(b)
      mine == {r \in rows : r.name = a.vec.name}
      ofset == {<<a.vec.names[i], OF>> : i \in 1 .. Len(a.vec.names)}
      V(lab) == Sum({r \in mine : Pairs(r.labels) = lab}, LAMBDA r : r.v)
      Lab(v) == Elems(LabelPairs(a.vec.names, v))
      grown == [v \in DOMAIN a.Times |-> V(Lab(v)) - a.before[v]]
      lost == V(ofset) - a.ofset
      exposed == UNION {Pairs(r.labels) : r \in mine} \ ofset
  IN /\ Sum(DOMAIN a.Times, LAMBDA v : grown[v]) + lost = a.total
     /\ \A v \in DOMAIN a.Times : grown[v] >= 0 /\ grown[v] <= a.Times[v]
     /\ \A v \in a.sure : grown[v] = a.Times[v]
     /\ lost >= 0 /\ (Cardinality(a.allpairs) <= a.limit => lost = 0)
     /\ Cardinality(exposed) <= a.cap
     /\ \E r \in rows : r.name = OfName /\ r.v = a.of + lost
     /\ \E r \in rows : r.name = FullName(op, "shared") /\ r.v = a.shared + a.total
     /\ \E r \in rows : r.name = FullName(op, "inflight") /\ r.v = 0

Outcomes(s, op) ==
  CASE op.op = "counter" -> One([s EXCEPT !.m = Bump(@, Key(op.c, FullName(op, op.name), Override(ScopeLabels(op), Pairs(op.labels)), "counter"), op.v, 0)], 0)
    [] op.op = "gauge" -> One([s EXCEPT !.m = Bump(@, Key(op.c, FullName(op, op.name), ScopeLabels(op), "gauge"), op.v, 0)], 0)
    [] op.op = "set" -> One([s EXCEPT !.m = Set(@, Key(op.c, FullName(op, op.name), ScopeLabels(op), "gauge"), op.v)], 0)
    [] op.op = "hist" -> One([s EXCEPT !.m = Bump(@, Key(op.c, FullName(op, op.name), ScopeLabels(op), "hist"), op.v, 1)], 0)
    [] op.op = "auto" ->
         LET k == Key(op.c, FullName(op, op.name), ScopeLabels(op), "gauge") IN
         One([s EXCEPT !.m = Bump(@, k, 1, 0), !.autos = [i \in DOMAIN @ \cup {op.id} |-> IF i = op.id THEN k ELSE @[i]]], 0)
    [] op.op = "unauto" -> One([s EXCEPT !.m = Bump(@, s.autos[op.id], -1, 0), !.autos = [i \in DOMAIN @ \ {op.id} |-> @[i]]], 0)
    [] op.op = "stack" ->
         LET k == Key(op.c, FullName(op, op.name), ScopeLabels(op), "gauge")
             m == Bump(s.m, k, 0, 0)
         IN One([s EXCEPT !.m = m], <<m[k].v + 2, m[k].v>>)
    [] op.op = "vec" -> One([s EXCEPT !.vecs = Append(@, [c |-> op.c, name |-> FullName(op, op.name), names |-> op.names, kind |-> op.kind])], 0)
    [] op.op = "late" -> One([s EXCEPT !.lates = Append(@, [vec |-> op.vec, key |-> {}])], 0)
    [] op.op = "use" -> Use(s, op)
    [] op.op = "cb" ->
         LET k == Key(op.c, FullName(op, op.name), ScopeLabels(op), "counter") IN
         One([s EXCEPT !.m = Bump(@, k, 0, 0), !.cbs[op.c] = Append(@, [k |-> k, v |-> op.v])], 0)
    [] op.op = "chain" -> One([s EXCEPT !.chained = TRUE], 0)
    [] op.op \in {"gather", "text"} -> LET g == Gather(s, op.c) IN One([s EXCEPT !.m = g.m], g.rows)
    [] op.op = "storm" -> One(s, Storm(s, op))   \* (the last operation of a test)

ResOk(op, a, b) ==
  CASE op.op \in {"gather", "text"} ->
         /\ a.set = {[name |-> b[i].name, labels |-> Pairs(b[i].labels), kind |-> b[i].kind, v |-> b[i].v, n |-> b[i].n] : i \in 1 .. Len(b)}
         /\ Len(b) = a.n
    [] op.op = "storm" -> StormOk(op, a, b)
    [] OTHER -> a = b

\* Operations of the bounded instance: those of Univ that make sense now.
Ops(s) ==
  {op \in Univ :
     CASE op.op = "vec" -> \A i \in 1 .. Len(s.vecs) : s.vecs[i].name # FullName(op, op.name)
       [] op.op = "late" -> op.vec <= Len(s.vecs) /\ op.id = Len(s.lates) + 1
       [] op.op = "use" -> op.id <= Len(s.lates) /\ Len(op.values) = Len(s.vecs[s.lates[op.id].vec].names)
       [] op.op = "auto" -> op.id \notin DOMAIN s.autos
       [] op.op = "unauto" -> op.id \in DOMAIN s.autos
       [] op.op = "chain" -> ~s.chained
       [] OTHER -> TRUE}

Inv(s) == \A c \in Coll : Cardinality(s.adm[c]) <= s.limit
Exposed(s, c) == UNION {k.labels : k \in {x \in DOMAIN s.m : x.c = c /\ \E i \in 1 .. Len(s.vecs) : s.vecs[i].name = x.name}}
StepOk(s, op, o) ==
  /\ \A c \in Coll : s.adm[c] \subseteq o.s.adm[c]
  /\ \A c \in Coll : Cardinality({p \in Exposed(o.s, c) : p[2] # OF}) <= s.limit
  \* an operation touches one metric (and the overflow count)
  /\ op.op \in {"counter", "gauge", "set", "hist"} => Cardinality({k \in DOMAIN o.s.m : k \notin DOMAIN s.m \/ o.s.m[k] # s.m[k]}) <= 1
  \* admitted values are never refused
  /\ op.op = "use" => LET vec == s.vecs[s.lates[op.id].vec] IN
       Elems(LabelPairs(vec.names, op.values)) \subseteq s.adm[vec.c] => o.s.m[OfKey(vec.c)] = s.m[OfKey(vec.c)]
=============================================================================
