------------------------------ MODULE LogFields ------------------------------
(* C06: the fields of an emitted log (bd-logger/src/metadata.rs). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Names, Types   \* of the bounded instance

Reserved == {"app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type",
             "os", "os_version", "radio_type"}
\* names of the alphabet that start with an underscore
Underscored == {"_", "_x", "__a", "_app_id", "_message", "_os"}
MatchingOnly == {"Replay", "Resource", "InternalSDK"}

CustomOk(k) == k \notin Reserved /\ k \notin Underscored

S0(cfg) == [g |-> <<>>]   \* the global fields, in the order they were added

\* A source is a list of fields and which kind of them counts.
Idx(src) == {i \in 1 .. Len(src[1]) : src[1][i].kind = src[2] /\ (src[2] = "custom" => CustomOk(src[1][i].k))}

\* First occurrence of every name wins, source by source.
Pick(srcs) ==
  LET all == UNION {{<<n, i>> : i \in Idx(srcs[n])} : n \in DOMAIN srcs}
      At(x) == srcs[x[1]][1][x[2]]
      Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
  IN {[k |-> At(x).k, v |-> At(x).v] : x \in {y \in all : \A z \in all : Before(z, y) => At(z).k # At(y).k}}

None == [ok |-> TRUE, ts |-> 0, fields |-> {}, matching |-> {}]
Collect(s, op) ==
  IF op.fault # "none" THEN [None EXCEPT !.ok = FALSE]
  ELSE LET p == IF op.type \in MatchingOnly THEN <<>> ELSE op.prov
           pm == IF op.type \in MatchingOnly THEN op.prov ELSE <<>>
       IN [ok |-> TRUE, ts |-> op.ts,
           fields |-> Pick(<< <<p, "ootb">>, <<op.log, "ootb">>, <<op.log, "custom">>, <<s.g, "global">>, <<p, "custom">> >>),
           matching |-> Pick(<< <<pm, "ootb">>, <<op.match, "ootb">>, <<op.match, "custom">>, <<pm, "custom">> >>)]

Without(g, k) == SelectSeq(g, LAMBDA f : f.k # k)

Outcomes(s, op) ==
  CASE op.op = "add" ->
         IF CustomOk(op.k)
           THEN {[s |-> [g |-> Append(Without(s.g, op.k), [k |-> op.k, kind |-> "global", v |-> op.v])], res |-> None]}
           ELSE {[s |-> s, res |-> [None EXCEPT !.ok = FALSE]]}
    [] op.op = "remove" -> {[s |-> [g |-> Without(s.g, op.k)], res |-> None]}
    [] op.op = "collect" -> {[s |-> s, res |-> r] : r \in {Collect(s, op)}}

\* Annotated field lists of the bounded instance.
Fld == [k : Names, kind : {"ootb", "custom"}]
Val(f, v) == [k |-> f.k, kind |-> f.kind, v |-> v]
Lists(n, v) == {<<>>} \cup {<<Val(f, v)>> : f \in Fld}
               \cup (IF n > 1 THEN {<<Val(f, v), Val(g, v + 1)>> : f, g \in Fld} ELSE {})
Vals == {9, 10}

Ops(s) ==
  {[op |-> "add", k |-> k, v |-> v] : k \in Names, v \in Vals}
  \cup {[op |-> "remove", k |-> k] : k \in Names}
  \cup {[op |-> "collect", prov |-> p, log |-> l, match |-> m, type |-> t, fault |-> "none", ts |-> 1] :
          p \in Lists(1, 1), l \in Lists(2, 3), m \in Lists(1, 6), t \in Types}
  \cup {[op |-> "collect", prov |-> <<>>, log |-> <<>>, match |-> <<>>, type |-> "Normal", fault |-> f, ts |-> 1] : f \in {"ts", "fields"}}

Keys(F) == {f.k : f \in F}
Rng(l) == {l[i] : i \in 1 .. Len(l)}
Inv(s) == /\ \A i, j \in 1 .. Len(s.g) : s.g[i].k = s.g[j].k => i = j
          /\ \A i \in 1 .. Len(s.g) : CustomOk(s.g[i].k)
Has(l, kind, k) == \E f \in Rng(l) : f.kind = kind /\ f.k = k
StepOk(s, op, o) ==
  op.op = "collect" /\ o.res.ok =>
    LET F == o.res.fields
        M == o.res.matching
        priv == op.type \in MatchingOnly
    IN
    \* one value per name
    /\ Cardinality(Keys(F)) = Cardinality(F) /\ Cardinality(Keys(M)) = Cardinality(M)
    \* protected names come from out-of-the-box sources only
    /\ \A f \in F \cup M : ~CustomOk(f.k) =>
         \E l \in {op.prov, op.log, op.match} : \E x \in Rng(l) : x.kind = "ootb" /\ x.k = f.k /\ x.v = f.v
    \* provider fields of private log types are never captured
    /\ priv => \A f \in F : \E x \in Rng(op.log) \cup {[kind |-> "g", k |-> g.k, v |-> g.v] : g \in Rng(s.g)} : x.k = f.k /\ x.v = f.v
    \* precedence between sources
    /\ ~priv => \A f \in F : Has(op.prov, "ootb", f.k) => \E x \in Rng(op.prov) : x.kind = "ootb" /\ x.k = f.k /\ x.v = f.v
    /\ \A f \in F : (priv \/ ~Has(op.prov, "ootb", f.k)) /\ ~Has(op.log, "ootb", f.k) /\ Has(op.log, "custom", f.k)
         => \E x \in Rng(op.log) : x.kind = "custom" /\ x.k = f.k /\ x.v = f.v
    /\ \A g \in Rng(s.g) : g.k \in Keys(F)
=============================================================================
