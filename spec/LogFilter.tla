------------------------------ MODULE LogFilter ------------------------------
(* C30: the chain of filters a log passes before anything else sees it.  Filters are added one by one (also ones that
   cannot be understood), fields are added to the log, and the log is processed in between, so that later passes start
   from what earlier ones left. *)
EXTENDS LogTree
CONSTANTS Cfgs, Fields, Msgs, Levels, MaxFields, Filters, MaxFilters

\* transform: [k, name, v, from, ft, ov, pat, rep]; k: cap, set (to the text v), copy (of the field named from), rm, sub; "none"
\* and "noval" cannot be understood; ft: 1 captured, 2 matching-only, anything else unknown
TransformOk(x) ==
  CASE x.k \in {"none", "noval"} -> FALSE
    [] x.k \in {"set", "copy"} -> x.ft \in {1, 2}
    [] x.k = "sub" -> PatternOk(x.pat)
    [] OTHER -> TRUE
FilterOk(f) == TreeOk(1, f.m) /\ \A i \in DOMAIN f.tf : TransformOk(f.tf[i])

Digit(n) == <<Alphabet[n + Ord("0")]>>
\* what a transform reads under a name
ValueOf(log, name, hid) ==
  CASE name = "_message" -> MsgText(log)
    [] name = "log_level" -> <<Digit(log.lv)>>
    [] name = "log_type" -> <<Digit(log.ty)>>
    [] OTHER -> Text(log, name, hid)
Without(fs, name) == SelectSeq(fs, LAMBDA f : f.key # name)
Put(fs, f) == Append(Without(fs, f.key), f)
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* every occurrence of the pattern, from the left, replaced; $0 in the replacement is what was found, $$ a dollar
RECURSIVE Expand(_, _, _)
Expand(r, i, m) ==
  IF i > Len(r) THEN <<>>
  ELSE IF r[i] = "$" /\ i < Len(r) /\ r[i + 1] = "0" THEN m \o Expand(r, i + 2, m)
  ELSE IF r[i] = "$" /\ i < Len(r) /\ r[i + 1] = "$" THEN <<"$">> \o Expand(r, i + 2, m)
  ELSE <<r[i]>> \o Expand(r, i + 1, m)
RECURSIVE Replace(_, _, _, _)
Replace(p, r, s, i) ==
  LET q == Core(p)
      here == /\ i + Len(q) <= Len(s)
              /\ \A j \in DOMAIN q : q[j] \in {".", s[i + j]}
              /\ (Len(p) > 0 /\ p[1] = "^") => i = 0
              /\ (Len(p) > 0 /\ p[Len(p)] = "$") => i = Len(s) - Len(q)
  IN IF i > Len(s) THEN <<>>
     ELSE IF here /\ q # <<>> THEN Expand(r, 1, SubSeq(s, i + 1, i + Len(q))) \o Replace(p, r, s, i + Len(q))
     ELSE (IF here THEN Expand(r, 1, <<>>) ELSE <<>>) \o (IF i < Len(s) THEN <<s[i + 1]>> \o Replace(p, r, s, i + 1) ELSE <<>>)

Subst(x, f) == IF f.b THEN f ELSE [f EXCEPT !.v = Replace(x.pat, x.rep, f.v, 0)]
Apply(x, log, hid) ==
  CASE x.k = "cap" ->
         LET i == First(log.mat, x.name)
         IN IF i = 0 THEN log ELSE [log EXCEPT !.mat = RemoveAt(@, i), !.cap = Put(@, log.mat[i])]
    [] x.k \in {"set", "copy"} ->
         LET there == ValueOf(log, x.name, hid) # <<>> \/ First(log.cap, x.name) # 0 \/ First(log.mat, x.name) # 0
             v == IF x.k = "set" THEN <<x.v>> ELSE ValueOf(log, x.from, hid)
         IN IF (~x.ov /\ there) \/ v = <<>> THEN log
            ELSE LET f == [key |-> x.name, b |-> FALSE, v |-> v[1]]
                 IN IF x.ft = 1 THEN [log EXCEPT !.cap = Put(@, f)] ELSE [log EXCEPT !.mat = Put(@, f)]
    [] x.k = "rm" -> [log EXCEPT !.cap = Without(@, x.name), !.mat = Without(@, x.name)]
    [] x.k = "sub" ->
         LET i == First(log.cap, x.name)
             j == First(log.mat, x.name)
         IN IF i # 0 THEN [log EXCEPT !.cap[i] = Subst(x, @)] ELSE IF j # 0 THEN [log EXCEPT !.mat[j] = Subst(x, @)] ELSE log
RECURSIVE ApplyAll(_, _, _, _), Chain(_, _, _, _)
\* (matching and the transforms may each have their answer to the question left open above)
ApplyAll(tf, i, log, hid) == IF i > Len(tf) THEN log ELSE ApplyAll(tf, i + 1, Apply(tf[i], log, hid), hid)
Chain(fl, i, log, hid) ==
  IF i > Len(fl) THEN log
  ELSE Chain(fl, i + 1, IF FilterOk(fl[i]) /\ Eval(1, fl[i].m, log, hid[1]) THEN ApplyAll(fl[i].tf, 1, log, hid[2]) ELSE log, hid)

S0(cfg) == [fl |-> <<>>, log |-> NoLog]
Outcomes(s, op) ==
  CASE op.op = "filter" -> Quiet([s EXCEPT !.fl = Append(@, [m |-> op.m, tf |-> op.tf])])
    [] op.op = "clear" -> Quiet([s EXCEPT !.fl = <<>>])
    [] op.op = "field" -> Quiet(IF op.w = "cap" THEN [s EXCEPT !.log.cap = Append(@, op.f)] ELSE [s EXCEPT !.log.mat = Append(@, op.f)])
    [] op.op = "msg" -> Quiet([s EXCEPT !.log.msg = op.f])
    [] op.op = "lv" -> Quiet([s EXCEPT !.log.lv = op.n])
    [] op.op = "fresh" -> Quiet([s EXCEPT !.log = NoLog])
    [] op.op = "process" -> {LET l == Chain(s.fl, 1, s.log, h)
                             IN [s |-> [s EXCEPT !.log = l], res |-> [failed |-> Cardinality({i \in DOMAIN s.fl : ~FilterOk(s.fl[i])}), log |-> l]] : h \in BOOLEAN \X BOOLEAN}
Ops(s) ==
  (IF Len(s.fl) < MaxFilters THEN {[op |-> "filter", m |-> Filters[i].m, tf |-> Filters[i].tf] : i \in DOMAIN Filters} ELSE {[op |-> "clear"]})
  \cup (IF Len(s.log.cap) < MaxFields THEN {[op |-> "field", w |-> "cap", f |-> Fields[i]] : i \in DOMAIN Fields} ELSE {})
  \cup (IF Len(s.log.mat) < MaxFields THEN {[op |-> "field", w |-> "mat", f |-> Fields[i]] : i \in DOMAIN Fields} ELSE {})
  \cup {[op |-> "msg", f |-> Msgs[i]] : i \in DOMAIN Msgs} \cup {[op |-> "lv", n |-> Levels[i]] : i \in DOMAIN Levels}
  \cup (IF Len(s.log.cap) + Len(s.log.mat) >= MaxFields THEN {[op |-> "fresh"]} ELSE {})
  \cup (IF s.fl # <<>> THEN {[op |-> "process"]} ELSE {})

Named(s) == UNION {{s.fl[i].tf[k].name : k \in DOMAIN s.fl[i].tf} : i \in DOMAIN s.fl}
Captors(s) == {f \in {s.fl[i] : i \in DOMAIN s.fl} : FilterOk(f) /\ \E k \in DOMAIN f.tf : f.tf[k].k \in {"cap", "copy"}}
Values(fs) == {fs[i].v : i \in DOMAIN fs}
Literals(s) == UNION {{s.fl[i].tf[k].v : k \in {k \in DOMAIN s.fl[i].tf : s.fl[i].tf[k].k = "set"}} : i \in DOMAIN s.fl}
Subs(s) == \E f \in {s.fl[i] : i \in DOMAIN s.fl} : \E k \in DOMAIN f.tf : f.tf[k].k = "sub"
Inv(s) == TRUE
StepOk(s, op, o) ==
  op.op = "process" =>
    LET a == s.log
        b == o.s.log
    IN \* only the fields that are named change, and nothing but fields does
       /\ [b EXCEPT !.cap = <<>>, !.mat = <<>>] = [a EXCEPT !.cap = <<>>, !.mat = <<>>]
       /\ \A k \in {a.cap[i].key : i \in DOMAIN a.cap} \cup {b.cap[i].key : i \in DOMAIN b.cap} \cup {a.mat[i].key : i \in DOMAIN a.mat} \cup {b.mat[i].key : i \in DOMAIN b.mat} :
            k \notin Named(s) => /\ SelectSeq(a.cap, LAMBDA f : f.key = k) = SelectSeq(b.cap, LAMBDA f : f.key = k)
                                 /\ SelectSeq(a.mat, LAMBDA f : f.key = k) = SelectSeq(b.mat, LAMBDA f : f.key = k)
       \* without a transform that says so, nothing captured afterwards was matching-only before
       /\ Captors(s) = {} /\ ~Subs(s) => Values(b.cap) \subseteq Values(a.cap) \cup Literals(s)
\* the order among fields of different names does not matter
SameFields(a, b) ==
  LET keys == {a[i].key : i \in DOMAIN a} \cup {b[i].key : i \in DOMAIN b}
  IN Len(a) = Len(b) /\ \A k \in keys : SelectSeq(a, LAMBDA f : f.key = k) = SelectSeq(b, LAMBDA f : f.key = k)
SameLog(a, b) == a.lv = b.lv /\ a.ty = b.ty /\ a.msg = b.msg /\ SameFields(a.cap, b.cap) /\ SameFields(a.mat, b.mat)
=============================================================================
