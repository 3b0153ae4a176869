------------------------------ MODULE LogMatch ------------------------------
(* C29: trees are built on a stack and a log field by field, with matches asked for in between.  In dialect 2 the trees of
   the stack also make up a selector: a buffer is chosen when one of its matchers matches. *)
EXTENDS LogTree
CONSTANTS Cfgs, Leaves, Fields, Msgs, Levels, Types, MaxStack, MaxFields, Fam

S0(cfg) == [d |-> cfg.d, st |-> <<>>, log |-> NoLog]
Top(s) == s.st[Len(s.st)]
Pop(s, n) == SubSeq(s.st, 1, Len(s.st) - n)
TopN(s, n) == SubSeq(s.st, Len(s.st) - n + 1, Len(s.st))
Answer(s, x, hid) == IF ~TreeOk(s.d, x) THEN "invalid" ELSE IF Eval(s.d, x, s.log, hid) THEN "yes" ELSE "no"
\* the trees of the stack are taken as the matchers of two buffers, in turn
Chosen(s, hid) == {b \in {1, 2} : \E i \in DOMAIN s.st : i % 2 = b % 2 /\ Eval(s.d, s.st[i], s.log, hid)}
Selected(s, hid) == IF \E i \in DOMAIN s.st : ~TreeOk(s.d, s.st[i]) THEN "invalid"
                    ELSE LET c == Chosen(s, hid) IN IF c = {} THEN "" ELSE IF c = {1} THEN "1" ELSE IF c = {2} THEN "2" ELSE "12"
Outcomes(s, op) ==
  CASE op.op = "leaf" -> Quiet([s EXCEPT !.st = Append(@, [t |-> "base", leaf |-> op.leaf])])
    [] op.op = "missing" -> Quiet([s EXCEPT !.st = Append(@, [t |-> "missing"])])
    [] op.op \in {"and", "or", "not"} -> Quiet([s EXCEPT !.st = Append(Pop(s, op.n), [t |-> op.op, kids |-> TopN(s, op.n)])])
    [] op.op = "drop" -> Quiet([s EXCEPT !.st = Pop(s, 1)])
    [] op.op = "field" -> Quiet(IF op.w = "cap" THEN [s EXCEPT !.log.cap = Append(@, op.f)] ELSE [s EXCEPT !.log.mat = Append(@, op.f)])
    [] op.op = "msg" -> Quiet([s EXCEPT !.log.msg = op.f])
    [] op.op = "lv" -> Quiet([s EXCEPT !.log.lv = op.n])
    [] op.op = "ty" -> Quiet([s EXCEPT !.log.ty = op.n])
    [] op.op = "fresh" -> Quiet([s EXCEPT !.log = NoLog])
    [] op.op = "match" -> {[s |-> s, res |-> Answer(s, Top(s), h)] : h \in BOOLEAN}
    [] op.op = "select" -> {[s |-> s, res |-> Selected(s, h)] : h \in BOOLEAN}
\* ("grid": one tree, then the log, then the question, to try every pair of a tree and a log once)
More(s) == "tree" \in Fam \/ Len(s.st) > 0
Ops(s) ==
  (IF Len(s.st) < MaxStack THEN {[op |-> "leaf", leaf |-> Leaves[i]] : i \in DOMAIN Leaves} ELSE {})
  \cup (IF "tree" \in Fam /\ Len(s.st) < MaxStack
        THEN {[op |-> o, n |-> k] : o \in {"and", "or"}, k \in 0 .. (IF Len(s.st) < 3 THEN Len(s.st) ELSE 3)} \cup {[op |-> "missing"]} ELSE {})
  \cup (IF "tree" \in Fam /\ s.st # <<>> THEN {[op |-> "not", n |-> 1], [op |-> "drop"]} ELSE {})
  \cup (IF ~More(s) THEN {} ELSE
           {[op |-> "field", w |-> w, f |-> Fields[i]] : w \in (IF Len(s.log.cap) < MaxFields THEN {"cap"} ELSE {}) \cup (IF Len(s.log.mat) < MaxFields /\ "mat" \in Fam THEN {"mat"} ELSE {}), i \in DOMAIN Fields}
           \cup {[op |-> "msg", f |-> Msgs[i]] : i \in DOMAIN Msgs}
           \cup {[op |-> "lv", n |-> Levels[i]] : i \in DOMAIN Levels} \cup {[op |-> "ty", n |-> Types[i]] : i \in DOMAIN Types})
  \cup (IF "tree" \in Fam THEN {[op |-> "fresh"]} ELSE {})
  \cup (IF s.st # <<>> THEN {[op |-> "match"]} ELSE {})
  \cup (IF s.d = 2 /\ "tree" \in Fam THEN {[op |-> "select"]} ELSE {})

\* the comparisons are total and consistent: of two texts, numbers or versions exactly one is less, or they are equal
Texts == {Fields[i].v : i \in DOMAIN Fields}
ASSUME \A a, b \in Texts : CmpText(a, b) = -CmpText(b, a) /\ (CmpText(a, b) = 0 <=> a = b)
ASSUME \A a, b \in Texts : CmpVersion(a, b) = -CmpVersion(b, a) /\ (a = b => CmpVersion(a, b) = 0)
ASSUME \A a, b, c \in Texts : CmpText(a, b) = -1 /\ CmpText(b, c) = -1 => CmpText(a, c) = -1
Inv(s) ==
  s.st # <<>> /\ TreeOk(s.d, Top(s)) =>
    LET x == Top(s)
        y == IF Len(s.st) > 1 /\ TreeOk(s.d, s.st[Len(s.st) - 1]) THEN s.st[Len(s.st) - 1] ELSE x
        E(z) == Eval(s.d, z, s.log, FALSE)
        N(z) == [t |-> "not", kids |-> <<z>>]
        h == FALSE
    IN
      /\ E(N(x)) # E(x)
      /\ E(N([t |-> "or", kids |-> <<x, y>>])) = E([t |-> "and", kids |-> <<N(x), N(y)>>])
      \* exactly one of less, equal and greater holds of a text, number or version, if it has one
      /\ s.d = 1 /\ x.t = "base" /\ x.leaf.k \in {"str", "ver", "msg", "int"} /\ x.leaf.key # "log_type" /\ x.leaf.op \in 1 .. 6 =>
           LET H(o) == LeafHolds(1, [x.leaf EXCEPT !.op = o], s.log, h)
               n == Cardinality({o \in {1, 3, 4} : H(o)})
           IN /\ n <= 1
              /\ (n = 1) = (H(3) \/ H(6))
              /\ H(2) = (H(1) \/ H(3))
              /\ H(5) = (H(4) \/ H(3))
StepOk(s, op, o) == op.op \in {"match", "select"} => o.s = s
=============================================================================
