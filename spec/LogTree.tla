------------------------------ MODULE LogTree -------------------------------
(* C29, C30: what a matcher says about a log.  Two configuration dialects share the boolean tree: dialect 1 is the public
   matcher of workflows and filters (bd-log-matcher), dialect 2 the one that selects buffers (bd-matcher).
   Text is a sequence of one-character strings, so that comparison, numbers, versions and patterns are all defined here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max32 == 2147483647
Min32 == -2147483647 - 1

\* ---------------------------------------------------------------- text
Alphabet == <<" ", "$", "(", "*", "+", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", "A", "B", "E", "I", "N", "X", "Z", "[", "]",
  "^", "_", "a", "b", "c", "d", "e", "f", "g", "h", "i", "k", "l", "m", "n", "o", "p", "r", "s", "t", "u", "v", "w", "x", "y", "z", "~">>
OrdF == [c \in {Alphabet[i] : i \in DOMAIN Alphabet} |-> CHOOSE i \in DOMAIN Alphabet : Alphabet[i] = c]
Ord(c) == OrdF[c]
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] = b[i] THEN CmpFrom(a, b, i + 1)
  ELSE IF Ord(a[i]) < Ord(b[i]) THEN -1 ELSE 1
CmpText(a, b) == CmpFrom(a, b, 1)
Find(s, c) == IF \E i \in DOMAIN s : s[i] = c THEN CHOOSE i \in DOMAIN s : s[i] = c /\ \A j \in 1 .. i - 1 : s[j] # c ELSE 0
Before(s, c) == IF Find(s, c) = 0 THEN s ELSE SubSeq(s, 1, Find(s, c) - 1)
RECURSIVE Split(_, _)
Split(s, c) == IF Find(s, c) = 0 THEN <<s>> ELSE <<SubSeq(s, 1, Find(s, c) - 1)>> \o Split(SubSeq(s, Find(s, c) + 1, Len(s)), c)

\* ---------------------------------------------------------------- numbers
DigitVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> Ord(c) - Ord("0")]
IsDigits(s) == \A i \in DOMAIN s : s[i] \in DOMAIN DigitVal
\* minus the number written by digits, no less than Min32
RECURSIVE NegOf(_, _, _)
NegOf(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF acc < -214748364 \/ (acc = -214748364 /\ DigitVal[s[i]] > 8) THEN Min32
  ELSE NegOf(s, i + 1, acc * 10 - DigitVal[s[i]])
\* floating-point text that is not plain decimal notation, and the integer it is taken as
Special == << <<"nan", 0>>, <<"NaN", 0>>, <<"-nan", 0>>, <<"inf", Max32>>, <<"-inf", Min32>>, <<"+inf", Max32>>, <<"infinity", Max32>>, <<"1e3", 1000>>,
              <<"1E3", 1000>>, <<"-1e3", -1000>>, <<"25e-1", 2>>, <<"1e400", Max32>>, <<"1e-400", 0>> >>
RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o Join(s, i + 1)
\* <<>> if the text is not a number, otherwise the number cut to an integer of 32 bits
Number(s) ==
  LET t == Join(s, 1)
      sp == {i \in DOMAIN Special : Special[i][1] = t}
      signed == Len(s) > 0 /\ s[1] \in {"-", "+"}
      neg == signed /\ s[1] = "-"
      u == IF signed THEN SubSeq(s, 2, Len(s)) ELSE s
      parts == Split(u, ".")
      n == NegOf(parts[1], 1, 0)
  IN IF sp # {} THEN <<Special[CHOOSE i \in sp : TRUE][2]>>
     ELSE IF u = <<>> \/ Len(parts) > 2 \/ ~IsDigits(parts[1]) \/ (Len(parts) = 2 /\ ~IsDigits(parts[2])) \/ u = <<".">> THEN <<>>
     ELSE <<IF neg THEN n ELSE IF n = Min32 THEN Max32 ELSE -n>>

\* ---------------------------------------------------------------- versions
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
CmpDigits(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpText(a, b)
U32Max == <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "5">>
IsNum(s) == s # <<>> /\ IsDigits(s) /\ CmpDigits(NoZeros(s), U32Max) <= 0
Shown(s) == IF IsNum(s) THEN NoZeros(s) ELSE s
CmpSegment(a, b) == IF IsNum(a) /\ IsNum(b) THEN CmpDigits(NoZeros(a), NoZeros(b)) ELSE CmpText(Shown(a), Shown(b))
Segments(s) == Split(Before(Before(s, "-"), "+"), ".")
RECURSIVE CmpSegs(_, _, _)
CmpSegs(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE LET c == CmpSegment(IF i > Len(a) THEN <<"0">> ELSE a[i], IF i > Len(b) THEN <<"0">> ELSE b[i])
       IN IF c # 0 THEN c ELSE CmpSegs(a, b, i + 1)
CmpVersion(a, b) == CmpSegs(Segments(a), Segments(b), 1)

\* ---------------------------------------------------------------- patterns: literal characters and ".", perhaps anchored
PatternOk(p) == \A i \in DOMAIN p : p[i] \notin {"[", "("}
Core(p) == SelectSeq(p, LAMBDA c : c \notin {"^", "$"})
Found(p, s) ==
  LET q == Core(p) IN
  \E i \in 0 .. Len(s) - Len(q) :
    /\ \A j \in DOMAIN q : q[j] \in {".", s[i + j]}
    /\ (Len(p) > 0 /\ p[1] = "^") => i = 0
    /\ (Len(p) > 0 /\ p[Len(p)] = "$") => i = Len(s) - Len(q)

\* ---------------------------------------------------------------- leaves
\* operators of dialect 1: 0 none, 1 <, 2 <=, 3 =, 4 >, 5 >=, 6 not equal, 7 pattern, others unknown
Holds(op, c) ==
  CASE op = 1 -> c = -1
    [] op = 2 -> c # 1
    [] op = 3 -> c = 0
    [] op = 4 -> c = 1
    [] op = 5 -> c # -1
    [] op = 6 -> c # 0
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
Valid(d, l) ==
  IF d = 1 THEN
    CASE l.k \in {"none", "noval"} -> FALSE
      [] l.k = "set" -> TRUE
      [] l.k = "int" -> IF l.key = "log_type" THEN l.n >= 0 ELSE l.op \in 1 .. 6
      [] l.k \in {"str", "ver", "msg"} -> l.op \in 1 .. 6 \/ (l.op = 7 /\ PatternOk(l.v))
  ELSE
    CASE l.k = "none" -> FALSE
      [] l.k \in {"any", "ty"} -> TRUE
      [] l.k = "lv" -> l.op \in 0 .. 4 /\ l.n >= 0
      [] l.k \in {"msg", "tag"} -> l.op \in 0 .. 1 \/ (l.op = 2 /\ PatternOk(l.v))

First(fs, key) == IF \E i \in DOMAIN fs : fs[i].key = key THEN CHOOSE i \in DOMAIN fs : fs[i].key = key /\ \A j \in 1 .. i - 1 : fs[j].key # key ELSE 0
\* the text of a field: <<>> or <<text>>.  A captured field comes first; whether one that is not text hides a matching-only
\* one of its name (it has no text itself) is left open: hid
Text(log, key, hid) ==
  LET c == First(log.cap, key)
      m == First(log.mat, key)
  IN IF c # 0 /\ ~log.cap[c].b THEN <<log.cap[c].v>>
     ELSE IF c # 0 /\ hid THEN <<>>
     ELSE IF m # 0 /\ ~log.mat[m].b THEN <<log.mat[m].v>>
     ELSE <<>>
MsgText(log) == IF log.msg.b THEN <<>> ELSE <<log.msg.v>>
Cmp3(l, x) == IF l.k = "ver" THEN CmpVersion(x, l.v) ELSE CmpText(x, l.v)
\* a level or type of -1 stands for the largest unsigned number
LeafHolds(d, l, log, hid) ==
  IF d = 1 THEN
    CASE l.k = "int" /\ l.key = "log_level" -> log.lv >= 0 /\ Holds(l.op, CmpInt(log.lv, l.n))
      [] l.k = "int" /\ l.key = "log_type" -> log.ty = l.n
      [] l.k = "int" /\ l.key \notin {"log_level", "log_type"} ->
           LET t == Text(log, l.key, hid) IN t # <<>> /\ LET n == Number(t[1]) IN n # <<>> /\ Holds(l.op, CmpInt(n[1], l.n))
      [] l.k = "set" -> Text(log, l.key, hid) # <<>>
      [] l.k \in {"str", "ver", "msg"} ->
           LET t == IF l.k = "msg" THEN MsgText(log) ELSE Text(log, l.key, hid)
           IN t # <<>> /\ IF l.op = 7 THEN Found(l.v, t[1]) ELSE Holds(l.op, Cmp3(l, t[1]))
  ELSE
    CASE l.k = "any" -> TRUE
      [] l.k = "ty" -> log.ty = l.n
      [] l.k = "lv" -> LET c == IF log.lv < 0 THEN 1 ELSE CmpInt(log.lv, l.n) IN Holds(l.op + 1, c)
      [] l.k \in {"msg", "tag"} ->
           LET t == IF l.k = "msg" THEN MsgText(log) ELSE Text(log, l.key, hid)
           IN /\ t # <<>>
              /\ CASE l.op = 0 -> t[1] = l.v
                   [] l.op = 1 -> Len(t[1]) >= Len(l.v) /\ SubSeq(t[1], 1, Len(l.v)) = l.v
                   [] l.op = 2 -> Found(l.v, t[1])

\* ---------------------------------------------------------------- trees: [t, leaf] or [t, kids]
RECURSIVE TreeOk(_, _), Eval(_, _, _, _)
TreeOk(d, x) == CASE x.t = "base" -> Valid(d, x.leaf) [] x.t = "missing" -> FALSE [] OTHER -> \A i \in DOMAIN x.kids : TreeOk(d, x.kids[i])
Eval(d, x, log, hid) ==
  CASE x.t = "base" -> LeafHolds(d, x.leaf, log, hid)
    [] x.t = "or" -> \E i \in DOMAIN x.kids : Eval(d, x.kids[i], log, hid)
    [] x.t = "and" -> \A i \in DOMAIN x.kids : Eval(d, x.kids[i], log, hid)
    [] x.t = "not" -> ~Eval(d, x.kids[1], log, hid)

NoLog == [lv |-> 2, ty |-> 0, msg |-> [b |-> FALSE, v |-> <<"a">>], cap |-> <<>>, mat |-> <<>>]
Quiet(s) == {[s |-> s, res |-> "ok"]}
=============================================================================
