---------------------------- MODULE SdkMetadata ----------------------------
(* C39: what the SDK says about itself (bd-metadata). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Cfgs, Keys, Values

S0(cfg) == [x |-> 0]
ConfigVersion == "26"
Os(op) == IF op.platform = "other" THEN op.os ELSE op.platform
Kind(op) == CASE op.platform \in {"android", "ios"} -> "mobile" [] op.platform = "pulse" -> "pulse" [] OTHER -> op.kind
Own == {"config_version", "os", "kind", "sdk_version"}
OwnOf(op) == {<<"config_version", ConfigVersion>>, <<"os", Os(op)>>, <<"kind", Kind(op)>>, <<"sdk_version", op.version>>}
App(op) == {op.app[i] : i \in 1 .. Len(op.app)}

Outcomes(s, op) == {[s |-> s, res |-> OwnOf(op) \cup {p \in App(op) : p[1] \notin Own}]}

Ops(s) == {[op |-> "collect", platform |-> p, os |-> o, kind |-> k, version |-> v, app |-> a] :
             p \in {"android", "ios", "pulse", "other"}, o \in {"x", ""}, k \in {"y"}, v \in {"1.2", ""},
             a \in {<<>>} \cup {<< <<k1, v1>> >> : k1 \in Keys, v1 \in Values}
                   \cup {<< <<k1, "p">>, <<k2, "q">> >> : <<k1, k2>> \in {<<a, b>> \in Keys \X Keys : a # b}}}

Inv(s) == TRUE
StepOk(s, op, o) ==
  /\ OwnOf(op) \subseteq o.res
  /\ \A p \in o.res : p \in OwnOf(op) \/ p \in App(op)
  /\ \A p \in App(op) : p \in o.res \/ p[1] \in Own
  /\ \A p, q \in o.res : p[1] = q[1] => p = q
=============================================================================
