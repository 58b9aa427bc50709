------------------------------ MODULE Evaluate ------------------------------
(* Design model of the evaluation loop (eval/eval.cc, EvaluateTrader): goes  *)
(* through the month offsets, runs a fresh trader on the ticks of each       *)
(* non-empty window and stops at the first window that ends after the end.   *)
EXTENDS EvaluateOps

CONSTANTS Configs, Histories

VARIABLES g, T, k, out, ph
vars == <<g, T, k, out, ph>>
Init == g \in Configs /\ T \in Histories /\ k = 0 /\ out = <<>> /\ ph = "loop"
Stop == /\ ph = "loop" /\ WEnd(g, k) > g.e /\ ph' = "done" /\ UNCHANGED <<g, T, k, out>>
Skip == /\ ph = "loop" /\ WEnd(g, k) <= g.e /\ Inside(g, T, WStart(g, k), WEnd(g, k)) = <<>>
        /\ IF g.n > 0 THEN k' = k + 1 /\ UNCHANGED ph ELSE ph' = "done" /\ UNCHANGED k
        /\ UNCHANGED <<g, T, out>>
Run == /\ ph = "loop" /\ WEnd(g, k) <= g.e
       /\ LET in == Inside(g, T, WStart(g, k), WEnd(g, k)) IN
          in # <<>> /\ out' = Append(out, [s |-> WStart(g, k), e |-> WEnd(g, k), in |-> in])
       /\ IF g.n > 0 THEN k' = k + 1 /\ UNCHANGED ph ELSE ph' = "done" /\ UNCHANGED k
       /\ UNCHANGED <<g, T>>
Next == Stop \/ Skip \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* P14 *) Exactly == ph = "done" => out = Fed(g, T)
(* P14 *) Terminates == <>(ph = "done")
(* P14: no tick of a period lies outside of it, none inside is missing *)
Complete == \A j \in DOMAIN out : \A i \in DOMAIN T :
  (i \in {out[j].in[x] : x \in DOMAIN out[j].in}) <=> (T[i][1] >= out[j].s /\ T[i][1] < out[j].e)
Ordered == \A j \in DOMAIN out : j > 1 => out[j - 1].s < out[j].s
=============================================================================
