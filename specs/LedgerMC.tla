----------------------------- MODULE LedgerMC -----------------------------
(* Constants for the exhaustive check of Ledger; also the enumerated world *)
(* that is replayed transition by transition into the real account code.   *)
EXTENDS Ledger, Json, IOUtils
Z == <<0, 1, 0, 0>>
FeesA == [MARKET |-> Z, STOP |-> Z, LIMIT |-> Z]
FeesB == [MARKET |-> <<1, 4, 0, 0>>, STOP |-> <<1, 2, 0, 1>>, LIMIT |-> <<0, 1, 1, 0>>]
FeesC == [MARKET |-> <<1, 4, 1, 2>>, STOP |-> <<0, 1, 0, 3>>, LIMIT |-> <<1, 8, 0, 0>>]
FeesD == [MARKET |-> <<0, 1, 1, 0>>, STOP |-> <<1, 1, 0, 1>>, LIMIT |-> <<0, 1, 0, 2>>]
C(bu, qu, fees, ln, ld, rn, rd) ==
  [bu |-> bu, qu |-> qu, tol |-> 0, ln |-> ln, ld |-> ld, rn |-> rn, rd |-> rd, fees |-> fees]
MCConfigs == {C(1, 1, FeesA, 1, 1, 0, 1), C(2, 1, FeesB, 1, 2, 1, 2), C(1, 2, FeesC, 0, 1, 0, 1),
              C(2, 3, FeesB, 1, 1, 1, 1), C(0, 1, FeesA, 1, 2, 1, 2), C(1, 0, FeesD, 1, 1, 0, 1)}
MCStarts == {[b |-> b, q |-> q, f |-> 0] : b \in {0, 2, 4}, q \in {0, 6, 12}}
MCTicks == {<<2, 4, 2, 2, 4>>, <<4, 6, 2, 2, 1>>, <<2, 4, 2, 4, 0>>, <<6, 6, 4, 4, 8>>}
MCOrders ==
  {[ty |-> "MARKET", sd |-> sd, kd |-> kd, am |-> am, pr |-> 0] :
     sd \in {"BUY", "SELL"}, kd \in {"base", "quote"}, am \in {1, 3, 7}}
  \union
  {[ty |-> ty, sd |-> sd, kd |-> kd, am |-> am, pr |-> pr] :
     ty \in {"STOP", "LIMIT"}, sd \in {"BUY", "SELL"}, kd \in {"base", "quote"}, am \in {1, 3, 7}, pr \in {2, 4, 6}}
MCMaxBase == 4
MCMaxQuote == 14
MCMaxFee == 3
World == [configs |-> MCConfigs, ticks |-> MCTicks, orders |-> MCOrders]
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.WORLD_FILE, World)
=============================================================================
