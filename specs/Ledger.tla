------------------------------ MODULE Ledger ------------------------------
(* Design model of one exchange account: any order on any tick, in any     *)
(* sequence.  The listed account properties are invariants of this machine *)
(* or are asserted on every transition; LedgerTrace binds it to the code.  *)
EXTENDS LedgerOps, FiniteSets, TLC

CONSTANTS Configs,      \* set of account configurations (tol = 0)
          Starts,       \* set of start accounts
          Ticks,        \* set of ticks
          Orders,       \* set of orders
          MaxBase, MaxQuote, MaxFee

VARIABLES cfg, acct
vars == <<cfg, acct>>

(* P02: rounding never favours the trader: value at the execution price     *)
(* drops by the fee and by less than one quote unit.                        *)
Conserved(o, t, pre, ba, post) ==
  LET P == ExecPrice(cfg, o, t)
      before == pre.b * P[1] + (pre.q + pre.f) * P[2]
      after == post.b * P[1] + (post.q + post.f) * P[2]
  IN /\ after <= before
     /\ before - after < Max2(1, cfg.qu) * P[2]
(* P06 *)
Budget(o, t, pre, ba, post) ==
  LET spent == pre.q - post.q IN
  /\ o.kd = "quote" /\ o.sd = "BUY" => 2 * spent <= 2 * o.am + cfg.qu
  /\ o.kd = "quote" /\ o.sd = "SELL" => 2 * (-spent) <= 2 * o.am + cfg.qu
  /\ o.kd = "base" => 2 * ba <= 2 * o.am + cfg.bu
  /\ o.ty = "LIMIT" /\ cfg.rn > 0 => ba * cfg.rd <= Vol(t) * cfg.rn
(* P04 *)
PriceBand(o, t, pre, ba, post) ==
  LET P == ExecPrice(cfg, o, t) IN
  /\ Triggered(o, t)
  /\ o.ty # "LIMIT" => Low(t) * P[2] <= P[1] /\ P[1] <= High(t) * P[2]
  /\ o.ty = "LIMIT" => P = <<o.pr, 1>>
(* P03 *)
FeeDue(o, t, pre, ba, post) ==
  LET s == cfg.fees[o.ty]
      fee == post.f - pre.f
      exchanged == IF o.sd = "BUY" THEN pre.q - post.q - fee ELSE post.q - pre.q + fee
  IN /\ fee >= s[4] /\ fee * s[2] >= s[3] * s[2] + exchanged * s[1]
     /\ fee = 0 \/ fee - Max2(1, cfg.qu) < s[4]
        \/ (fee - Max2(1, cfg.qu)) * s[2] < s[3] * s[2] + exchanged * s[1]

Init == /\ cfg \in Configs
        /\ acct \in {a \in Starts : (cfg.bu > 0 => a.b % cfg.bu = 0) /\ (cfg.qu > 0 => a.q % cfg.qu = 0)}
Execute(o, t, r) ==
  \* With unlimited precision (bu = 0) the model trades whole micros.
  /\ r.may
  /\ \E ba \in IF cfg.bu = 0 THEN {r.b[1]} ELSE {n \in r.b[1] .. r.b[2] : n % cfg.bu = 0} :
     /\ ba > 0
     /\ acct' = Apply(cfg, acct, o, t, ba)
     /\ Assert(Conserved(o, t, acct, ba, acct'), <<"Conserved", cfg, o, t, acct>>)
     /\ Assert(Budget(o, t, acct, ba, acct'), <<"Budget", cfg, o, t, acct>>)
     /\ Assert(PriceBand(o, t, acct, ba, acct'), <<"PriceBand", cfg, o, t, acct>>)
     /\ Assert(FeeDue(o, t, acct, ba, acct'), <<"FeeDue", cfg, o, t, acct>>)
     /\ UNCHANGED cfg
Refuse(o, t, r) ==
  /\ ~r.must
  /\ UNCHANGED vars
Next == \E o \in Orders, t \in Ticks :
          LET r == Outcome(cfg, acct, o, t) IN
          /\ Assert(r.must => r.may, <<"Decided", cfg, o, t, acct>>)     \* P05
          /\ Execute(o, t, r) \/ Refuse(o, t, r)
Spec == Init /\ [][Next]_vars

StateBound == acct.b <= MaxBase /\ acct.q <= MaxQuote /\ acct.f <= MaxFee

(* P01 *) Solvent == acct.b >= 0 /\ acct.q >= 0 /\ acct.f >= 0
(* P01 *) FeeMonotone == [][acct'.f >= acct.f]_vars
(* P07 *) OnGrid == /\ cfg.bu > 0 => acct.b % cfg.bu = 0
                    /\ cfg.qu > 0 => acct.q % cfg.qu = 0 /\ acct.f % cfg.qu = 0
=============================================================================
