------------------------------ MODULE ExecTrace ------------------------------
(* Trace validation of whole executions: each scenario carries modules, host  *)
(* programs, a script and the log recorded from the implementation.           *)
EXTENDS Wasm
K == 400
MaxBatches == 400

VARIABLES s, n
vars == <<s, n>>
Init == n = 0 /\ s \in {Start(k, Scen[k].script) : k \in 1..Len(Scen)}
Next == ~s.fin /\ n < MaxBatches /\ s' = Run(s, K) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Report == /\ s.rej # "" => PrintT("REJECT " \o ToString(s.sc) \o " " \o ToString(s.lp) \o " " \o s.rej)
          /\ s.nd => PrintT("UNDETERMINED " \o ToString(s.sc) \o " " \o ToString(s.lp))
          /\ (n = MaxBatches /\ ~s.fin) => PrintT("TOOLONG " \o ToString(s.sc))
\* The scenario number and progress identify a state.
V == <<s.sc, n>>
=============================================================================
