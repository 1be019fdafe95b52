------------------------------- MODULE ExecMC -------------------------------
(* Exhaustive exploration of small systems.  A scenario (mode "free") carries *)
(* a setup script and a menu of embedder programs.  A state is what the       *)
(* machine looks like between two embedder actions; a transition runs one     *)
(* menu entry to its end, checking the machine's own safety properties at     *)
(* every micro step.  Every transition found is printed as "T sc i1 i2 .. ik": *)
(* those histories are then replayed into the implementation.                 *)
EXTENDS Wasm
CONSTANT MaxMicro
VARIABLES s, hist, bad
vars == <<s, hist, bad>>

Judge(t, u) == CASE ~StateOK(u) -> "StateOK"
                 [] ~GrowsOnly(t, u) -> "GrowsOnly"
                 [] ~TrapIsClean(t, u) -> "TrapIsClean"
                 [] ~FramesIsolated(t, u) -> "FramesIsolated"
                 [] OTHER -> ""

RECURSIVE Go(_, _, _)
Go(t, b, n) == IF t.fin \/ b # "" THEN <<t, b>>
               ELSE IF n = 0 THEN <<t, "does not end">>
               ELSE LET r == FoldLeft(LAMBDA p, i : IF p[1].fin \/ p[2] # "" THEN p
                                                    ELSE LET u == Step(p[1]) IN <<u, Judge(p[1], u)>>,
                                      <<t, b>>, Idx(50))
                    IN Go(r[1], r[2], n - 1)
Act(t, prog) == Go([t EXCEPT !.script = prog, !.fin = FALSE, !.caps = << >>, !.stk = <<HostFrame(0, << >>, << >>)>>],
                   "", MaxMicro)

Init == \E k \in 1..Len(Scen) :
          LET r == Go(Start(k, Scen[k].script), "", MaxMicro)
          IN s = r[1] /\ bad = r[2] /\ hist = << >>

Say(h) == "T " \o ToString(s.sc) \o FoldLeft(LAMBDA a, i : a \o " " \o ToString(i), "", h)

Next == /\ Len(hist) < Scen[s.sc].depth
        /\ \E i \in 1..Len(Scen[s.sc].menu) :
             LET r == Act(s, Scen[s.sc].menu[i])
             IN /\ PrintT(Say(Append(hist, i)))
                /\ s' = r[1] /\ bad' = r[2] /\ hist' = Append(hist, i)

Spec == Init /\ [][Next]_vars

Safe == bad = "" /\ s.rej = "" /\ Len(s.stk) = 1 /\ ~s.nd
\* The store between two actions identifies a state.
Store == [s EXCEPT !.stk = << >>, !.script = << >>, !.lp = 0, !.caps = << >>, !.sig = FALSE]
V == <<Store, bad>>
=============================================================================
