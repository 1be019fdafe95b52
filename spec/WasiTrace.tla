----------------------------- MODULE WasiTrace -----------------------------
(* Trace validation of recorded WASI histories, one per line: the initial     *)
(* tree and descriptors and then the calls, each with its code r (-1 trap,    *)
(* -2 no answer), the memory it changed (diff), the bytes it left at its       *)
(* outputs (post) and, if taken, a snapshot of the whole tree.                *)
EXTENDS Wasi, Json, IOUtils
LOCAL INSTANCE SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
LANES == 64

VARIABLES pos, bad
vars == <<pos, bad>>

RECURSIVE Covered(_, _, _)
Covered(a, l, rng) == l <= 0 \/ \E j \in 1..Len(rng) : rng[j].a <= a /\ a < rng[j].a + rng[j].l
                                                       /\ Covered(rng[j].a + rng[j].l, l - (rng[j].a + rng[j].l - a), rng)
Within(c, rng) == \A i \in 1..Len(c.diff) : Covered(c.diff[i].a, c.diff[i].l, rng)

IO == {"fd_read", "fd_pread", "fd_write", "fd_pwrite", "sock_recv", "sock_send"}
\* One call: [S, bad, stop].
Step(st, c0, ms) ==
  IF st.stop \/ st.bad # "" THEN st
  ELSE
  LET c == Sets(c0)
      no(w) == [st EXCEPT !.bad = w]
  IN IF c.ms # ms THEN no("memory size changed")
     ELSE IF c.r = 0 - 2 THEN no("no answer")
     ELSE IF c.r < 0 - 2 THEN no("left by another way")
     ELSE IF ~Bounds(c)
     THEN (IF ~Within(c, c.loc) THEN no("memory outside the given buffers changed")
           ELSE IF c.r = 0 /\ (\E i \in 1..Len(c.loc) : ~c.loc[i].s /\ c.loc[i].l > 0 /\ ~In(c, c.loc[i].a, c.loc[i].l)) THEN no("success with buffers out of bounds")
           \* buffers out of bounds: nothing was read, written, sent or received
           ELSE IF c.r # 0 /\ c.f \in IO /\ In(c, c.out, 4) /\ (c.f = "sock_recv" => In(c, c.out2, 2))
           THEN (IF ~PeersOK(st.S, c.rx) THEN no("what the other ends of sockets received")
                 ELSE IF c.snapped /\ Flat(st.S, 1, << >>) # Set(c.snap) THEN no("directory tree") ELSE st)
           ELSE [st EXCEPT !.stop = TRUE])
     ELSE IF c.r = 0 - 1 THEN no("trap")
     ELSE
     LET r == Call(st.S, c)
         S1 == IF c.r = 0 THEN r.S ELSE After(st.S, c.late)
     IN IF c.r # 0 /\ c.r \notin r.err THEN no("error code; specified: " \o ToString(r.err))
        ELSE IF c.r = 0 /\ r.err # {} /\ ~r.may THEN no("success; specified: " \o ToString(r.err))
        ELSE IF c.r # 0 /\ c.diff # << >> /\ ~r.stop THEN no("memory changed by a failing call")
        ELSE IF ~Within(c, r.rng) THEN no("memory outside the outputs changed")
        ELSE IF c.r = 0 /\ ~r.chk THEN no("results in memory")
        ELSE IF ~r.stop /\ ~PeersOK(S1, c.rx) THEN no("what the other ends of sockets received")
        ELSE IF c.snapped /\ ~r.stop /\ Flat(S1, 1, << >>) # Set(c.snap) THEN no("directory tree")
        ELSE [st EXCEPT !.S = S1, !.stop = r.stop]

Verdict(h) ==
  LET z == [S |-> Start(h), bad |-> "", stop |-> FALSE, at |-> 0]
      e == FoldLeft(LAMBDA st, i : IF st.stop \/ st.bad # "" THEN st ELSE [Step(st, h.calls[i], h.ms) EXCEPT !.at = i], z, [i \in 1..Len(h.calls) |-> i])
  IN IF e.bad # "" THEN <<e.at, e.bad>>
     ELSE IF e.stop THEN <<0 - e.at, "">>
     ELSE IF ~h.whole THEN <<Len(h.calls) + 1, "the driver gave up">>
     ELSE IF h.lost # 0 THEN <<Len(h.calls) + 1, "descriptors of the embedder were closed">>
     ELSE IF h.held > Cardinality({f \in DOMAIN e.S.fd : IsDir(e.S, f) \/ IsFile(e.S, f)})
     THEN <<Len(h.calls) + 1, "host descriptors held for the tree">>
     ELSE IF h.so # e.S.so THEN <<Len(h.calls) + 1, "bytes on the standard streams">>
     ELSE <<0, "">>

RECURSIVE Judge(_, _)
Judge(p, k) == IF p > N \/ k = 0 THEN << >> ELSE <<<<p>> \o Verdict(Trace[p])>> \o Judge(p + LANES, k - 1)
Init == pos \in 1..(IF N < LANES THEN N ELSE LANES) /\ bad = << >>
Next == pos <= N /\ pos' = pos + LANES * 2 /\ bad' = Judge(pos, 2)
Spec == Init /\ [][Next]_vars
Report == \A i \in 1..Len(bad) :
            /\ bad[i][3] # "" => PrintT("REJECT " \o ToString(bad[i][1]) \o " " \o ToString(bad[i][2]) \o " " \o bad[i][3])
            /\ bad[i][2] < 0 => PrintT("STOP " \o ToString(bad[i][1]) \o " " \o ToString(0 - bad[i][2]))
=============================================================================
