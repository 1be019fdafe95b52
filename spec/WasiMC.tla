------------------------------- MODULE WasiMC -------------------------------
(* Exhaustive exploration of small file systems.  A scenario is a tree, a     *)
(* descriptor table and a menu of calls; a transition makes one call of the    *)
(* menu, with every outcome Wasi.tla allows.  New descriptors get the lowest   *)
(* free number (which number it is does not matter to the specification).      *)
(* What the guarantees of the system come to is stated independently below and *)
(* checked on every transition.  Every transition is printed as "T sc i1 .. ik"*)
(* (i negative: the call fails; after a comma the descriptor it opens), and     *)
(* those histories are replayed into the implementation.                       *)
EXTENDS Wasi, Json, IOUtils
LOCAL INSTANCE SequencesExt
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, S, hist, bad
vars == <<sc, S, hist, bad>>

\* Outputs in memory are not part of this model.
NoPost(c, a, k) == Zeros(k)

Dirs(T) == {n \in 1..Len(T.n) : T.n[n].k = "d"}
Live(T) == {n \in Dirs(T) : ~T.n[n].gone}
Up(T, n) == {<<d, x>> \in UNION {{<<d, x>> : x \in DOMAIN T.n[d].ents} : d \in Live(T)} : T.n[d].ents[x] = n}
Kids(T, D) == D \cup UNION {{T.n[d].ents[x] : x \in DOMAIN T.n[d].ents} : d \in D \cap Dirs(T)}
RECURSIVE Reach(_, _, _)
Reach(T, D, k) == IF k = 0 THEN D ELSE LET E == Kids(T, D) IN IF E = D THEN D ELSE Reach(T, E, k - 1)
From(T, D) == Reach(T, D, Len(T.n))

\* The directories form one tree; a removed directory is empty and nowhere.
TreeOK(T) == /\ \A n \in Live(T) : Cardinality(Up(T, n)) = (IF n = 1 THEN 0 ELSE 1)
             /\ Live(T) = From(T, {1}) \cap Dirs(T)
             /\ \A n \in Dirs(T) \ Live(T) : DOMAIN T.n[n].ents = {} /\ Up(T, n) = {}
             /\ \A n \in 1..Len(T.n) : /\ T.n[n].k # "d" => DOMAIN T.n[n].ents = {}
                                       /\ T.n[n].k # "f" => T.n[n].data = << >>
                                       /\ \A x \in DOMAIN T.n[n].ents : T.n[n].ents[x] \in 1..Len(T.n) /\ x \notin {"", ".", ".."}
FdsOK(T) == \A f \in DOMAIN T.fd : LET x == T.fd[f] IN
              /\ f >= 0 /\ x.o >= 0 /\ x.n \in 0..Len(T.n)
              /\ x.n # 0 => x.t = (IF T.n[x.n].k = "d" THEN 3 ELSE 4)
              /\ x.n # 0 => T.n[x.n].k # "l"
              /\ x.t = 3 => RSEEK \notin x.b
\* Confinement: nothing that only exists outside the directories given to the
\* guest at the start changes or is opened.
Inside(T0) == From(T0, {T0.fd[f].n : f \in DOMAIN T0.fd} \ {0})
Confined(T0, T) == LET out == (1..Len(T0.n)) \ Inside(T0)
                   IN /\ \A n \in out : T.n[n] = T0.n[n]
                      /\ \A f \in DOMAIN T.fd : T.fd[f].n \notin out
\* Rights come from a descriptor that had them, or could pass them on.
RightsOK(T, U) == \A f \in DOMAIN U.fd : \E g \in DOMAIN T.fd :
                     \/ U.fd[f].b \subseteq T.fd[g].b /\ U.fd[f].i \subseteq T.fd[g].i /\ U.fd[f].n = T.fd[g].n
                     \/ U.fd[f].b \cup U.fd[f].i \subseteq T.fd[g].i
\* The right without which a call must not succeed.
Need(c) == CASE c.f \in {"fd_read"} -> {RREAD} [] c.f = "fd_write" -> {RWRITE} [] c.f = "fd_pread" -> {RREAD, RSEEK}
             [] c.f = "fd_pwrite" -> {RWRITE, RSEEK} [] c.f = "fd_filestat_set_size" -> {RFSETSIZE} [] c.f = "fd_allocate" -> {RALLOCATE}
             [] c.f = "fd_readdir" -> {RREADDIR} [] c.f = "path_create_directory" -> {RCRDIR} [] c.f = "path_unlink_file" -> {RUNLINK}
             [] c.f = "path_remove_directory" -> {RRMDIR} [] c.f = "path_rename" -> {RRENSRC} [] c.f = "path_link" -> {RLINKSRC}
             [] c.f = "path_symlink" -> {RSYMLINK} [] c.f = "path_readlink" -> {RREADLINK} [] c.f = "path_filestat_get" -> {RPSTAT}
             [] c.f = "path_filestat_set_times" -> {RPSETTIMES} [] c.f = "fd_filestat_get" -> {RFSTAT} [] c.f = "fd_filestat_set_times" -> {RFSETTIMES}
             [] c.f = "fd_fdstat_set_flags" -> {RSETFLAGS} [] c.f = "path_open" -> {ROPEN}
             [] OTHER -> {}
Need2(c) == CASE c.f = "path_rename" -> {RRENTGT} [] c.f = "path_link" -> {RLINKTGT} [] OTHER -> {}
Permitted(T, c) == /\ c.fd \in DOMAIN T.fd /\ Need(c) \subseteq T.fd[c.fd].b
                   /\ c.f \in {"path_rename", "path_link"} => c.fd2 \in DOMAIN T.fd /\ Need2(c) \subseteq T.fd[c.fd2].b
\* A call leaves the descriptors it does not name alone, and opens at most one.
Apart(T, U, c) == /\ \A f \in (DOMAIN T.fd \cap DOMAIN U.fd) \ {c.fd, c.to} : U.fd[f] = T.fd[f]
                  /\ DOMAIN T.fd \ DOMAIN U.fd \subseteq (IF c.f \in {"fd_close", "fd_renumber"} THEN {c.fd} ELSE {})
                  /\ Cardinality(DOMAIN U.fd \ DOMAIN T.fd) = (IF c.f = "path_open" THEN 1 ELSE 0)
                  /\ c.f = "fd_close" => c.fd \notin DOMAIN U.fd
                  /\ (c.f = "fd_renumber" /\ c.fd # c.to) => c.fd \notin DOMAIN U.fd /\ U.fd[c.to] = T.fd[c.fd]
                  /\ c.f \notin {"fd_fdstat_set_rights", "fd_renumber"} => \A f \in DOMAIN T.fd \cap DOMAIN U.fd : U.fd[f].b = T.fd[f].b /\ U.fd[f].i = T.fd[f].i
\* Files are byte arrays: what a write or a change of size does to every byte.
At(d, k) == IF k <= Len(d) THEN d[k] ELSE 0
Bytewise(T, U, c) ==
  LET n == T.fd[c.fd].n
      p == CASE c.f = "fd_pwrite" -> c.off
             [] 0 \in T.fd[c.fd].fl -> Len(T.n[n].data)
             [] OTHER -> T.fd[c.fd].o
      k == Len(c.d)
      u == U.n[n].data
      t == T.n[n].data
  IN CASE n = 0 -> c.f # "fd_write" \/ U.so[T.fd[c.fd].o] = T.so[T.fd[c.fd].o] \o c.d
       [] c.f \in {"fd_write", "fd_pwrite"} ->
            /\ Len(u) = (IF k > 0 THEN Hi(Len(t), p + k) ELSE Len(t))
            /\ \A j \in 1..Len(u) : u[j] = IF p < j /\ j <= p + k THEN c.d[j - p] ELSE At(t, j)
            /\ U.fd[c.fd].o = (IF c.f = "fd_write" /\ k > 0 THEN p + k ELSE T.fd[c.fd].o)
       [] c.f = "fd_filestat_set_size" -> Len(u) = c.off /\ (\A j \in 1..Len(u) : u[j] = At(t, j)) /\ U.fd[c.fd].o = T.fd[c.fd].o
       [] c.f = "fd_allocate" -> Len(u) = Hi(Len(t), c.off + c.len) /\ (\A j \in 1..Len(u) : u[j] = At(t, j))
       [] c.f \in {"fd_read", "fd_pread", "fd_seek", "fd_tell"} -> U.n[n].data = t /\ (c.f \in {"fd_pread", "fd_tell"} => U.fd[c.fd] = T.fd[c.fd])
       [] OTHER -> TRUE
Files == {"fd_read", "fd_pread", "fd_write", "fd_pwrite", "fd_seek", "fd_tell", "fd_filestat_set_size", "fd_allocate"}
\* Only calls that are about it change the number of links or the contents.
Writes == {"fd_write", "fd_pwrite", "fd_filestat_set_size", "fd_allocate", "path_open"}
Moves == {"path_create_directory", "path_unlink_file", "path_remove_directory", "path_rename", "path_link", "path_symlink", "path_open"}
Quiet(T, U, c) == /\ c.f \notin Writes => \A n \in 1..Len(T.n) : U.n[n].data = T.n[n].data
                  /\ c.f \notin Moves => Len(U.n) = Len(T.n) /\ \A n \in 1..Len(T.n) : U.n[n].ents = T.n[n].ents
                  /\ \A n \in 1..Len(T.n) : U.n[n].k = T.n[n].k /\ U.n[n].tb = T.n[n].tb
                  /\ c.f = "path_rename" => \A n \in 1..Len(T.n) : T.n[n].k = "l" => Links(U, n) \in {Links(T, n), Links(T, n) - 1}
Law(k, T, U, c) ==
  CASE ~TreeOK(U) -> "TreeOK"
    [] ~FdsOK(U) -> "FdsOK"
    [] ~Confined(Start(Scen[k]), U) -> "Confined"
    [] ~RightsOK(T, U) -> "RightsOK"
    [] ~(c.f \in {"fd_sync", "fd_datasync", "fd_prestat_get", "fd_advise"} \/ Permitted(T, c)) -> "Permitted"
    [] ~Apart(T, U, c) -> "Apart"
    [] c.f \in Files /\ ~Bytewise(T, U, c) -> "Bytewise"
    [] ~Quiet(T, U, c) -> "Quiet"
    [] OTHER -> ""

Menu(i) == Sets(Scen[sc].menu[i])
Fresh == CHOOSE f \in 0..(Cardinality(DOMAIN S.fd)) : f \notin DOMAIN S.fd /\ \A g \in 0..f - 1 : g \in DOMAIN S.fd
Say(h) == "T " \o ToString(sc) \o FoldLeft(LAMBDA a, x : a \o " " \o x, "", h)

Init == sc \in 1..Len(Scen) /\ S = Start(Scen[sc]) /\ hist = << >> /\ bad = (IF TreeOK(S) /\ FdsOK(S) THEN "" ELSE "Init")
Succeed(i) == LET c == [Menu(i) EXCEPT !.r = 0, !.new = Fresh]
                  r == Call(S, c)
                  h == Append(hist, ToString(i) \o (IF c.f = "path_open" THEN "," \o ToString(Fresh) ELSE ""))
              IN /\ (r.err = {} \/ r.may) /\ ~r.stop
                 /\ PrintT(Say(h))
                 /\ S' = r.S /\ hist' = h /\ bad' = Law(sc, S, r.S, c) /\ UNCHANGED sc
Fail(i) == LET c == [Menu(i) EXCEPT !.r = 1, !.new = 0 - 1]
               r == Call(S, c)
           IN /\ r.err # {}
              /\ ~r.may => bad' = (IF r.S = S THEN "" ELSE "a failing call has an effect")
              /\ r.may => bad' = ""
              /\ ~r.may => PrintT(Say(Append(hist, "-" \o ToString(i))))
              /\ hist' = Append(hist, "-" \o ToString(i)) /\ UNCHANGED <<sc, S>>
Next == Len(hist) < Scen[sc].depth /\ \E i \in 1..Len(Scen[sc].menu) : Succeed(i) \/ Fail(i)
Spec == Init /\ [][Next]_vars
Safe == bad = ""

\* States that differ only in node numbers or in what is known about times are
\* the same: a node is identified by its paths and by the descriptors on it.
RECURSIVE Paths(_, _, _, _)
Paths(T, d, pre, n) == UNION {LET p == Append(pre, x)
                                  id == T.n[d].ents[x]
                              IN (IF id = n THEN {p} ELSE {}) \cup (IF T.n[id].k = "d" THEN Paths(T, id, p, n) ELSE {}) : x \in DOMAIN T.n[d].ents}
V == <<sc, bad, S.inp, S.so,
       {<<Paths(S, 1, << >>, n), {f \in DOMAIN S.fd : S.fd[f].n = n}, S.n[n].k, S.n[n].data, S.n[n].tb, S.n[n].gone>> : n \in 1..Len(S.n)},
       {<<f, S.fd[f].o, S.fd[f].fl, S.fd[f].b, S.fd[f].i, S.fd[f].t, S.fd[f].pre>> : f \in DOMAIN S.fd}>>
=============================================================================
