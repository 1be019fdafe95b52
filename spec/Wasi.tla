-------------------------------- MODULE Wasi --------------------------------
(* WASI preview 1 as a machine over a directory tree and a descriptor table.  *)
(*                                                                            *)
(* State: n   nodes of the tree, by number.  A node has a kind k ("d", "f",   *)
(*            "l"), entries ents (name -> node), data (bytes), a link target  *)
(*            t (text) tc (components) tb (bytes), gone (a removed            *)
(*            directory), and times at, mt: << >> unknown, <<v>> the 8 bytes  *)
(*            v, <<lo, hi>> a window.                                         *)
(*        fd  descriptors: number -> [n, o, fl, b, i, t, pre]: node, offset,  *)
(*            flags, rights, inheriting rights, file type, preopen name ("").  *)
(*            Node 0 stands for the standard streams.                         *)
(*        in, inp  bytes of standard input and how many are consumed;          *)
(*        so  bytes written to each standard stream; rd what is known of the  *)
(*            cookies of directories; ino the inode bytes of nodes.           *)
(*        conf what the embedder configured.                                  *)
(*        sk   sockets, by node (kind "s"): ty "stream", "dgram" or "listen",   *)
(*             rx what has arrived (bytes, or messages), tx what the peer got,  *)
(*             eof the peer sends no more, gone it receives no more, rd wr       *)
(*             whether this end still receives and sends, p the peer, q the      *)
(*             connections waiting to be accepted, acc whether it was.           *)
(*                                                                            *)
(* Do(S, c) is what the call c does: [err, may, S, rng, chk, stop].           *)
(*   err  error codes it may fail with; << >> none: it must succeed;          *)
(*   may  whether it may succeed although err is not empty;                   *)
(*   S    the state after success;  rng the memory it may write;              *)
(*   chk  whether the outputs it left in memory are right;                    *)
(*   stop the outcome is not determined: nothing after it is judged.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt


ACCES == 2  BADF == 8  EXIST == 20  FAULT == 21  FBIG == 22  ILSEQ == 25  INVAL == 28  ISDIR == 31  LOOP == 32
NAMETOOLONG == 37  NOENT == 44  NOSPC == 51  NOMEM == 48  NOSYS == 52  NOTDIR == 54  NOTEMPTY == 55  NOTSOCK == 57  NOTSUP == 58
OVERFLOW == 61  PERM == 63  SPIPE == 70  NOTCAPABLE == 76  BUSY == 10  MLINK == 34  XDEV == 75  NOTCONN == 53  PIPE == 64  AGAIN == 6
ANY == 1..76
ESC == {PERM, NOTCAPABLE, ACCES}

RDATASYNC == 0  RREAD == 1  RSEEK == 2  RSETFLAGS == 3  RSYNC == 4  RTELL == 5  RWRITE == 6  RADVISE == 7  RALLOCATE == 8
RCRDIR == 9  RCRFILE == 10  RLINKSRC == 11  RLINKTGT == 12  ROPEN == 13  RREADDIR == 14  RREADLINK == 15  RRENSRC == 16  RRENTGT == 17
RPSTAT == 18  RPSETSIZE == 19  RPSETTIMES == 20  RFSTAT == 21  RFSETSIZE == 22  RFSETTIMES == 23  RSYMLINK == 24  RRMDIR == 25  RUNLINK == 26
RPOLL == 27  RSHUT == 28  RACCEPT == 29
PATHRIGHTS == (9..13) \cup (15..20) \cup (24..26)

\* Integers beyond this are clipped to it in the logs.
BIG == 1000000000

Set(s) == {s[i] : i \in 1..Len(s)}
Fold(F(_, _), s, z) == FoldLeft(F, z, s)
Zeros(k) == [i \in 1..k |-> 0]
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Bytes(v, k) == LET B[i \in 0..k] == IF i = 0 THEN << <<>>, v >> ELSE <<Append(B[i - 1][1], B[i - 1][2] % 256), B[i - 1][2] \div 256>> IN B[k][1]
Mask(m) == {i \in 0..29 : (m \div (2^i)) % 2 = 1}
\* Bytes of a set of bits.
SetBytes(s, k) == [i \in 1..k |-> LET B[j \in 0..8] == IF j = 8 THEN 0 ELSE (IF (8 * (i - 1) + j) \in s THEN 2^j ELSE 0) + B[j + 1] IN B[0]]
\* Little-endian byte strings of equal length, as numbers.
RECURSIVE LE(_, _)
LE(u, v) == IF u = << >> THEN TRUE
            ELSE LET k == Len(u) IN IF u[k] # v[k] THEN u[k] < v[k] ELSE LE(SubSeq(u, 1, k - 1), SubSeq(v, 1, k - 1))
TimeOK(t, v) == CASE t = << >> -> TRUE [] Len(t) = 1 -> t[1] = v [] OTHER -> LE(t[1], v) /\ LE(v, t[2])

-----------------------------------------------------------------------------
(* The tree.                                                                  *)
NoEnts == [x \in {} |-> 0]
NewDir == [k |-> "d", ents |-> NoEnts, data |-> << >>, t |-> "", tc |-> << >>, tb |-> << >>, gone |-> FALSE, at |-> << >>, mt |-> << >>]
NewFile == [NewDir EXCEPT !.k = "f"]
NewLink(t, tc, tb) == [NewDir EXCEPT !.k = "l", !.t = t, !.tc = tc, !.tb = tb]

Child(S, d, x) == IF x \in DOMAIN S.n[d].ents THEN S.n[d].ents[x] ELSE 0
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
All(S, d) == {S.nb[x] : x \in DOMAIN S.n[d].ents}
\* Listings of d that are under way: only entries that were there all the time must be given.
Touch(S, d) == [S EXCEPT !.n[d].mt = << >>, !.n[d].at = << >>,
                         !.rd = [x \in DOMAIN @ |-> IF S.fd[x].n # d THEN @[x] ELSE [@[x] EXCEPT !.st = @ \cap All(S, d), !.ch = TRUE]]]
Put(S, d, x, id) == Touch([S EXCEPT !.n[d].ents = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN id ELSE @[y]]], d)
Cut(S, d, x) == Touch([S EXCEPT !.n[d].ents = Without(@, x)], d)
Add(S, d, x, node) == LET id == Len(S.n) + 1 IN Put([S EXCEPT !.n = Append(@, node)], d, x, id)
Links(S, id) == LET ds == {d \in 1..Len(S.n) : S.n[d].k = "d" /\ ~S.n[d].gone}
                IN Cardinality(UNION {{<<d, x>> : x \in {y \in DOMAIN S.n[d].ents : S.n[d].ents[y] = id}} : d \in ds})
\* Whether directory x lies in or below directory a.
RECURSIVE Under(_, _, _)
Under(S, a, x) == a = x \/ \E y \in DOMAIN S.n[a].ents : LET c == S.n[a].ents[y] IN S.n[c].k = "d" /\ Under(S, c, x)

\* Everything that exists below directory d, as entries [p, k, d, l].
RECURSIVE Flat(_, _, _)
Flat(S, d, pre) ==
  UNION {LET id == S.n[d].ents[x]
             p == Append(pre, x)
             nd == S.n[id]
         IN CASE nd.k = "d" -> {<<p, "d", << >>, 0>>} \cup Flat(S, id, p)
              [] nd.k = "f" -> {<<p, "f", nd.data, Links(S, id)>>}
              [] OTHER -> {<<p, "l", nd.tb, Links(S, id)>>}
         : x \in DOMAIN S.n[d].ents}

-----------------------------------------------------------------------------
(* Paths: sequences of components, as the text splits at slashes.             *)
Absolute(p) == Len(p) > 1 /\ p[1] = ""
\* Whether a path leaves its start when read as text.
Leaves(p) == \/ Absolute(p)
             \/ LET f == FoldLeft(LAMBDA a, x : IF a < 0 THEN a ELSE IF x = ".." THEN a - 1 ELSE IF x \in {"", "."} THEN a ELSE a + 1, 0, p) IN f < 0

Stuck(e) == [e |-> e, k |-> "none", d |-> 0, nm |-> "", n |-> 0, sl |-> FALSE, lk |-> FALSE]

\* Walk from the directories st (the last is current) along todo.  k: "name" (an
\* entry nm, existing or not, of directory d), "dot" (a directory itself).
\* sl: a slash follows; lk: that slash made a final link be followed.
RECURSIVE Walk(_, _, _, _, _, _)
Walk(S, st, todo, follow, h, lk) ==
  IF todo = << >> THEN [e |-> {}, k |-> "dot", d |-> st[Len(st)], nm |-> "", n |-> st[Len(st)], sl |-> FALSE, lk |-> lk]
  ELSE
  LET cur == st[Len(st)]
      x == todo[1]
      rest == Tail(todo)
      final == \A i \in 1..Len(rest) : rest[i] = ""
      slash == rest # << >>
      id == Child(S, cur, x)
      link == id # 0 /\ S.n[id].k = "l"
  IN CASE x \in {"", "."} -> Walk(S, st, rest, follow, h, lk)
       [] x = ".." -> IF Len(st) = 1 THEN Stuck(ESC) ELSE Walk(S, SubSeq(st, 1, Len(st) - 1), rest, follow, h, lk)
       [] OTHER ->
            IF final /\ (~link \/ ~(follow \/ slash))
            THEN [e |-> IF slash /\ id # 0 /\ S.n[id].k # "d" THEN {NOTDIR} ELSE {}, k |-> "name", d |-> cur, nm |-> x, n |-> id,
                  sl |-> slash, lk |-> lk]
            ELSE IF id = 0 THEN Stuck({NOENT})
            ELSE IF ~link THEN (IF S.n[id].k = "f" THEN Stuck({NOTDIR}) ELSE Walk(S, Append(st, id), rest, follow, h, lk))
            ELSE IF h >= 40 THEN Stuck({LOOP})
            ELSE IF Absolute(S.n[id].tc) THEN Stuck(ESC)
            ELSE Walk(S, st, S.n[id].tc \o rest, follow, h + 1, lk \/ (final /\ ~follow))

\* A path as the call gives it: p components, bad (not text), long.
Resolve(S, d, p, follow) ==
  IF p.bad THEN Stuck({ILSEQ, INVAL, NOENT})
  ELSE IF Absolute(p.c) THEN Stuck(ESC)
  ELSE IF p.c = <<"">> THEN Stuck({NOENT, INVAL})
  ELSE LET w == Walk(S, <<d>>, p.c, follow, 0, FALSE)
       IN IF w.e # {} /\ Leaves(p.c) THEN [w EXCEPT !.e = @ \cup ESC] ELSE w

-----------------------------------------------------------------------------
(* Results.                                                                   *)
Ok(S) == [err |-> {}, may |-> FALSE, S |-> S, rng |-> << >>, chk |-> TRUE, stop |-> FALSE]
Er(S, e) == [err |-> e, may |-> FALSE, S |-> S, rng |-> << >>, chk |-> TRUE, stop |-> FALSE]
Either(S, e) == [Ok(S) EXCEPT !.err = e, !.may = TRUE]
Free(S, rng) == [Ok(S) EXCEPT !.err = ANY, !.may = TRUE, !.rng = rng, !.stop = TRUE]
Out(r, rng, chk) == [r EXCEPT !.rng = rng, !.chk = chk]

Open(S, f) == f \in DOMAIN S.fd
IsDir(S, f) == S.fd[f].n # 0 /\ S.n[S.fd[f].n].k = "d"
IsFile(S, f) == S.fd[f].n # 0 /\ S.n[S.fd[f].n].k = "f"
IsSock(S, f) == S.fd[f].n # 0 /\ S.n[S.fd[f].n].k = "s"
Stream(S, f) == S.fd[f].n = 0 \/ IsSock(S, f)
FdErr(S, f, r) == IF ~Open(S, f) THEN {BADF} ELSE IF r \subseteq S.fd[f].b THEN {} ELSE {NOTCAPABLE}
\* ... for calls that want a directory, or something other than one.
DirErr(S, f, r) == FdErr(S, f, r) \cup (IF Open(S, f) /\ ~IsDir(S, f) THEN {NOTDIR, BADF, NOTCAPABLE} ELSE {})
FileErr(S, f, r) == FdErr(S, f, r) \cup (IF Open(S, f) /\ IsDir(S, f) THEN {ISDIR, BADF, NOTCAPABLE, INVAL} ELSE {})

\* The bytes the call left at an output location.
Post(c, a, k) == IF k = 0 THEN << >>
                 ELSE LET w == SelectInSeq(c.post, LAMBDA p : p.a <= a /\ a + k <= p.a + Len(p.b))
                      IN SubSeq(c.post[w].b, a - c.post[w].a + 1, a - c.post[w].a + k)
Is(c, a, v) == Post(c, a, Len(v)) = v
In(c, a, k) == a >= 0 /\ a + k <= c.ms

-----------------------------------------------------------------------------
(* Calls on files.                                                            *)
Data(S, f) == S.n[S.fd[f].n].data
Written(old, pos, d) ==
  LET z == IF pos > Len(old) THEN old \o Zeros(pos - Len(old)) ELSE old
  IN IF d = << >> THEN old ELSE SubSeq(z, 1, pos) \o d \o SubSeq(z, pos + Len(d) + 1, Len(z))
SetData(S, f, d) == [S EXCEPT !.n[S.fd[f].n] = [@ EXCEPT !.data = d, !.mt = << >>]]
IovLen(iov) == FoldLeft(LAMBDA a, v : a + v.l, 0, iov)
IovRng(iov) == [i \in 1..Len(iov) |-> [a |-> iov[i].a, l |-> iov[i].l]]
IovIn(c, iov) == \A i \in 1..Len(iov) : iov[i].l <= c.ms /\ In(c, iov[i].a, iov[i].l)
\* What the buffers hold after d is scattered into them in order.
RECURSIVE Scattered(_, _, _)
Scattered(c, iov, d) ==
  IF iov = << >> \/ d = << >> THEN d = << >>
  ELSE LET k == Lo(iov[1].l, Len(d))
       IN Post(c, iov[1].a, k) = SubSeq(d, 1, k) /\ Scattered(c, Tail(iov), SubSeq(d, k + 1, Len(d)))

-----------------------------------------------------------------------------
(* Sockets.                                                                   *)
NewSock(ty, p) == [ty |-> ty, rx |-> << >>, tx |-> << >>, eof |-> FALSE, gone |-> FALSE, rd |-> TRUE, wr |-> TRUE, p |-> p, q |-> << >>, acc |-> TRUE, small |-> FALSE]
AddSock(S, k) == [S EXCEPT !.n = Append(@, [NewFile EXCEPT !.k = "s"]), !.sk = [x \in DOMAIN @ \cup {Len(S.n) + 1} |-> IF x = Len(S.n) + 1 THEN k ELSE @[x]]]
NonBlock(S, f) == 2 \in S.fd[f].fl
\* What the other ends do; a socket no descriptor is on is closed.
OnSock(S, id) == {f \in DOMAIN S.fd : S.fd[f].n = id}
Closed(S, id) == S.sk[id].acc /\ OnSock(S, id) = {}
Peer(S, c) ==
  LET ids == {n \in DOMAIN S.sk : S.sk[n].p = c.peer}
      id == CHOOSE n \in ids : TRUE
      k == S.sk[id]
      S1 == AddSock(S, [NewSock("stream", c.peer) EXCEPT !.acc = FALSE])
  IN CASE c.op = "connect" -> Ok([S1 EXCEPT !.sk[c.to].q = Append(@, c.peer)])
       [] c.op = "send" -> IF Closed(S, id) \/ ~k.rd THEN Er(S, {PIPE}) ELSE IF k.ty = "dgram" THEN Ok([S EXCEPT !.sk[id].rx = Append(@, c.d)])
                           ELSE Ok([S EXCEPT !.sk[id].rx = @ \o c.d])
       [] c.op = "shut" -> Ok([S EXCEPT !.sk[id].eof = TRUE])
       [] OTHER -> Ok([S EXCEPT !.sk[id] = [@ EXCEPT !.eof = TRUE, !.gone = TRUE]])
\* What they do while a call waits, in order.
RECURSIVE After(_, _)
After(S, late) == IF late = << >> THEN S ELSE After(Peer(S, Head(late)).S, Tail(late))
SockSend(S, c, r) ==
  LET id == S.fd[c.fd].n
      k == S.sk[id]
      z == c.d = << >>
      ok == Out(Ok([S EXCEPT !.sk[id].tx = IF k.ty = "dgram" THEN Append(@, c.d) ELSE @ \o c.d]), r, Is(c, c.out, Bytes(Len(c.d), 4)))
      \* with little room the number the call reports are sent
      b == IF c.r = 0 THEN Post(c, c.out, 4) ELSE <<0, 0, 0, 0>>
      n == b[1] + 256 * b[2] + 65536 * b[3]
  IN IF k.ty = "listen" THEN Er(S, ANY)
     ELSE IF k.small /\ k.wr /\ ~k.gone /\ ~z
     THEN (IF c.r # 0 THEN Er(S, {AGAIN})
           ELSE Out(Ok([S EXCEPT !.sk[id].tx = @ \o SubSeq(c.d, 1, Lo(n, Len(c.d)))]), r, b[4] = 0 /\ n \in 1..Len(c.d)))
     ELSE IF ~k.wr \/ k.gone THEN (IF z THEN [ok EXCEPT !.S = S, !.err = {PIPE}, !.may = TRUE] ELSE Er(S, {PIPE}))
     ELSE ok
\* Receiving takes what has arrived, up to what the buffers hold: bytes in order,
\* or one message, whose rest is lost.
SockTake(S, c, peek, flags) ==
  LET id == S.fd[c.fd].n
      k == S.sk[id]
      dg == k.ty = "dgram"
      want == IovLen(c.iov)
      m == IF dg THEN k.rx[1] ELSE k.rx
      d == SubSeq(m, 1, Lo(want, Len(m)))
      rest == IF dg THEN Tail(k.rx) ELSE SubSeq(k.rx, Len(d) + 1, Len(k.rx))
      r == IovRng(c.iov) \o <<[a |-> c.out, l |-> 4]>> \o (IF flags THEN <<[a |-> c.out2, l |-> 2]>> ELSE << >>)
      got(T, b, cut) == Out(Ok(T), r, /\ Is(c, c.out, Bytes(Len(b), 4)) /\ Scattered(c, c.iov, b)
                                      /\ flags => Is(c, c.out2, <<IF cut THEN 1 ELSE 0, 0>>))
  IN IF k.ty = "listen" THEN Er(S, ANY)
     ELSE IF want = 0 /\ ~(dg /\ flags) THEN [got(S, << >>, FALSE) EXCEPT !.err = {AGAIN}, !.may = TRUE]
     ELSE IF k.rx # << >>
     THEN (IF ~k.rd THEN Free(S, r)
           ELSE got(IF peek THEN S ELSE [S EXCEPT !.sk[id].rx = rest], d, dg /\ Len(d) < Len(m)))
     ELSE IF (~dg /\ k.eof) \/ ~k.rd THEN got(S, << >>, FALSE)
     ELSE IF NonBlock(S, c.fd) THEN Er(S, {AGAIN})
     ELSE Free(S, r)
\* A call that waits sees what the other end does meanwhile: it waits for the
\* first bytes, or for all.
RECURSIVE SockWait(_, _, _, _, _, _)
SockWait(S, c, late, peek, wait, flags) ==
  LET k == S.sk[S.fd[c.fd].n]
      dg == k.ty = "dgram"
      want == IovLen(c.iov)
      none == k.rx = << >> /\ (dg \/ ~k.eof)
      some == wait /\ ~dg /\ ~k.eof /\ Len(k.rx) < want
      \* more may have come by the time the call looks
      r == [i \in 0..Len(late) |-> LET q == SockTake(After(S, SubSeq(late, 1, i)), c, peek, flags)
                                   IN [q EXCEPT !.S = After(@, SubSeq(late, i + 1, Len(late)))]]
      fits == {i \in 0..Len(late) : r[i].chk}
  IN IF late = << >> \/ NonBlock(S, c.fd) \/ k.ty = "listen" \/ ~k.rd \/ want = 0 \/ (~none /\ ~some)
     THEN r[IF c.r # 0 \/ fits = {} THEN 0 ELSE CHOOSE i \in fits : \A j \in fits : i <= j]
     ELSE IF some /\ peek /\ ~none THEN [Free(After(S, late), r[0].rng) EXCEPT !.stop = FALSE]
     ELSE SockWait(Peer(S, Head(late)).S, c, Tail(late), peek, wait, flags)
SockRecv(S, c, peek, wait, flags) == SockWait(S, c, c.late, peek, wait, flags)
SockErr(S, f, r) == FdErr(S, f, r) \cup (IF Open(S, f) /\ ~IsSock(S, f) THEN {NOTSOCK} ELSE {})
Odd(fl, known, r) == IF fl \subseteq known THEN r ELSE [r EXCEPT !.err = @ \cup {INVAL, NOTSUP}, !.may = (r.err = {} \/ r.may)]
SockRecvCall(S, c) == LET e == SockErr(S, c.fd, {RREAD})
                      IN IF e # {} THEN Er(S, e \cup (IF c.fl \subseteq 0..1 THEN {} ELSE {INVAL, NOTSUP}))
                         ELSE Odd(c.fl, 0..1, SockRecv(S, c, 0 \in c.fl, 1 \in c.fl, TRUE))
SockSendCall(S, c) == LET e == SockErr(S, c.fd, {RWRITE})
                      IN IF e # {} THEN Er(S, e \cup (IF c.fl = {} THEN {} ELSE {INVAL, NOTSUP}))
                         ELSE Odd(c.fl, {}, SockSend(S, c, <<[a |-> c.out, l |-> 4]>>))
SockShutdown(S, c) ==
  LET e == SockErr(S, c.fd, {RSHUT}) \cup (IF c.how \in 1..3 THEN {} ELSE {INVAL})
      id == S.fd[c.fd].n
  IN IF e # {} THEN Er(S, e)
     ELSE IF S.sk[id].ty = "listen" THEN Free(S, << >>)
     ELSE [Ok([S EXCEPT !.sk[id] = [@ EXCEPT !.rd = @ /\ c.how = 2, !.wr = @ /\ c.how = 1]])
           EXCEPT !.err = IF S.sk[id].gone \/ S.sk[id].eof THEN {NOTCONN} ELSE {}, !.may = TRUE]
SockAcceptIn(S, c) ==
  LET e == SockErr(S, c.fd, {RACCEPT})
      k == S.sk[S.fd[c.fd].n]
      id == CHOOSE n \in DOMAIN S.sk : S.sk[n].p = k.q[1] /\ S.sk[n].ty # "listen"
      x == S.fd[c.fd]
      new == IF c.r = 0 THEN c.new ELSE 0 - 1
      S1 == [S EXCEPT !.sk = [@ EXCEPT ![x.n].q = Tail(@), ![id].acc = TRUE], !.rd = Without(@, new),
                      !.fd = [f \in DOMAIN @ \cup {new} |-> IF f = new THEN [n |-> id, o |-> 0, fl |-> c.fl, b |-> x.b, i |-> x.i, t |-> 6, pre |-> ""] ELSE @[f]]]
  IN IF e # {} THEN Er(S, e)
     ELSE IF k.ty # "listen" THEN Er(S, ANY)
     ELSE IF ~(c.fl \subseteq {2}) THEN (IF c.r = 0 THEN Free(S, <<[a |-> c.out, l |-> 4]>>) ELSE Er(S, {INVAL, NOTSUP, AGAIN}))
     ELSE IF k.q = << >> THEN (IF NonBlock(S, c.fd) THEN Er(S, {AGAIN}) ELSE Free(S, <<[a |-> c.out, l |-> 4]>>))
     ELSE Out(Ok(S1), <<[a |-> c.out, l |-> 4]>>, new >= 0 /\ new \notin DOMAIN S.fd /\ Is(c, c.out, Bytes(new, 4)))
RECURSIVE SockAcceptLate(_, _, _)
SockAcceptLate(S, c, late) ==
  LET k == S.sk[S.fd[c.fd].n]
      r == SockAcceptIn(S, c)
  IN IF late = << >> \/ SockErr(S, c.fd, {RACCEPT}) # {} \/ k.ty # "listen" \/ NonBlock(S, c.fd) \/ k.q # << >> THEN [r EXCEPT !.S = After(@, late)]
     ELSE SockAcceptLate(Peer(S, Head(late)).S, c, Tail(late))
SockAccept(S, c) == SockAcceptLate(S, c, c.late)
\* What the other ends have seen.
PeersOK(S, rx) == \A i \in 1..Len(rx) : LET id == CHOOSE n \in DOMAIN S.sk : S.sk[n].p = rx[i].p
                                             k == S.sk[id]
                                         IN /\ k.gone \/ (IF k.ty = "dgram" THEN rx[i].m = k.tx ELSE rx[i].d = k.tx)
                                            /\ (k.ty = "stream" /\ ~k.gone) => (rx[i].eof = (~k.wr \/ Closed(S, id)))

FdWrite(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RWRITE})
      r == <<[a |-> c.out, l |-> 4]>>
      k == Len(c.d)
      ok == Is(c, c.out, Bytes(k, 4))
      pos == IF 0 \in S.fd[f].fl THEN Len(Data(S, f)) ELSE S.fd[f].o
      S1 == SetData(S, f, Written(Data(S, f), pos, c.d))
  IN IF e # {} THEN Er(S, e)
     ELSE IF IsSock(S, f) THEN SockSend(S, c, r)
     ELSE IF S.fd[f].n = 0
     THEN Out(Ok([S EXCEPT !.so[S.fd[f].o] = @ \o c.d]), r, ok)
     ELSE Out(Ok(IF k = 0 THEN S ELSE [S1 EXCEPT !.fd[f].o = pos + k]), r, ok)
FdPwrite(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RWRITE, RSEEK})
      k == Len(c.d)
      r == <<[a |-> c.out, l |-> 4]>>
  IN IF e # {} THEN Er(S, e)
     ELSE IF Stream(S, f) THEN Er(S, ANY)
     ELSE IF c.off < 0 THEN Er(S, {INVAL, SPIPE, FBIG, OVERFLOW})
     ELSE IF 0 \in S.fd[f].fl /\ k > 0 THEN Free(S, r)          \* hosts differ on positioned writes in append mode
     ELSE Out(Ok(SetData(S, f, Written(Data(S, f), c.off, c.d))), r, Is(c, c.out, Bytes(k, 4)))
\* Reading takes what fits, up to the end of the file.
Taken(S, f, pos, iov) == LET d == Data(S, f) IN IF pos >= Len(d) THEN << >> ELSE SubSeq(d, pos + 1, Lo(Len(d), pos + IovLen(iov)))
FdRead(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RREAD})
      std == S.fd[f].n = 0
      d == IF std THEN SubSeq(S.in, S.inp + 1, Lo(Len(S.in), S.inp + IovLen(c.iov))) ELSE Taken(S, f, S.fd[f].o, c.iov)
      r == Append(IovRng(c.iov), [a |-> c.out, l |-> 4])
      ok == Is(c, c.out, Bytes(Len(d), 4)) /\ Scattered(c, c.iov, d)
  IN IF e # {} THEN Er(S, e)
     ELSE IF IsSock(S, f) THEN SockRecv(S, c, FALSE, FALSE, FALSE)
     ELSE IF std THEN Out(Ok([S EXCEPT !.inp = @ + Len(d)]), r, ok)
     ELSE Out(Ok([S EXCEPT !.fd[f].o = @ + Len(d), !.n[S.fd[f].n].at = << >>]), r, ok)
FdPread(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RREAD, RSEEK})
      d == Taken(S, f, c.off, c.iov)
      r == Append(IovRng(c.iov), [a |-> c.out, l |-> 4])
  IN IF e # {} THEN Er(S, e)
     ELSE IF Stream(S, f) THEN Er(S, ANY)
     ELSE IF c.off < 0 THEN Er(S, {INVAL, SPIPE, OVERFLOW})
     ELSE Out(Ok([S EXCEPT !.n[S.fd[f].n].at = << >>]), r, Is(c, c.out, Bytes(Len(d), 4)) /\ Scattered(c, c.iov, d))
FdSeek(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RSEEK})
      base == CASE c.wh = 0 -> 0 [] c.wh = 1 -> S.fd[f].o [] OTHER -> Len(Data(S, f))
      t == base + c.off
  IN IF e # {} THEN (IF c.wh = 1 /\ c.off = 0 /\ e = {NOTCAPABLE} /\ RTELL \in S.fd[f].b
                     THEN Out(Either(S, e), <<[a |-> c.out, l |-> 8]>>, Is(c, c.out, Bytes(S.fd[f].o, 8))) ELSE Er(S, e))
     ELSE IF c.wh \notin {0, 1, 2} THEN Er(S, {INVAL})
     ELSE IF Stream(S, f) THEN Er(S, ANY)
     ELSE IF t < 0 THEN Er(S, {INVAL})
     ELSE IF t >= BIG THEN Free(S, <<[a |-> c.out, l |-> 8]>>)
     ELSE Out(Ok([S EXCEPT !.fd[f].o = t]), <<[a |-> c.out, l |-> 8]>>, Is(c, c.out, Bytes(t, 8)))
FdTell(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RTELL})
      r == Out(Ok(S), <<[a |-> c.out, l |-> 8]>>, Is(c, c.out, Bytes(S.fd[f].o, 8)))
  IN IF e = {NOTCAPABLE} /\ ~IsDir(S, f) /\ ~Stream(S, f) /\ RSEEK \in S.fd[f].b THEN [r EXCEPT !.err = e, !.may = TRUE]
     ELSE IF e # {} THEN Er(S, e) ELSE IF Stream(S, f) THEN Er(S, ANY) ELSE r
\* A descriptor without the right to write may be open for reading only.
RO(S, f, r) == IF RWRITE \in S.fd[f].b THEN r ELSE [r EXCEPT !.err = {INVAL, BADF, NOTCAPABLE, PERM, ACCES}, !.may = TRUE]
FdSetSize(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RFSETSIZE})
      d == Data(S, f)
  IN IF e # {} THEN Er(S, e)
     ELSE IF Stream(S, f) THEN Er(S, ANY)
     ELSE IF c.off < 0 \/ c.off >= BIG THEN Er(S, {INVAL, FBIG, NOSPC, OVERFLOW})
     ELSE RO(S, f, Ok(SetData(S, f, IF c.off <= Len(d) THEN SubSeq(d, 1, c.off) ELSE d \o Zeros(c.off - Len(d)))))
FdAllocate(S, c) ==
  LET f == c.fd
      e == FileErr(S, f, {RALLOCATE})
      d == Data(S, f)
      z == c.off + c.len
      r == IF z <= Len(d) THEN Ok(S) ELSE RO(S, f, Ok(SetData(S, f, d \o Zeros(z - Len(d)))))
  IN IF e # {} THEN Er(S, e)
     ELSE IF Stream(S, f) THEN Er(S, ANY)
     ELSE IF c.off < 0 \/ c.len < 0 THEN Er(S, {INVAL, FBIG, NOSPC, OVERFLOW})
     ELSE IF z >= BIG THEN Er(S, {INVAL, FBIG, NOSPC, OVERFLOW, NOMEM})
     ELSE IF c.len = 0 THEN [r EXCEPT !.err = {INVAL}, !.may = TRUE] ELSE r

FdClose(S, c) == IF ~Open(S, c.fd) THEN Er(S, {BADF})
                 ELSE Ok([S EXCEPT !.fd = Without(@, c.fd), !.rd = Without(@, c.fd)])
FdRenumber(S, c) ==
  IF ~Open(S, c.fd) \/ ~Open(S, c.to) THEN Er(S, {BADF})
  ELSE IF c.fd = c.to THEN Ok(S)
  ELSE Ok([S EXCEPT !.fd = Without([@ EXCEPT ![c.to] = S.fd[c.fd]], c.fd), !.rd = LET r == Without(Without(@, c.fd), c.to)
                                                                                       IN IF c.fd \in DOMAIN S.rd THEN [x \in DOMAIN r \cup {c.to} |-> IF x = c.to THEN S.rd[c.fd] ELSE r[x]] ELSE r])
FdStat(S, c) ==
  LET f == c.fd
      x == S.fd[f]
  IN IF ~Open(S, f) THEN Er(S, {BADF})
     ELSE Out(Ok(S), <<[a |-> c.out, l |-> 24]>>,
              Is(c, c.out, <<x.t>>) /\ Is(c, c.out + 2, SetBytes(x.fl, 2)) /\ Is(c, c.out + 8, SetBytes(x.b, 8))
              /\ Is(c, c.out + 16, SetBytes(x.i, 8)))
FdSetFlags(S, c) ==
  LET e == FdErr(S, c.fd, {RSETFLAGS})
      ch == (S.fd[c.fd].fl \ c.fl) \cup (c.fl \ S.fd[c.fd].fl)
  IN IF e # {} THEN Er(S, e)
     ELSE IF ~(ch \subseteq {0, 2}) THEN Er(S, {INVAL, NOTSUP})
     ELSE Ok([S EXCEPT !.fd[c.fd].fl = c.fl])
FdSetRights(S, c) ==
  IF ~Open(S, c.fd) THEN Er(S, {BADF})
  ELSE IF ~(c.rb \subseteq S.fd[c.fd].b /\ c.ri \subseteq S.fd[c.fd].i) THEN Er(S, {NOTCAPABLE})
  ELSE Ok([S EXCEPT !.fd[c.fd] = [@ EXCEPT !.b = c.rb, !.i = c.ri]])

\* The 64 bytes of a file's attributes; ino and mtim are learnt on sight, mtim
\* until something changes the file.
FType(S, n) == CASE S.n[n].k = "d" -> 3 [] S.n[n].k = "f" -> 4 [] OTHER -> 7
StatOK(S, c, n) ==
  LET nd == S.n[n]
  IN /\ n \in DOMAIN S.ino => Is(c, c.out + 8, S.ino[n])
     /\ \A m \in DOMAIN S.ino : m # n /\ Links(S, m) > 0 => ~Is(c, c.out + 8, S.ino[m])
     /\ Is(c, c.out + 16, <<FType(S, n)>>)
     /\ nd.k # "d" => Is(c, c.out + 24, Bytes(Links(S, n), 8))
     /\ nd.k = "f" => Is(c, c.out + 32, Bytes(Len(nd.data), 8))
     /\ nd.k = "l" => Is(c, c.out + 32, Bytes(Len(nd.tb), 8))
     /\ nd.k # "l" => TimeOK(nd.at, Post(c, c.out + 40, 8))          \* reading a link's text may touch it
     /\ TimeOK(nd.mt, Post(c, c.out + 48, 8))
     /\ c.hct = << >> \/ Is(c, c.out + 56, c.hct)                     \* when the host says the file last changed
Learn(S, c, n) == [S EXCEPT !.n[n].mt = <<Post(c, c.out + 48, 8)>>, !.ino = [m \in DOMAIN @ \cup {n} |-> IF m = n THEN Post(c, c.out + 8, 8) ELSE @[m]]]
StatRes(S, c, n) == LET r == Out(Ok(S), <<[a |-> c.out, l |-> 64]>>, c.r # 0 \/ StatOK(S, c, n))
                    IN IF c.r = 0 /\ S.n[n].k # "l" THEN [r EXCEPT !.S = Learn(S, c, n)] ELSE r
FdFilestat(S, c) ==
  LET e == FdErr(S, c.fd, {RFSTAT})
  IN IF e # {} THEN Er(S, e)
     ELSE IF Stream(S, c.fd) THEN [Free(S, <<[a |-> c.out, l |-> 64]>>) EXCEPT !.stop = ~IsSock(S, c.fd)]
     ELSE StatRes(S, c, S.fd[c.fd].n)

\* Times: bits 0 atim, 1 atim now, 2 mtim, 3 mtim now.
BadTimes(fl) == {0, 1} \subseteq fl \/ {2, 3} \subseteq fl
SetTimes(S, n, c) ==
  [S EXCEPT !.n[n] = [@ EXCEPT !.at = IF 0 \in c.fl THEN <<c.ta>> ELSE IF 1 \in c.fl THEN <<c.lo, c.hi>> ELSE @,
                                !.mt = IF 2 \in c.fl THEN <<c.tm>> ELSE IF 3 \in c.fl THEN <<c.lo, c.hi>> ELSE @]]
TimesRes(S, n, c) == IF c.hugetime THEN Free(S, << >>)
                     ELSE IF c.fl \subseteq 0..3 THEN Ok(SetTimes(S, n, c)) ELSE Either(SetTimes(S, n, c), {INVAL})
FdSetTimes(S, c) ==
  LET e == FdErr(S, c.fd, {RFSETTIMES}) \cup (IF BadTimes(c.fl) THEN {INVAL} ELSE {})
  IN IF e # {} THEN Er(S, e)
     ELSE IF Stream(S, c.fd) THEN Free(S, << >>)
     ELSE TimesRes(S, S.fd[c.fd].n, c)
FdSync(S, c, r) == LET e == FdErr(S, c.fd, {r})
                   IN IF Open(S, c.fd) /\ ~IsFile(S, c.fd) THEN Either(S, ANY) ELSE IF e # {} THEN Er(S, e) ELSE Ok(S)
FdAdvise(S, c) == LET e == FdErr(S, c.fd, {RADVISE})
                  IN IF e # {} THEN Er(S, e \cup {INVAL}) ELSE IF ~IsFile(S, c.fd) THEN Either(S, ANY)
                     ELSE IF c.adv \in 0..5 /\ c.off >= 0 /\ c.len >= 0 THEN Ok(S) ELSE Either(S, {INVAL})

NotPre == {BADF, INVAL, NOTDIR, NOTSUP, NOTCAPABLE}
Prestat(S, c) ==
  IF ~Open(S, c.fd) THEN Er(S, {BADF})
  ELSE IF S.fd[c.fd].pre = "" THEN Er(S, NotPre)
  ELSE Out(Ok(S), <<[a |-> c.out, l |-> 8]>>, Is(c, c.out, <<0>>) /\ Is(c, c.out + 4, Bytes(Len(S.conf.pre[S.fd[c.fd].pre]), 4)))
PrestatName(S, c) ==
  LET nm == S.conf.pre[S.fd[c.fd].pre]
  IN IF ~Open(S, c.fd) THEN Er(S, {BADF})
     ELSE IF S.fd[c.fd].pre = "" THEN Er(S, NotPre)
     ELSE IF Len(nm) > c.len THEN Er(S, {NAMETOOLONG, INVAL, OVERFLOW})
     ELSE Out(Ok(S), <<[a |-> c.out, l |-> c.len]>>, Is(c, c.out, nm))

-----------------------------------------------------------------------------
(* Directory listings.  rd[fd].m maps a cookie to the set of names delivered  *)
(* before it, rd[fd].st are the entries that have been there since cookie 0   *)
(* was read, rd[fd].ch whether the directory has changed since.               *)
Cookie0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Val4(b) == IF b[4] > 0 \/ b[3] > 15 THEN BIG ELSE b[1] + 256 * b[2] + 65536 * b[3]
\* Entries in the buffer b: complete ones, each [nx, ino, nm, ty]; rest what follows.
RECURSIVE Dirents(_, _)
Dirents(b, acc) ==
  IF Len(b) < 24 THEN [es |-> acc, rest |-> b]
  ELSE LET k == Val4(SubSeq(b, 17, 20))
       IN IF 24 + k > Len(b) THEN [es |-> acc, rest |-> b]
          ELSE Dirents(SubSeq(b, 25 + k, Len(b)), Append(acc, [nx |-> SubSeq(b, 1, 8), ino |-> SubSeq(b, 9, 16), nm |-> SubSeq(b, 25, 24 + k), ty |-> b[21]]))
DotB == <<46>>
DotDotB == <<46, 46>>
Dots == {DotB, DotDotB}
\* The entries a listing must give, by name bytes.
NameOf(S, d, nm) == {x \in DOMAIN S.n[d].ents : S.nb[x] = nm}
EntryOK(S, d, e) ==
  IF e.nm \in Dots THEN e.ty = 3
  ELSE \E x \in NameOf(S, d, e.nm) :
         LET id == S.n[d].ents[x] IN e.ty = FType(S, id) /\ (id \in DOMAIN S.ino => e.ino = S.ino[id])
Readdir(S, c) ==
  LET f == c.fd
      e == DirErr(S, f, {RREADDIR})
      d == S.fd[f].n
      used == Val4(Post(c, c.out, 4))
      b == Post(c, c.buf, Lo(used, c.len))
      g == Dirents(b, << >>)
      names == [i \in 1..Len(g.es) |-> g.es[i].nm]
      begun == f \in DOMAIN S.rd /\ ~(c.ck = Cookie0 /\ S.rd[f].ch)
      kn == IF begun THEN S.rd[f].m ELSE [x \in {Cookie0} |-> {}]
      stay == IF begun THEN S.rd[f].st ELSE All(S, d)
      ch == begun /\ S.rd[f].ch
      known == c.ck \in DOMAIN kn
      had == IF known THEN kn[c.ck] ELSE {}
      upto(i) == had \cup {names[j] : j \in 1..i}
      left == All(S, d) \ upto(Len(names))
      \* a following entry that is cut off must not look complete or be garbage
      partial == Len(g.rest) < 24
                 \/ \E x \in DOMAIN S.n[d].ents \cup {".", ".."} :
                      LET nm == IF x = "." THEN DotB ELSE IF x = ".." THEN DotDotB ELSE S.nb[x]
                      IN nm \notin upto(Len(names)) /\ Val4(SubSeq(g.rest, 17, 20)) = Len(nm)
      good == /\ used <= c.len
              /\ \A i \in 1..Len(names) : EntryOK(S, d, g.es[i])
              /\ Cardinality(Set(names)) = Len(names)
              /\ known => /\ Set(names) \cap had \cap (stay \cup Dots) = {}
                          /\ used < c.len => left \cap stay = {} /\ g.rest = << >>
                          /\ partial \/ ch
                          \* progress: when every entry left would fit, one was delivered
                          /\ (left \cap stay # {} /\ names = << >>) => \E nm \in left \cup Dots : 24 + Len(nm) > c.len
      rd1 == [x \in DOMAIN kn \cup {g.es[i].nx : i \in 1..Len(g.es)} |->
                IF \E i \in 1..Len(g.es) : g.es[i].nx = x THEN upto(CHOOSE i \in 1..Len(g.es) : g.es[i].nx = x) ELSE kn[x]]
      fresh == Cardinality({g.es[i].nx : i \in 1..Len(g.es)}) = Len(g.es)
      S1 == IF known THEN [S EXCEPT !.rd = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN [m |-> rd1, st |-> stay, ch |-> ch] ELSE @[x]], !.n[d].at = << >>] ELSE [S EXCEPT !.n[d].at = << >>]
  IN IF e # {} THEN Er(S, e)
     ELSE IF c.r # 0 THEN (IF known THEN Er(S, {}) ELSE Er(S, {INVAL, NOENT}))
     ELSE Out(Ok(S1), <<[a |-> c.out, l |-> 4], [a |-> c.buf, l |-> c.len]>>, good /\ fresh)

-----------------------------------------------------------------------------
(* Calls on paths.  c.p, c.p2 are paths; c.fd, c.fd2 the descriptors.         *)
Path1(S, c, r, follow) ==
  LET e == DirErr(S, c.fd, r)
      w == IF Open(S, c.fd) /\ IsDir(S, c.fd) THEN Resolve(S, S.fd[c.fd].n, c.p, follow) ELSE Stuck({})
  IN [w EXCEPT !.e = IF e = {} THEN @ ELSE @ \cup e]
\* A slash after a final link: hosts differ on what changes then do.
Amb(w, S, r) == IF w.lk /\ w.e = {} THEN [r EXCEPT !.err = ANY, !.may = (r.err = {} \/ r.may)] ELSE r

CreateDir(S, c) ==
  LET w == Path1(S, c, {RCRDIR}, FALSE)
  IN IF w.e # {} THEN Er(S, w.e \cup (IF w.k = "name" /\ w.n # 0 THEN {EXIST} ELSE {}))
     ELSE IF w.k = "dot" THEN Er(S, ANY)
     ELSE IF w.n # 0 THEN Amb(w, S, Er(S, {EXIST}))
     ELSE IF S.n[w.d].gone THEN Er(S, {NOENT})
     ELSE Amb(w, S, Ok(Add(S, w.d, w.nm, NewDir)))
UnlinkFile(S, c) ==
  LET w == Path1(S, c, {RUNLINK}, FALSE)
  IN IF w.e # {} THEN Er(S, w.e)
     ELSE IF w.k = "dot" THEN Er(S, ANY)
     ELSE IF w.n = 0 THEN Er(S, {NOENT})
     ELSE IF S.n[w.n].k = "d" THEN Amb(w, S, Er(S, {ISDIR, PERM}))
     ELSE Amb(w, S, Ok(Cut(S, w.d, w.nm)))
RemoveDir(S, c) ==
  LET w == Path1(S, c, {RRMDIR}, FALSE)
  IN IF w.e # {} THEN Er(S, w.e)
     ELSE IF w.k = "dot" THEN Er(S, ANY)
     ELSE IF w.n = 0 THEN Er(S, {NOENT})
     ELSE IF S.n[w.n].k # "d" THEN Amb(w, S, Er(S, {NOTDIR}))
     ELSE IF DOMAIN S.n[w.n].ents # {} THEN Amb(w, S, Er(S, {NOTEMPTY, EXIST}))
     ELSE Amb(w, S, Ok([Cut(S, w.d, w.nm) EXCEPT !.n[w.n].gone = TRUE]))
Two(S, c, r1, r2, follow) ==
  LET e1 == DirErr(S, c.fd, r1)
      e2 == DirErr(S, c.fd2, r2)
      w1 == IF Open(S, c.fd) /\ IsDir(S, c.fd) THEN Resolve(S, S.fd[c.fd].n, c.p, follow) ELSE Stuck({})
      w2 == IF Open(S, c.fd2) /\ IsDir(S, c.fd2) THEN Resolve(S, S.fd[c.fd2].n, c.p2, FALSE) ELSE Stuck({})
  IN [a |-> w1, b |-> w2, e |-> e1 \cup e2 \cup w1.e \cup w2.e]
Rename(S, c) ==
  LET t == Two(S, c, {RRENSRC}, {RRENTGT}, FALSE)
      a == t.a
      b == t.b
      dir == S.n[a.n].k = "d"
      move == Put(Cut(S, a.d, a.nm), b.d, b.nm, a.n)
      e == IF a.n = 0 THEN {NOENT} \cup (IF b.n # 0 THEN {EXIST, NOTEMPTY, ISDIR, NOTDIR} ELSE {})
           ELSE IF S.n[b.d].gone THEN {NOENT}
           ELSE IF ~dir /\ (a.sl \/ b.sl) THEN {NOTDIR, ISDIR, NOENT}
           ELSE IF dir /\ Under(S, a.n, b.d) THEN {INVAL, NOTEMPTY, NOTDIR, EXIST}
           ELSE IF b.n = 0 THEN {}
           ELSE IF a.n = b.n THEN {}
           ELSE IF dir /\ S.n[b.n].k # "d" THEN {NOTDIR}
           ELSE IF ~dir /\ S.n[b.n].k = "d" THEN {ISDIR, EXIST, NOTEMPTY}
           ELSE IF dir /\ DOMAIN S.n[b.n].ents # {} THEN {NOTEMPTY, EXIST}
           ELSE {}
      S1 == IF a.n = b.n THEN S ELSE IF dir /\ b.n # 0 THEN [move EXCEPT !.n[b.n].gone = TRUE] ELSE move
      r == IF e # {} THEN Er(S, e) ELSE Ok(S1)
  IN IF t.e # {} THEN Er(S, t.e \cup {NOENT})
     ELSE IF a.k = "dot" \/ b.k = "dot" THEN Er(S, ANY)
     ELSE Amb(a, S, Amb(b, S, r))
Link(S, c) ==
  LET t == Two(S, c, {RLINKSRC}, {RLINKTGT}, 0 \in c.lf)
      a == t.a
      b == t.b
      e == IF a.n = 0 THEN {NOENT} \cup (IF b.n # 0 THEN {EXIST} ELSE {})
           ELSE (IF b.n # 0 THEN {EXIST} ELSE IF S.n[b.d].gone THEN {NOENT} ELSE {})
                \cup (IF S.n[a.n].k = "d" THEN {PERM, ACCES, ISDIR} ELSE {})
                \cup (IF b.n = 0 /\ b.sl THEN {NOENT, NOTDIR} ELSE {})
  IN IF t.e # {} THEN Er(S, t.e \cup {NOENT, EXIST, PERM})
     ELSE IF a.k = "dot" \/ b.k = "dot" THEN Er(S, ANY)
     ELSE Amb(a, S, Amb(b, S, IF e # {} THEN Er(S, e) ELSE Ok(Put(S, b.d, b.nm, a.n))))
Symlink(S, c) ==
  LET w == Path1(S, c, {RSYMLINK}, FALSE)
      r == Ok(Add(S, w.d, w.nm, NewLink(c.t, c.tc, c.tb)))
  IN IF c.tbad THEN Er(S, ANY)
     ELSE IF c.tc = <<"">> THEN Er(S, {NOENT, INVAL} \cup w.e \cup (IF w.n # 0 THEN {EXIST} ELSE {}))
     ELSE IF w.e # {} THEN Er(S, w.e \cup (IF Leaves(c.tc) THEN ESC ELSE {}) \cup (IF w.k = "name" /\ w.n # 0 THEN {EXIST} ELSE {}))
     ELSE IF w.k = "dot" THEN Er(S, ANY)
     ELSE IF w.n # 0 THEN Amb(w, S, Er(S, {EXIST} \cup (IF Leaves(c.tc) THEN ESC ELSE {})))
     ELSE IF S.n[w.d].gone THEN Er(S, {NOENT} \cup ESC)
     ELSE IF w.sl THEN Er(S, {NOENT, NOTDIR, EXIST, INVAL} \cup ESC)
     ELSE IF Leaves(c.tc) THEN Amb(w, S, [r EXCEPT !.err = ESC, !.may = TRUE])
     ELSE Amb(w, S, r)
Readlink(S, c) ==
  LET w == Path1(S, c, {RREADLINK}, FALSE)
      tb == S.n[w.n].tb
      k == Lo(Len(tb), c.len)
  IN IF w.e # {} THEN Er(S, w.e \cup (IF w.k = "name" /\ w.n # 0 THEN {INVAL} ELSE {}))
     ELSE IF w.k = "dot" THEN Er(S, {INVAL})
     ELSE IF w.n = 0 THEN Er(S, {NOENT})
     ELSE IF S.n[w.n].k # "l" THEN Er(S, {INVAL})
     ELSE Out(Ok([S EXCEPT !.n[w.n].at = << >>]), <<[a |-> c.buf, l |-> c.len], [a |-> c.out, l |-> 4]>>,
              Is(c, c.out, Bytes(k, 4)) /\ Is(c, c.buf, SubSeq(tb, 1, k)))
PathStat(S, c) ==
  LET w == Path1(S, c, {RPSTAT}, 0 \in c.lf)
  IN IF w.e # {} THEN Er(S, w.e) ELSE IF w.n = 0 THEN Er(S, {NOENT}) ELSE StatRes(S, c, w.n)
PathTimes(S, c) ==
  LET w == Path1(S, c, {RPSETTIMES}, 0 \in c.lf)
      e == w.e \cup (IF BadTimes(c.fl) THEN {INVAL} ELSE {})
  IN IF e # {} THEN Er(S, e) ELSE IF w.n = 0 THEN Er(S, {NOENT}) ELSE TimesRes(S, w.n, c)

\* oflags: 0 creat, 1 directory, 2 excl, 3 trunc.
PathOpen(S, c) ==
  LET creat == 0 \in c.of
      dirf == 1 \in c.of
      excl == 2 \in c.of /\ creat
      trunc == 3 \in c.of
      D == S.fd[c.fd]
      b0 == c.rb \cap D.i
      i0 == c.ri \cap D.i
      w == Path1(S, c, {ROPEN}, 0 \in c.lf /\ ~excl)
      e1 == w.e \cup (IF Open(S, c.fd) /\ ((creat /\ RCRFILE \notin D.b) \/ (trunc /\ RPSETSIZE \notin D.b)) THEN {PERM, NOTCAPABLE} ELSE {})
                \cup (IF ~(c.of \subseteq 0..3) \/ ~(c.fl \subseteq 0..4) THEN {INVAL} ELSE {})
      over == Open(S, c.fd) /\ ~(c.rb \subseteq D.i /\ c.ri \subseteq D.i)
      nd == S.n[w.n]
      \* after success: the new descriptor is the number reported
      new == IF c.r = 0 THEN c.new ELSE 0 - 1
      chk == /\ new \notin DOMAIN S.fd
             /\ new >= 0
             /\ Is(c, c.out, Bytes(new, 4))
      rng == <<[a |-> c.out, l |-> 4]>>
      opened(T, n, t) == [T EXCEPT !.fd = [x \in DOMAIN @ \cup {new} |->
                            IF x = new THEN [n |-> n, o |-> 0, fl |-> c.fl, t |-> t, pre |-> "",
                                             b |-> IF t = 3 THEN b0 \ {RSEEK} ELSE b0 \ PATHRIGHTS,
                                             i |-> IF t = 3 THEN i0 \ {RSEEK} ELSE i0 \ PATHRIGHTS] ELSE @[x]],
                                    !.rd = Without(@, new)]
      yes(T, n, t) == LET r == Out(Ok(opened(T, n, t)), rng, chk)
                      IN IF over THEN [r EXCEPT !.err = {NOTCAPABLE, PERM}, !.may = TRUE] ELSE r
      no(e) == Er(S, e \cup (IF over THEN {NOTCAPABLE, PERM} ELSE {}) \cup (IF creat /\ dirf THEN {INVAL} ELSE {}))
      made == Add(S, w.d, w.nm, NewFile)
  IN IF e1 # {} THEN no(e1)
     ELSE IF w.n = 0
     THEN (IF ~creat THEN no({NOENT})
           ELSE IF S.n[w.d].gone THEN no({NOENT})
           ELSE IF dirf \/ w.sl THEN no(ANY)
           ELSE yes(made, Len(made.n), 4))
     ELSE IF excl THEN Amb(w, S, no({EXIST} \cup (IF dirf \/ w.sl THEN {INVAL, NOTDIR, ISDIR} ELSE {})))
     ELSE IF nd.k = "l" THEN no({LOOP} \cup (IF dirf THEN {NOTDIR, INVAL} ELSE {}))
     ELSE IF nd.k = "d"
     THEN (IF creat \/ trunc \/ RWRITE \in b0 THEN no({ISDIR, INVAL}) ELSE yes(S, w.n, 3))
     ELSE IF dirf THEN no({NOTDIR, INVAL})
     ELSE yes(IF trunc THEN [S EXCEPT !.n[w.n] = [@ EXCEPT !.data = << >>, !.mt = << >>]] ELSE S, w.n, 4)

-----------------------------------------------------------------------------
(* The rest.                                                                  *)
RECURSIVE Strings(_, _, _, _)
\* The strings ss, NUL-terminated, at buf, pointed to from ptr.
Strings(c, ss, ptr, buf) ==
  ss = << >> \/ (/\ Is(c, ptr, Bytes(buf, 4)) /\ Is(c, buf, Append(ss[1], 0))
                 /\ Strings(c, Tail(ss), ptr + 4, buf + Len(ss[1]) + 1))
Total(ss) == FoldLeft(LAMBDA a, s : a + Len(s) + 1, 0, ss)
GetStrings(S, c, ss) == Out(Ok(S), <<[a |-> c.ptr, l |-> 4 * Len(ss)], [a |-> c.buf, l |-> Total(ss)]>>, Strings(c, ss, c.ptr, c.buf))
Sizes(S, c, ss) == Out(Ok(S), <<[a |-> c.ptr, l |-> 4], [a |-> c.buf, l |-> 4]>>, Is(c, c.ptr, Bytes(Len(ss), 4)) /\ Is(c, c.buf, Bytes(Total(ss), 4)))

\* Clocks: time readings are compared as the 8 bytes they are.
ClockRes(S, c) == IF c.id \in 0..3 THEN Out(Ok(S), <<[a |-> c.out, l |-> 8]>>, Post(c, c.out, 8) # Zeros(8)) ELSE Er(S, {INVAL, NOTSUP})
ClockTime(S, c) ==
  IF c.id \notin 0..3 THEN Er(S, {INVAL, NOTSUP})
  ELSE LET v == Post(c, c.out, 8)
           last == S.clk[c.id + 1]
       IN Out(Ok(IF c.r = 0 THEN [S EXCEPT !.clk[c.id + 1] = v] ELSE S), <<[a |-> c.out, l |-> 8]>>,
              /\ (c.id # 0 /\ last # << >>) => LE(last, v)
              /\ LE(c.win[c.id + 1][1], v) /\ LE(v, c.win[c.id + 1][2]))
Random(S, c) ==
  LET changed == FoldLeft(LAMBDA a, x : a + x.l, 0, c.diff)
  IN Out(Ok(S), <<[a |-> c.buf, l |-> c.len]>>, (c.len >= 24 => changed > 0) /\ (c.len >= 64 => 4 * changed >= 3 * c.len))

\* Polling.  c.subs: [ud, ty, id, to, abs, fd]; times in ms relative to the
\* call, clipped; c.took the time the call needed, c.evs the events reported.
PollBad(S, s) == CASE s.ty = 0 -> s.id \notin 0..1
                   [] s.ty \in {1, 2} -> ~Open(S, s.fd) \/ RPOLL \notin S.fd[s.fd].b
                   [] OTHER -> TRUE
PollErr(S, s) == CASE s.ty = 0 -> {INVAL, NOTSUP} [] s.ty \in {1, 2} -> (IF Open(S, s.fd) THEN {NOTCAPABLE} ELSE {BADF}) [] OTHER -> {INVAL, NOTSUP}
\* What is certainly ready, and what may be; a stream that stays open without
\* further input (conf.quiet) is ready for reading only while input is left.
Input(S) == ~S.conf.quiet \/ S.inp < Len(S.in)
SockReady(S, s) == LET k == S.sk[S.fd[s.fd].n]
                   IN IF s.ty = 1 THEN k.rx # << >> \/ k.q # << >> \/ (k.eof /\ k.ty = "stream") ELSE k.ty # "listen" /\ k.wr /\ ~k.gone
SockMay(S, s) == LET k == S.sk[S.fd[s.fd].n]
                 IN IF s.ty = 1 THEN k.rx # << >> \/ k.q # << >> \/ k.eof \/ ~k.rd ELSE k.ty # "listen"
Must(S, s) == /\ s.ty \in {1, 2}
              /\ Open(S, s.fd)
              /\ IF IsSock(S, s.fd) THEN SockReady(S, s)
                 ELSE IF S.fd[s.fd].n # 0 THEN TRUE
                 ELSE IF S.fd[s.fd].o = 0 THEN s.ty = 1 /\ Input(S)
                 ELSE s.ty = 2
May(S, s) == s.ty \in {1, 2} /\ Open(S, s.fd) /\ (IsSock(S, s.fd) => SockMay(S, s)) /\ ((S.fd[s.fd].n = 0 /\ S.fd[s.fd].o = 0 /\ s.ty = 1) => Input(S))
Poll(S, c) ==
  LET ns == Len(c.subs)
      bad == UNION {IF PollBad(S, c.subs[i]) THEN PollErr(S, c.subs[i]) ELSE {} : i \in 1..ns}
      SLACK == 4
      T == After(S, c.late)
      due(s) == IF s.ty = 0 THEN c.took + SLACK >= s.to ELSE May(S, s) \/ May(T, s)
      evs == c.evs
      \* some assignment of events to distinct subscriptions: user data are distinct in the traces
      sub(e) == {i \in 1..ns : c.subs[i].ud = e.ud}
      good == /\ Len(evs) >= 1 /\ Len(evs) <= ns
              /\ Is(c, c.out, Bytes(Len(evs), 4))
              /\ \A i \in 1..Len(evs) : \E k \in sub(evs[i]) : evs[i].ty = c.subs[k].ty /\ evs[i].er = 0 /\ due(c.subs[k])
              /\ \A i, j \in 1..Len(evs) : evs[i].ud = evs[j].ud => i = j
              \* what is ready without waiting is reported, and nobody waits then
              /\ (\E k \in 1..ns : Must(S, c.subs[k])) =>
                    /\ c.took <= c.lim
                    /\ \E i \in 1..Len(evs) : \E k \in sub(evs[i]) : TRUE
              /\ \A k \in 1..ns : Must(S, c.subs[k]) => \E i \in 1..Len(evs) : evs[i].ud = c.subs[k].ud
              \* what the other ends did by c.by made something ready
              /\ (c.late # << >> /\ \E k \in 1..ns : Must(T, c.subs[k])) => c.took <= c.by + c.lim
              \* the wait is no longer than the earliest timeout
              /\ \A k \in 1..ns : c.subs[k].ty = 0 => c.took <= Hi(c.subs[k].to, 0) + c.lim
  IN IF ns = 0 THEN Er(S, {INVAL})
     ELSE IF bad # {} THEN [Free(S, <<[a |-> c.buf, l |-> 32 * ns], [a |-> c.out, l |-> 4]>>) EXCEPT !.err = bad, !.stop = FALSE,
                                \* refused as a whole, or each subscription that cannot be is reported as such
                                !.chk = c.r # 0 \/ (/\ \A i \in 1..Len(evs) : sub(evs[i]) # {}
                                                   /\ \A k \in 1..ns : PollBad(S, c.subs[k]) => \E i \in 1..Len(evs) : k \in sub(evs[i]) /\ evs[i].er \in PollErr(S, c.subs[k]))]
     ELSE Out(Ok(T), <<[a |-> c.buf, l |-> 32 * ns], [a |-> c.out, l |-> 4]>>, good)

-----------------------------------------------------------------------------
\* Locations the call reads and writes; all in memory or the call is out of bounds.
Bounds(c) == \A i \in 1..Len(c.loc) : c.loc[i].l <= c.ms /\ In(c, c.loc[i].a, c.loc[i].l)

Call(S, c) ==
  \* names and paths longer than the host may allow
  CASE c.p.long \/ c.p2.long -> [Free(S, c.loc) EXCEPT !.stop = (c.r = 0)]
    [] c.f = "fd_write" -> FdWrite(S, c)
    [] c.f = "fd_pwrite" -> FdPwrite(S, c)
    [] c.f = "fd_read" -> FdRead(S, c)
    [] c.f = "fd_pread" -> FdPread(S, c)
    [] c.f = "fd_seek" -> FdSeek(S, c)
    [] c.f = "fd_tell" -> FdTell(S, c)
    [] c.f = "fd_filestat_set_size" -> FdSetSize(S, c)
    [] c.f = "fd_allocate" -> FdAllocate(S, c)
    [] c.f = "fd_close" -> FdClose(S, c)
    [] c.f = "fd_renumber" -> FdRenumber(S, c)
    [] c.f = "fd_fdstat_get" -> FdStat(S, c)
    [] c.f = "fd_fdstat_set_flags" -> FdSetFlags(S, c)
    [] c.f = "fd_fdstat_set_rights" -> FdSetRights(S, c)
    [] c.f = "fd_filestat_get" -> FdFilestat(S, c)
    [] c.f = "fd_filestat_set_times" -> FdSetTimes(S, c)
    [] c.f = "fd_sync" -> FdSync(S, c, RSYNC)
    [] c.f = "fd_datasync" -> FdSync(S, c, RDATASYNC)
    [] c.f = "fd_advise" -> FdAdvise(S, c)
    [] c.f = "fd_prestat_get" -> Prestat(S, c)
    [] c.f = "fd_prestat_dir_name" -> PrestatName(S, c)
    [] c.f = "fd_readdir" -> Readdir(S, c)
    [] c.f = "path_create_directory" -> CreateDir(S, c)
    [] c.f = "path_unlink_file" -> UnlinkFile(S, c)
    [] c.f = "path_remove_directory" -> RemoveDir(S, c)
    [] c.f = "path_rename" -> Rename(S, c)
    [] c.f = "path_link" -> Link(S, c)
    [] c.f = "path_symlink" -> Symlink(S, c)
    [] c.f = "path_readlink" -> Readlink(S, c)
    [] c.f = "path_filestat_get" -> PathStat(S, c)
    [] c.f = "path_filestat_set_times" -> PathTimes(S, c)
    [] c.f = "path_open" -> PathOpen(S, c)
    [] c.f = "args_get" -> GetStrings(S, c, S.conf.args)
    [] c.f = "args_sizes_get" -> Sizes(S, c, S.conf.args)
    [] c.f = "environ_get" -> GetStrings(S, c, S.conf.envs)
    [] c.f = "environ_sizes_get" -> Sizes(S, c, S.conf.envs)
    [] c.f = "clock_res_get" -> ClockRes(S, c)
    [] c.f = "clock_time_get" -> ClockTime(S, c)
    [] c.f = "random_get" -> Random(S, c)
    [] c.f = "poll_oneoff" -> Poll(S, c)
    [] c.f = "sock_recv" -> SockRecvCall(S, c)
    [] c.f = "sock_send" -> SockSendCall(S, c)
    [] c.f = "sock_shutdown" -> SockShutdown(S, c)
    [] c.f = "sock_accept" -> SockAccept(S, c)
    [] c.f = "peer" -> Peer(S, c)
    [] c.f = "sched_yield" -> Ok(S)
    [] c.f = "proc_raise" -> IF c.sig = 0 THEN Either(S, ANY) ELSE Er(S, ANY)

-----------------------------------------------------------------------------
(* The initial state a history h describes, and a call as it is written down. *)
Pairs(s) == [x \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = x][2]]
Node(m) == [k |-> m.k, ents |-> Pairs(m.ents), data |-> m.data, t |-> m.t, tc |-> m.tc, tb |-> m.tb, gone |-> FALSE, at |-> << >>, mt |-> << >>]
Fd(x) == [n |-> x.n, o |-> x.o, fl |-> Set(x.fl), b |-> Set(x.b), i |-> Set(x.i), t |-> x.t, pre |-> x.pre]
Start(h) == [n |-> [i \in 1..Len(h.nodes) |-> Node(h.nodes[i])],
             fd |-> [f \in {h.fds[i].f : i \in 1..Len(h.fds)} |-> Fd(h.fds[CHOOSE i \in 1..Len(h.fds) : h.fds[i].f = f])],
             in |-> h.input, inp |-> 0, so |-> [i \in 1..2 |-> << >>], rd |-> NoEnts, ino |-> NoEnts, clk |-> [i \in 1..4 |-> << >>],
             sk |-> [x \in {h.socks[i].n : i \in 1..Len(h.socks)} |-> LET k == h.socks[CHOOSE i \in 1..Len(h.socks) : h.socks[i].n = x] IN [NewSock(k.ty, k.p) EXCEPT !.small = k.small]],
             conf |-> [args |-> h.args, envs |-> h.envs, pre |-> Pairs(h.pre), quiet |-> h.quiet], nb |-> Pairs(h.nb)]
Sets(c) == [c EXCEPT !.lf = Set(@), !.of = Set(@), !.fl = Set(@), !.rb = Set(@), !.ri = Set(@)]
=============================================================================
