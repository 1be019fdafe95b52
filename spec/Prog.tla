------------------------------- MODULE Prog --------------------------------
(* A WASI command seen from outside: what a program, given as a tree of       *)
(* actions, writes to its standard streams and files and the status it ends   *)
(* with.  Exiting stops everything, however deeply nested; a trap ends the    *)
(* program without a status.                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

\* State: in/pos standard input, out/err/both what was written (both: in the
\* order of the writes), files [host directory, name] -> bytes, st, code, and
\* to: where the two output descriptors lead: the stream, a file from an offset
\* on, or nowhere once closed.  subs: the programs the embedder ran while this one waited, as they ended.
Start(c) == [pos |-> 0, out |-> << >>, err |-> << >>, both |-> << >>, files |-> c.files, st |-> "run", code |-> << >>,
             to |-> <<[k |-> "std", d |-> "", n |-> << >>, p |-> 0], [k |-> "std", d |-> "", n |-> << >>, p |-> 0]>>, subs |-> << >>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Lesser(a, b) == IF a < b THEN a ELSE b
Strings(xs) == FoldLeft(LAMBDA a, x : a \o x \o <<0>>, << >>, xs)
Env(c) == [i \in 1..Len(c.envs) |-> c.envs[i][1] \o <<61>> \o c.envs[i][2]]

\* The directories are the descriptors from 3 on, in the order of their names.
Dir(c, fd) == c.dirs[fd - 2]
HasFile(s, h, n) == \E i \in 1..Len(s.files) : s.files[i].d = h /\ s.files[i].n = n
File(s, h, n) == s.files[CHOOSE i \in 1..Len(s.files) : s.files[i].d = h /\ s.files[i].n = n].b
SetFile(s, h, n, b) ==
  IF HasFile(s, h, n) THEN [s EXCEPT !.files = [i \in 1..Len(@) |-> IF @[i].d = h /\ @[i].n = n THEN [@[i] EXCEPT !.b = b] ELSE @[i]]]
  ELSE [s EXCEPT !.files = Append(@, [d |-> h, n |-> n, b |-> b])]

\* Bytes b at offset p of a file; what lies before and was never written is zero.
Patch(f, p, b) ==
  IF b = << >> THEN f
  ELSE LET n == IF Len(f) > p + Len(b) THEN Len(f) ELSE p + Len(b)
       IN [i \in 1..n |-> IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE IF i <= Len(f) THEN f[i] ELSE 0]
Put(s, fd, b) ==
  LET t == s.to[fd]
  IN CASE t.k = "file" -> [SetFile(s, t.d, t.n, Patch(File(s, t.d, t.n), t.p, b)) EXCEPT !.to[fd].p = @ + Len(b)]
       [] t.k = "shut" -> s
       [] fd = 1 -> [s EXCEPT !.out = @ \o b, !.both = @ \o b]
       [] OTHER -> [s EXCEPT !.err = @ \o b, !.both = @ \o b]

RECURSIVE Do(_, _, _), Body(_, _, _), Times(_, _, _, _), Run(_, _)
\* The embedder may ask to be left by an exit (quit) rather than be given a status.
\* Nothing said after the last action is a return, with status zero.
Run(c, is) == LET s == Body(c, is, Start(c)) IN IF s.st = "run" THEN [s EXCEPT !.st = "exit", !.code = <<0, 0, 0, 0>>] ELSE s
Body(c, is, s) == FoldLeft(LAMBDA a, i : Do(c, i, a), s, is)
Times(c, is, s, n) == IF n = 0 \/ s.st # "run" THEN s ELSE Times(c, is, Body(c, is, s), n - 1)
Do(c, i, s) ==
  IF s.st # "run" THEN s
  ELSE CASE i.o = "w" -> Put(s, i.fd, i.b)
       [] i.o = "r" ->                            \* read up to n bytes and write them to standard output
            LET k == Lesser(i.n, Len(c.in) - s.pos)
            IN Put([s EXCEPT !.pos = @ + k], 1, SubSeq(c.in, s.pos + 1, s.pos + k))
       [] i.o = "exit" -> [s EXCEPT !.st = IF c.quit THEN "quit" ELSE "exit", !.code = i.b]
       [] i.o = "trap" -> [s EXCEPT !.st = "trap"]
       [] i.o \in {"call", "ind", "back", "blk"} -> Body(c, i.is, s)
       [] i.o = "loop" -> Times(c, i.is, s, i.n)
       [] i.o = "args" -> Put(s, 1, Strings(c.args))
       [] i.o = "env" -> Put(s, 1, Strings(Env(c)))
       [] i.o = "argc" -> Put(s, 1, <<Len(c.args), Len(c.envs)>>)
       [] i.o = "pre" -> Put(s, 1, Dir(c, i.fd).g)
       [] i.o = "cat" -> IF HasFile(s, Dir(c, i.fd).h, i.f) THEN Put(s, 1, File(s, Dir(c, i.fd).h, i.f)) ELSE Put(s, 1, <<63>>)
       [] i.o = "put" -> SetFile(s, Dir(c, i.fd).h, i.f, i.b)
       [] i.o = "redir" ->                        \* a new file in place of an output
            LET h == Dir(c, i.fd).h
            IN [SetFile(s, h, i.f, << >>) EXCEPT !.to[i.to] = [k |-> "file", d |-> h, n |-> i.f, p |-> 0]]
       [] i.o = "shut" -> [s EXCEPT !.to[i.to].k = "shut"]
       [] i.o = "spawn" ->                        \* another program, from beginning to end
            LET t == Run([i.conf EXCEPT !.files = s.files], i.is)
            IN [s EXCEPT !.files = t.files, !.subs = @ \o t.subs \o <<[t EXCEPT !.subs = << >>]>>]

Files(s) == {<<s.files[i].d, s.files[i].n, s.files[i].b>> : i \in 1..Len(s.files)}
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* What was observed of one program: how \in {"lib", "cli"}, merged (one stream
\* for both outputs), status bytes or <<>> if it ended another way, and the
\* codes the descriptors answer with after the end.
RECURSIVE Agrees(_, _)
Agrees(s, o) ==
  LET lib == o.how = "lib"
      n == Len(s.subs)
      m == Len(o.subs)
      wrong == {k \in 1..Lesser(n, m) : Agrees(s.subs[k], o.subs[k]) # ""}
  IN CASE wrong # {} -> "a program run meanwhile: " \o Agrees(s.subs[Least(wrong)], o.subs[Least(wrong)])
     [] n # m /\ o.end # "hang" -> "programs run meanwhile"
     [] o.end = "hang" -> "no end"
     [] s.st \in {"exit", "quit"} /\ o.end # s.st -> "ended without a status: " \o o.end
     [] s.st = "trap" /\ o.end \in {"exit", "quit"} -> "a trap became a status"
     [] s.st # "trap" /\ lib /\ o.code # s.code -> "status"
     [] s.st = "exit" /\ ~lib /\ o.code # << s.code[1] >> -> "exit status of the process"
     [] o.merged /\ ~Prefix(s.both, o.out) -> "order of the output"
     [] o.merged /\ (s.st = "exit" \/ lib) /\ o.out # s.both -> "order of the output"
     [] ~o.merged /\ o.out # s.out -> "standard output"
     [] ~o.merged /\ (s.st = "exit" \/ lib) /\ o.err # s.err -> "standard error"
     [] ~o.merged /\ ~Prefix(s.err, o.err) -> "standard error"
     [] Files(s) # {<<o.files[i][1], o.files[i][2], o.files[i][3]>> : i \in 1..Len(o.files)} -> "files"
     [] \E i \in 1..Len(o.dead) : o.dead[i] # 8 -> "a descriptor lives on after the end"
     [] \E i \in 1..Len(o.std) : s.to[i].k # "std" /\ o.std[i] # 8 -> "an output that was replaced lives on after the end"
     [] o.lost # 0 -> "a descriptor of the embedder was closed"
     [] o.left # 0 -> "host descriptors the program had were kept or not its own were closed"
     [] OTHER -> ""
Judge(c, is, o) == Agrees(Run(c, is), o)
=============================================================================
