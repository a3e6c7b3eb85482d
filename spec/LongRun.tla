------------------------------ MODULE LongRun ------------------------------
(***************************************************************************)
(* The machine of Parser.tla, its data laid out for runs of a hundred      *)
(* thousand steps and more:                                                *)
(*   - the stack is a sequence of chunks,                                  *)
(*   - a value is a number, the digest of its tree,                        *)
(*   - the sequence of actions is folded into numbers: ah, of each action  *)
(*     with the number of requests made before it; al, of the actions      *)
(*     only; sum, of those numbers of requests,                            *)
(*   - the input is run-length coded.                                      *)
(* MCLong.tla checks that it does, step by step, what Parser.tla does.     *)
(***************************************************************************)
EXTENDS Parsegen, Parser, SequencesExt

CONSTANT Chunk

(***************************************************************************)
(* Digests (harness/src/lib.rs computes the same).                         *)
(***************************************************************************)
M == 67108859
Mix(h, x) == (h * 31 + x + 1) % M
RECURSIVE Digest(_, _, _, _)
Digest(h, args, bind, i) == IF i > Len(args) THEN h
                            ELSE Digest(IF bind[i] = 1 THEN Mix(h, args[i]) ELSE h, args, bind, i + 1)
\* A sum that does not fit into an integer.
Plus(s, x) == LET y == s[2] + x IN << s[1] + (y \div 1000000), y % 1000000 >>
Less(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
TokenDigest(t, k) == IF G.tk[t] = 0 THEN 1 ELSE k

(***************************************************************************)
(* The chunked stack, of pairs << state, value >>.                         *)
(***************************************************************************)
Push(s, x) == IF Len(s) = 0 \/ Len(s[Len(s)]) = Chunk THEN Append(s, << x >>)
              ELSE [ s EXCEPT ![Len(s)] = Append(@, x) ]
Peek(s) == LET c == s[Len(s)] IN c[Len(c)]
Drop1(s) == LET c == s[Len(s)] IN IF Len(c) = 1 THEN SubSeq(s, 1, Len(s) - 1)
                                  ELSE [ s EXCEPT ![Len(s)] = SubSeq(@, 1, Len(@) - 1) ]
RECURSIVE Take(_, _, _)
Take(s, n, acc) == IF n = 0 THEN << s, acc >> ELSE Take(Drop1(s), n - 1, << Peek(s)[2] >> \o acc)

(***************************************************************************)
(* The input.  at = << segment, repetitions left, index >> of the next.    *)
(***************************************************************************)
Begins(segs) == IF segs = <<>> THEN << 1, 0, 1 >> ELSE << 1, segs[1].n, 1 >>
Offered(segs, at) == IF at[1] > Len(segs) THEN 0 ELSE segs[at[1]].part[at[3]]
Forward(segs, at) ==
  IF at[1] > Len(segs) THEN at
  ELSE IF at[3] < Len(segs[at[1]].part) THEN << at[1], at[2], at[3] + 1 >>
  ELSE IF at[2] > 1 THEN << at[1], at[2] - 1, 1 >>
  ELSE << at[1] + 1, IF at[1] < Len(segs) THEN segs[at[1] + 1].n ELSE 0, 1 >>

LongInit(e, segs) == [ stk |-> << << << e, 0 >> >> >>, at |-> Begins(segs), la |-> 0, err |-> 0, np |-> 0, na |-> 0, ah |-> 0, al |-> 0, sum |-> << 0, 0 >>,
                  st |-> "pull", ret |-> [ k |-> "none", v |-> 0, f |-> "", x |-> "" ] ]

Done(r, ret) == [ r EXCEPT !.st = "done", !.ret = ret ]
NoRetL == [ k |-> "none", v |-> 0, f |-> "", x |-> "" ]

\* One step of the machine; the identity when it has returned.
Micro(segs, r) ==
  IF r.st = "done" THEN r
  ELSE IF r.st = "pull" THEN
    LET x == Offered(segs, r.at) IN
    [ r EXCEPT !.la = IF x > 0 THEN x ELSE 0, !.err = IF x < 0 THEN 0 - x ELSE 0, !.np = @ + 1,
               !.at = IF x = 0 THEN @ ELSE Forward(segs, @), !.st = "run" ]
  ELSE IF r.err # 0 THEN Done(r, [ NoRetL EXCEPT !.k = "lerr", !.v = r.err ])
  ELSE
    LET top == Peek(r.stk)
        a   == aut[top[1]].act[r.la]
    IN CASE a[1] = "e" -> Done(r, [ NoRetL EXCEPT !.k = "perr",
                                      !.f = IF r.la = 0 THEN "end-of-input" ELSE G.names[r.la], !.x = Expected(G, aut, top[1]) ])
         [] a[1] = "a" -> Done(r, [ NoRetL EXCEPT !.k = "ok", !.v = top[2] ])
         [] a[1] = "s" -> [ r EXCEPT !.stk = Push(@, << a[2], TokenDigest(r.la, r.np) >>), !.st = "pull" ]
         [] a[1] = "r" ->
              LET pr == G.prods[a[2]]
                  t  == Take(r.stk, Len(pr.rhs), <<>>)
              IN [ r EXCEPT !.stk = Push(t[1], << aut[Peek(t[1])[1]].go[Sym(G, pr.lhs)],
                                                  Digest(pr.lab, t[2], pr.bind, 1) >>),
                            !.na = @ + 1, !.ah = Mix(Mix(@, pr.lab), r.np), !.al = Mix(@, pr.lab),
                            !.sum = Plus(@, r.np) ]
=============================================================================
