------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The generated parser at work: the driver loop.                          *)
(*                                                                         *)
(* A run is a record (so that several runs can coexist, see Sessions)      *)
(*   stk   stack of LR(1) states                                           *)
(*   vals  stack of semantic values (strings), one per symbol              *)
(*   la    the look-ahead: [k |-> "tok"|"eof"|"err"|"none", t, v]          *)
(*   np    number of requests made to the token iterator                   *)
(*   na    number of semantic actions run                                  *)
(*   st    "pull": about to request a token; "run": look-ahead present;    *)
(*         "done": returned                                                *)
(*   ret   the result: [k |-> "ok"|"perr"|"lerr"|"none", v, f, x]          *)
(* For each kind of step there is an enabling condition CanX and an effect *)
(* DoX; exactly one is enabled in a run that is not done.                  *)
(***************************************************************************)
EXTENDS LR1

NoLa  == [ k |-> "none", t |-> 0, v |-> "" ]
NoRet == [ k |-> "none", v |-> "", f |-> "", x |-> "" ]

TokItem(t, v) == [ k |-> "tok", t |-> t, v |-> v ]
EofItem       == [ k |-> "eof", t |-> 0, v |-> "" ]
ErrItem(v)    == [ k |-> "err", t |-> 0, v |-> v ]

RunInit(e) == [ stk |-> << e >>, vals |-> <<>>, la |-> NoLa, np |-> 0, na |-> 0,
                st |-> "pull", ret |-> NoRet ]

Top(s) == s[Len(s)]
Pop(s, n) == SubSeq(s, 1, Len(s) - n)

\* The table entry for the current state and look-ahead.
Entry(aut, r) == aut[Top(r.stk)].act[r.la.t]
Looking(r) == r.st = "run" /\ r.la.k # "err"

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
ValueCap == 3000        \* longer values are abbreviated to the action's number

RECURSIVE JoinBound(_, _, _)
JoinBound(args, bind, i) ==
  IF i > Len(args) THEN ""
  ELSE (IF bind[i] = 1 THEN args[i] \o "," ELSE "") \o JoinBound(args, bind, i + 1)

NodeValue(G, p, args, n) ==
  LET s == "n" \o ToString(G.prods[p].lab) \o "[" \o JoinBound(args, G.prods[p].bind, 1) \o "]"
  IN IF Len(s) > ValueCap THEN "#" \o ToString(n) ELSE s

(***************************************************************************)
(* What can follow in a state, as text.                                    *)
(***************************************************************************)
RECURSIVE JoinNames(_, _, _)
JoinNames(names, S, i) ==      \* names of the terminals >= i in S, in order
  IF \A t \in S : t < i THEN ""
  ELSE IF i \notin S THEN JoinNames(names, S, i + 1)
  ELSE names[i] \o (IF \E t \in S : t > i THEN ", " ELSE "") \o JoinNames(names, S, i + 1)

ExpectedSet(G, aut, q) == { t \in Terms(G) : aut[q].act[t][1] # "e" }
Expected(G, aut, q)    == JoinNames(G.names, ExpectedSet(G, aut, q), 1)
Found(G, la) == IF la.k = "eof" THEN "end-of-input" ELSE G.names[la.t]

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
CanPull(r) == r.st = "pull"
DoPull(r, item) == [ r EXCEPT !.la = item, !.np = @ + 1, !.st = "run" ]

CanLexError(r) == r.st = "run" /\ r.la.k = "err"
DoLexError(r) == [ r EXCEPT !.st = "done", !.ret = [ NoRet EXCEPT !.k = "lerr", !.v = r.la.v ] ]

CanSyntaxError(aut, r) == Looking(r) /\ Entry(aut, r)[1] = "e"
DoSyntaxError(G, aut, r) ==
  [ r EXCEPT !.st = "done",
             !.ret = [ NoRet EXCEPT !.k = "perr", !.f = Found(G, r.la),
                                    !.x = Expected(G, aut, Top(r.stk)) ] ]

CanShift(aut, r) == Looking(r) /\ Entry(aut, r)[1] = "s"
DoShift(aut, r) ==
  [ r EXCEPT !.stk = Append(@, Entry(aut, r)[2]), !.vals = Append(@, r.la.v),
             !.la = NoLa, !.st = "pull" ]

CanReduce(aut, r) == Looking(r) /\ Entry(aut, r)[1] = "r"
ReduceProd(aut, r) == Entry(aut, r)[2]
DoReduce(G, aut, r, tracked) ==
  LET p == ReduceProd(aut, r)
      n == Len(G.prods[p].rhs)
      stk == Pop(r.stk, n)
      v == IF tracked
           THEN NodeValue(G, p, SubSeq(r.vals, Len(r.vals) - n + 1, Len(r.vals)), r.na + 1)
           ELSE ""
  IN [ r EXCEPT !.stk  = Append(stk, aut[Top(stk)].go[Sym(G, G.prods[p].lhs)]),
                !.vals = Append(Pop(@, n), v),
                !.na   = @ + 1 ]

CanAccept(aut, r) == Looking(r) /\ Entry(aut, r)[1] = "a"
DoAccept(r) == [ r EXCEPT !.st = "done", !.ret = [ NoRet EXCEPT !.k = "ok", !.v = Top(r.vals) ] ]

(***************************************************************************)
(* Structure every run keeps, whatever the grammar.                        *)
(***************************************************************************)
RunShape(G, aut, r) ==
  /\ Len(r.stk) = Len(r.vals) + 1
  /\ \A i \in 1 .. Len(r.stk) : r.stk[i] \in 1 .. Len(aut)
  /\ \A i \in 2 .. Len(r.stk) : \E x \in 1 .. G.nT + G.nN : aut[r.stk[i-1]].go[x] = r.stk[i]
  /\ r.ret.k = "ok" => Len(r.vals) = 1
  /\ (r.st = "done") <=> (r.ret.k # "none")

\* The same for the top of the stack only: enough when it is checked after every step.
TopShape(G, aut, r) ==
  LET n == Len(r.stk) IN
  /\ n = Len(r.vals) + 1
  /\ r.stk[n] \in 1 .. Len(aut)
  /\ n > 1 => \E x \in 1 .. G.nT + G.nN : aut[r.stk[n-1]].go[x] = r.stk[n]
  /\ r.ret.k = "ok" => n = 2
  /\ (r.st = "done") <=> (r.ret.k # "none")
=============================================================================
