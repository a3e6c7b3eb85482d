-------------------------------- MODULE CFG --------------------------------
(***************************************************************************)
(* Context-free grammars as data, and their declarative semantics.         *)
(*                                                                         *)
(* A grammar is a record                                                   *)
(*   nT      number of terminals; terminal symbols are 1 .. nT             *)
(*   nN      number of non-terminals; non-terminal k is the symbol nT + k  *)
(*   prods   sequence of [lhs |-> 1..nN, rhs |-> Seq(symbol),              *)
(*                        bind |-> Seq({0,1}), lab |-> 1..]                *)
(*             bind: is the symbol named; lab: what the semantic action     *)
(*             shows itself as (productions may have the same action)      *)
(*   entries sequence of non-terminal numbers (the `pub` ones)             *)
(*                                                                         *)
(* The symbol 0 (Eof) is the end of the input.  Nothing in this module     *)
(* mentions LR parsing: it is the yardstick the parser is measured with.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Eof == 0

Terms(G) == 1 .. G.nT
NTs(G)   == 1 .. G.nN
IsT(G, x) == x <= G.nT
NT(G, x)  == x - G.nT           \* non-terminal number of a symbol
Sym(G, k) == G.nT + k           \* symbol of a non-terminal number
PIdx(G)   == 1 .. Len(G.prods)
ProdsOf(G, k) == { p \in PIdx(G) : G.prods[p].lhs = k }

(***************************************************************************)
(* Productive and reachable non-terminals (least fixpoints).               *)
(***************************************************************************)
RECURSIVE ProductiveFrom(_, _)
ProductiveFrom(G, S) ==
  LET S2 == S \cup { G.prods[p].lhs : p \in { q \in PIdx(G) :
                 \A i \in 1 .. Len(G.prods[q].rhs) :
                    LET x == G.prods[q].rhs[i] IN IsT(G, x) \/ NT(G, x) \in S } }
  IN IF S2 = S THEN S ELSE ProductiveFrom(G, S2)
Productive(G) == ProductiveFrom(G, {})

RECURSIVE ReachFrom(_, _)
ReachFrom(G, S) ==
  LET S2 == S \cup UNION { { NT(G, G.prods[p].rhs[i]) :
                  i \in { j \in 1 .. Len(G.prods[p].rhs) : ~IsT(G, G.prods[p].rhs[j]) } } :
                p \in { q \in PIdx(G) : G.prods[q].lhs \in S } }
  IN IF S2 = S THEN S ELSE ReachFrom(G, S2)
Reachable(G) == ReachFrom(G, { G.entries[i] : i \in 1 .. Len(G.entries) })

AllProductive(G) == Productive(G) = NTs(G)

(***************************************************************************)
(* Languages, restricted to strings of at most n terminals.                *)
(* L[k] is the set of strings derived from non-terminal k.                 *)
(***************************************************************************)
Concat(A, B, n) ==
  { x \o y : <<x, y>> \in { z \in A \X B : Len(z[1]) + Len(z[2]) <= n } }

RECURSIVE RhsLang(_, _, _, _)
RhsLang(G, rhs, L, n) ==
  IF rhs = <<>> THEN { <<>> }
  ELSE LET x == Head(rhs)
           H == IF IsT(G, x) THEN (IF n >= 1 THEN { <<x>> } ELSE {}) ELSE L[NT(G, x)]
       IN IF H = {} THEN {} ELSE Concat(H, RhsLang(G, Tail(rhs), L, n), n)

RECURSIVE LangFix(_, _, _)
LangFix(G, L, n) ==
  LET L2 == TLCEval([ k \in NTs(G) |->
              L[k] \cup UNION { RhsLang(G, G.prods[p].rhs, L, n) : p \in ProdsOf(G, k) } ])
  IN IF L2 = L THEN L ELSE LangFix(G, L2, n)
Lang(G, n) == LangFix(G, [ k \in NTs(G) |-> {} ], n)

(***************************************************************************)
(* Viable prefixes: Pre[k] is the set of prefixes, of at most n terminals, *)
(* of strings derived from k.  Exact when every non-terminal is            *)
(* productive.                                                             *)
(***************************************************************************)
RECURSIVE RhsPre(_, _, _, _, _)
RhsPre(G, rhs, L, P, n) ==
  IF rhs = <<>> THEN { <<>> }
  ELSE LET x == Head(rhs)
           HP == IF IsT(G, x) THEN { <<>> } \cup (IF n >= 1 THEN { <<x>> } ELSE {}) ELSE P[NT(G, x)]
           HL == IF IsT(G, x) THEN (IF n >= 1 THEN { <<x>> } ELSE {}) ELSE L[NT(G, x)]
       IN HP \cup Concat(HL, RhsPre(G, Tail(rhs), L, P, n), n)

RECURSIVE PreFix(_, _, _, _)
PreFix(G, L, P, n) ==
  LET P2 == TLCEval([ k \in NTs(G) |->
              P[k] \cup UNION { RhsPre(G, G.prods[p].rhs, L, P, n) : p \in ProdsOf(G, k) } ])
  IN IF P2 = P THEN P ELSE PreFix(G, L, P2, n)
ViablePrefixes(G, L, n) == PreFix(G, L, [ k \in NTs(G) |-> {} ], n)

(***************************************************************************)
(* Parse trees.  TreeSet(G, L, n, d)[k] is the set of <<string, tree>>     *)
(* pairs such that tree is the value of a parse tree, of height at most d, *)
(* of that string (of at most n terminals) with root k.  A value is        *)
(*    "t" \o terminal            for a token,                              *)
(*    "n" \o production [ ... ]  for a node, with its bound children.      *)
(***************************************************************************)
RECURSIVE RhsTrees(_, _, _, _, _)
RhsTrees(G, rhs, bind, T, n) ==          \* set of <<string, children text>>
  IF rhs = <<>> THEN { << <<>>, "" >> }
  ELSE LET x == Head(rhs)
           H == IF IsT(G, x) THEN (IF n >= 1 THEN { << <<x>>, "t" \o ToString(x) >> } ELSE {})
                ELSE T[NT(G, x)]
       IN IF H = {} THEN {} ELSE
          LET R == RhsTrees(G, Tail(rhs), Tail(bind), T, n)
          IN { << z[1][1] \o z[2][1],
                  (IF Head(bind) = 1 THEN z[1][2] \o "," ELSE "") \o z[2][2] >> :
               z \in { y \in H \X R : Len(y[1][1]) + Len(y[2][1]) <= n } }

RECURSIVE TreeFix(_, _, _, _)
TreeFix(G, T, n, d) ==
  IF d = 0 THEN T ELSE
  LET T2 == TLCEval([ k \in NTs(G) |->
              UNION { { << z[1], "n" \o ToString(p) \o "[" \o z[2] \o "]" >> :
                        z \in RhsTrees(G, G.prods[p].rhs, G.prods[p].bind, T, n) } :
                      p \in ProdsOf(G, k) } ])
  IN IF T2 = T THEN T ELSE TreeFix(G, T2, n, d - 1)
Trees(G, n, d) == TreeFix(G, [ k \in NTs(G) |-> {} ], n, d)
=============================================================================
