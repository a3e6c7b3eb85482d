------------------------------- MODULE Family -------------------------------
(***************************************************************************)
(* Finite families of grammars: all with the given numbers of terminals,   *)
(* non-terminals, productions and symbols of a right-hand side, all of     *)
(* whose non-terminals are reachable and derive some string.               *)
(***************************************************************************)
EXTENDS CFG, SequencesExt, FiniteSetsExt

CONSTANTS MaxT, MaxN, MaxProds, MaxRhs

Rhss == UNION { [ 1 .. n -> 1 .. MaxT + MaxN ] : n \in 0 .. MaxRhs }
AllProds == [ lhs : 1 .. MaxN, rhs : Rhss ]

MkGrammar(S) ==
  LET ps == SetToSeq(S)
  IN [ nT |-> MaxT, nN |-> MaxN, entries |-> << 1 >>,
       names |-> [ t \in 1 .. MaxT |-> "t" \o ToString(t) ],
       prods |-> [ i \in 1 .. Len(ps) |->
          [ lhs |-> ps[i].lhs, rhs |-> ps[i].rhs, bind |-> [ j \in 1 .. Len(ps[i].rhs) |-> 1 ], lab |-> i ] ] ]

ProdSets == UNION { kSubset(n, AllProds) : n \in 1 .. MaxProds }
Proper(g) == AllProductive(g) /\ Reachable(g) = NTs(g)

\* The image of a set of productions under a renaming of symbols.
Image(S, f) == { [ lhs |-> f[MaxT + p.lhs] - MaxT, rhs |-> [ i \in DOMAIN p.rhs |-> f[p.rhs[i]] ] ] : p \in S }
=============================================================================
