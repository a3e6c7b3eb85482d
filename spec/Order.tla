-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* The order in which the generator works does not matter.                 *)
(*                                                                         *)
(* The machines of LR1.tla and Parsegen.tla go through productions and     *)
(* items in one particular order.  This one goes through them in any: it   *)
(* applies any production to the FIRST table until none adds anything,     *)
(* then closes item sets by any item until none adds anything, then goes   *)
(* on to any successor.  Whatever it does, it ends up with the same FIRST  *)
(* table and the same closures.                                            *)
(***************************************************************************)
EXTENDS LR1, Family

VARIABLES G, F, C, ker, la
vars == << G, F, C, ker, la >>

Init == /\ \E S \in ProdSets : G = MkGrammar(S)
        /\ Proper(G)
        /\ F = F0(G) /\ C = <<>> /\ ker = {} /\ la = <<>>

RelaxAny == /\ C = <<>>
            /\ \E p \in PIdx(G) : Relax(G, F, p) # F /\ F' = Relax(G, F, p)
            /\ UNCHANGED << G, C, ker, la >>

FirstDone == C = <<>> /\ \A p \in PIdx(G) : Relax(G, F, p) = F

Start == /\ FirstDone
         /\ C' = Ctx(G, F) /\ ker' = StartKer(G, 1)
         /\ UNCHANGED << G, F, la >>

\* What one item adds to the closure.
Adds(it) == Contributions(G, C, { it })
News == { c \in UNION { Adds(it) : it \in Items(G, C, ker, la) } :
            c[1] \notin DOMAIN la \/ ~(c[2] \subseteq la[c[1]]) }

CloseAny == /\ C # <<>>
            /\ \E c \in News : la' = Merge(la, { c })
            /\ UNCHANGED << G, F, C, ker >>

Closed == C # <<>> /\ News = {}

GoAny == /\ Closed
         /\ \E x \in NextSyms(C, Items(G, C, ker, la)) : ker' = GotoKer(C, Items(G, C, ker, la), x)
         /\ la' = <<>>
         /\ UNCHANGED << G, F, C >>

Next == RelaxAny \/ Start \/ CloseAny \/ GoAny
Spec == Init /\ [][Next]_vars
View == << G.prods, F, ker, la >>

SameFirst   == FirstDone => F = First(G)
SameClosure == Closed => la = Close(G, C, ker)
=============================================================================
