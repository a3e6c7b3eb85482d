------------------------------ MODULE Enumerate ------------------------------
(***************************************************************************)
(* Lists the grammars of a family, one of each orbit under exchanges of    *)
(* terminals and of non-terminals other than the first, with the class the *)
(* generator puts it in.  The real generator is then run on all of them.   *)
(***************************************************************************)
EXTENDS Parsegen, Family, Json

CONSTANT Entries         \* 1: the first non-terminal is the entry; 2: every two of them are

EntrySets == IF Entries = 1 THEN { << 1 >> }
             ELSE { e \in { << a, b >> : a, b \in 1 .. MaxN } : e[1] < e[2] }

Codes == SetToSeq(AllProds)
N == MaxT + MaxN

Symmetries == { f \in [ 1 .. N -> 1 .. N ] :
                  /\ \A i, j \in 1 .. N : i # j => f[i] # f[j]
                  /\ \A t \in 1 .. MaxT : f[t] <= MaxT
                  /\ f[MaxT + 1] = MaxT + 1 }

CodeOf == [ p \in AllProds |-> CHOOSE i \in 1 .. Len(Codes) : Codes[i] = p ]
Moved == { [ i \in 1 .. Len(Codes) |-> CodeOf[[ lhs |-> f[MaxT + Codes[i].lhs] - MaxT,
                                               rhs |-> [ j \in DOMAIN Codes[i].rhs |-> f[Codes[i].rhs[j]] ] ]] ] :
           f \in Symmetries }

\* A total order on the sets of a given size.
Less(A, B) == A # B /\ Min(A \ B) < Min(B \ A)
Canonical(I) == \A m \in Moved : ~Less({ m[i] : i \in I }, I)

UsesAllTerms(g) == \A t \in 1 .. MaxT : \E p \in PIdx(g) : \E j \in DOMAIN g.prods[p].rhs : g.prods[p].rhs[j] = t

Init == /\ \E n \in 1 .. MaxProds : \E I \in kSubset(n, 1 .. Len(Codes)) :
             /\ Canonical(I)
             /\ \E es \in EntrySets : G = [ MkGrammar({ Codes[i] : i \in I }) EXCEPT !.entries = es ]
        /\ Proper(G)
        /\ UsesAllTerms(G)
        /\ GenInit

Listed ==
  /\ phase = "ready"
  /\ phase' = "over"
  /\ PrintT("@@" \o ToJson([ nT |-> G.nT, nN |-> G.nN, entries |-> G.entries, conf |-> Conflicts, states |-> Len(aut),
        prods |-> [ i \in DOMAIN G.prods |-> << G.prods[i].lhs, G.prods[i].rhs >> ] ]))
  /\ UNCHANGED << G, F, C, aut, todo >>

Next == GenNext \/ Listed
Spec == Init /\ [][Next]_gen
View == << G.prods, G.entries, phase, todo, IF phase = "first" THEN F ELSE <<>> >>
=============================================================================
