------------------------------- MODULE MCOwner -------------------------------
(***************************************************************************)
(* Ownership on all grammars of a family, all inputs up to a bound, and a  *)
(* panic in any event or none.                                             *)
(***************************************************************************)
EXTENDS Owner, Family

CONSTANT MaxLen

VARIABLES o, w, last, plain      \* plain: the parser without ownership, beside it

vars == << gen, o, w, last, plain >>

Inputs == UNION { [ 1 .. n -> { -9 } \cup 1 .. MaxT ] : n \in 0 .. MaxLen }
Item(k) == IF k > Len(w) THEN 0 ELSE w[k]

\* Terminals with different numbers of parts; every other symbol has a name.
PartsOf(t) == IF t = 1 THEN << 0, 1 >> ELSE IF t = 2 THEN << 1, 0, 1 >> ELSE <<>>

Init == /\ \E S \in ProdSets : \E b \in { 0, 1 } :
             LET g == MkGrammar(S) IN
             G = [ g EXCEPT !.prods = [ i \in DOMAIN @ |->
                     [ @[i] EXCEPT !.bind = [ j \in DOMAIN @ |-> (i + j + b) % 2 ] ] ] ]
                 @@ [ parts |-> [ t \in 1 .. MaxT |-> PartsOf(t) ] ]
        /\ Proper(G)
        /\ GenInit
        /\ o = <<>> /\ w = <<>> /\ last = -1 /\ plain = <<>>

Generate == GenNext /\ UNCHANGED << o, w, last, plain >>

Start == /\ phase = "ready" /\ "RR" \notin Conflicts
         /\ phase' = "run"
         /\ w' \in Inputs
         /\ last' \in { -1 } \cup 0 .. 2 * MaxLen
         /\ o' = OwnInit(1) /\ plain' = RunInit(1)
         /\ UNCHANGED << G, F, C, aut, todo >>

Step == /\ phase = "run" /\ o.r.st # "done"
        /\ o' = OwnStep(o, Item(o.r.np + 1), last)
        /\ plain' = CASE CanPull(plain) -> DoPull(plain, LET x == Item(plain.np + 1) IN
                                             IF x = 0 THEN EofItem ELSE IF x < 0 THEN ErrItem("") ELSE TokItem(x, ""))
                      [] CanLexError(plain) -> DoLexError(plain)
                      [] CanSyntaxError(aut, plain) -> DoSyntaxError(G, aut, plain)
                      [] CanShift(aut, plain) -> DoShift(aut, plain)
                      [] CanReduce(aut, plain) -> DoReduce(G, aut, plain, FALSE)
                      [] CanAccept(aut, plain) -> DoAccept(plain)
        /\ UNCHANGED << gen, w, last >>

Next == Generate \/ Start \/ Step
Spec == Init /\ [][Next]_vars

NothingLost == phase = "run" => Conserved(o)
LeavesNothing == phase = "run" /\ o.r.st = "done" => o.made = o.dropped \cup Elems(Joined(o.used)) \cup Elems(o.back)
SameAsParser ==
  phase = "run" /\ ~(o.r.ret.k = "fuel") =>
    /\ o.r.stk = plain.stk /\ o.r.np = plain.np /\ o.r.na = plain.na /\ o.r.st = plain.st /\ o.r.la = plain.la
    /\ o.r.ret.k = plain.ret.k /\ o.r.ret.f = plain.ret.f /\ o.r.ret.x = plain.ret.x

View == IF phase = "run" THEN << G.prods, w, last, o.r.np, o.r.na, o.r.st >> ELSE << G.prods, phase, todo, F >>
=============================================================================
