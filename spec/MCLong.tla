------------------------------- MODULE MCLong -------------------------------
(***************************************************************************)
(* The machine for very long runs makes the steps of Parser.tla: all       *)
(* grammars of a family, all inputs up to a bound, in lock step.           *)
(***************************************************************************)
EXTENDS LongRun, Family

CONSTANT MaxLen

VARIABLES run,      \* Parser.tla
          long,     \* LongRun.tla
          segs      \* the input

vars == << gen, run, long, segs >>

Inputs == UNION { [ 1 .. n -> { -9 } \cup 1 .. MaxT ] : n \in 0 .. MaxLen }

\* Ways to write an input as segments: item by item, or as a run of one item.
Segs(w) == { [ i \in 1 .. Len(w) |-> [ part |-> << w[i] >>, n |-> 1 ] ] }
           \cup (IF w # <<>> THEN { << [ part |-> w, n |-> 1 ] >> } ELSE {})
           \cup (IF w # <<>> /\ \A i \in 1 .. Len(w) : w[i] = w[1] THEN { << [ part |-> << w[1] >>, n |-> Len(w) ] >> } ELSE {})

Flat(s) == FlattenSeq([ i \in 1 .. Len(s) |-> FlattenSeq([ j \in 1 .. s[i].n |-> s[i].part ]) ])
Item(k) == LET w == Flat(segs) IN
           IF k > Len(w) THEN EofItem ELSE IF w[k] < 0 THEN ErrItem(ToString(0 - w[k])) ELSE TokItem(w[k], ToString(k))

Init == /\ \E S \in ProdSets : G = MkGrammar(S) @@ [ tk |-> [ t \in 1 .. MaxT |-> 1 ] ]
        /\ Proper(G)
        /\ GenInit
        /\ run = <<>> /\ long = <<>> /\ segs = <<>>

Generate == GenNext /\ UNCHANGED << run, long, segs >>

Start == /\ phase = "ready" /\ "RR" \notin Conflicts
         /\ phase' = "run"
         /\ \E w \in Inputs : \E s \in Segs(w) : segs' = s /\ long' = LongInit(1, s)
         /\ run' = RunInit(1)
         /\ UNCHANGED << G, F, C, aut, todo >>

Step == /\ phase = "run" /\ run.st # "done"
        /\ run' = CASE CanPull(run) -> DoPull(run, Item(run.np + 1))
                     [] CanLexError(run) -> DoLexError(run)
                     [] CanSyntaxError(aut, run) -> DoSyntaxError(G, aut, run)
                     [] CanShift(aut, run) -> DoShift(aut, run)
                     [] CanReduce(aut, run) -> DoReduce(G, aut, run, FALSE)
                     [] CanAccept(aut, run) -> DoAccept(run)
        /\ long' = Micro(segs, long)
        /\ UNCHANGED << gen, segs >>

Next == Generate \/ Start \/ Step
Spec == Init /\ [][Next]_vars

SameAsParser ==
  phase = "run" =>
    /\ run.st = long.st /\ run.np = long.np /\ run.na = long.na
    /\ LET s == FlattenSeq(long.stk) IN run.stk = [ i \in 1 .. Len(s) |-> s[i][1] ]
    /\ run.ret.k = long.ret.k /\ run.ret.f = long.ret.f /\ run.ret.x = long.ret.x
    /\ run.st = "done" => Micro(segs, long) = long

View == IF phase = "run" THEN << G.prods, segs, run.np, run.na, run.st >> ELSE << G.prods, phase, todo, F >>
=============================================================================
