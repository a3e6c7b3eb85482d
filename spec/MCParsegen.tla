----------------------------- MODULE MCParsegen -----------------------------
(***************************************************************************)
(* Design-level check: for every grammar of a finite family and every      *)
(* input up to a bound, the LR(1) machine has the properties that the      *)
(* declarative semantics of CFG.tla prescribes.                            *)
(*                                                                         *)
(* The family is either read from a file grammars.ndjson (From = "file") or all grammars *)
(* with the given numbers of terminals, non-terminals, productions and     *)
(* right-hand side lengths (From = "all").                               *)
(***************************************************************************)
EXTENDS Parsegen, Parser, Family, Json

CONSTANTS From,        \* "all": the whole family; "file"
          Entries,     \* sets of entry points considered: 1: the first non-terminal; 2: also several
          MaxLen

VARIABLES gid,      \* grammar number
          sem,      \* declarative semantics of the grammar
          run,      \* the current parse
          ent,      \* its entry point
          inp,      \* tokens read so far
          acts      \* productions reduced so far

vars == << gen, gid, sem, run, ent, inp, acts >>

EntrySets == IF Entries = 1 THEN { << 1 >> }
             ELSE { << a, b >> : a, b \in 1 .. MaxN } \ { << a, a >> : a \in 1 .. MaxN }

FromFile == IF From = "file" THEN ndJsonDeserialize("grammars.ndjson") ELSE <<>>

Init ==
  /\ \/ /\ From = "all"
        /\ gid = 0
        /\ \E S \in ProdSets : \E es \in EntrySets : G = [ MkGrammar(S) EXCEPT !.entries = es ]
        /\ Proper(G)
     \/ /\ From = "file"
        /\ gid \in 1 .. Len(FromFile)
        /\ G = FromFile[gid]
  /\ GenInit
  /\ sem = <<>> /\ run = <<>> /\ ent = 0 /\ inp = <<>> /\ acts = <<>>

HasRR == "RR" \in Conflicts
HasConflict == Conflicts # {}

Generate == GenNext /\ UNCHANGED << gid, sem, run, ent, inp, acts >>

\* The grammar is refused: nothing more happens.
Refuse ==
  /\ phase = "ready" /\ HasRR
  /\ phase' = "refused"
  /\ UNCHANGED << G, F, C, aut, todo, gid, sem, run, ent, inp, acts >>

Semantics ==
  /\ phase = "ready" /\ ~HasRR
  /\ phase' = "run"
  /\ LET L == Lang(G, MaxLen)
     IN sem' = [ lang  |-> L,
                 pre   |-> ViablePrefixes(G, L, MaxLen + 1),
                 trees |-> IF HasConflict THEN <<>>
                           ELSE Trees(G, MaxLen, (MaxLen + 1) * (G.nN + 1)) ]
  /\ UNCHANGED << G, F, C, aut, todo, gid, run, ent, inp, acts >>

StartRun ==
  /\ phase = "run" /\ run = <<>>
  /\ \E i \in 1 .. NE(G) : ent' = i /\ run' = RunInit(i)
  /\ UNCHANGED << gen, gid, sem, inp, acts >>

Running == phase = "run" /\ run # <<>>

Pull ==
  /\ Running /\ CanPull(run)
  /\ \/ /\ Len(inp) < MaxLen
        /\ \E t \in Terms(G) : /\ run' = DoPull(run, TokItem(t, "t" \o ToString(t)))
                               /\ inp' = Append(inp, t)
     \/ run' = DoPull(run, EofItem) /\ UNCHANGED inp
     \/ run' = DoPull(run, ErrItem("9")) /\ UNCHANGED inp
  /\ UNCHANGED << gen, gid, sem, ent, acts >>

Quiet == UNCHANGED << gen, gid, sem, ent, inp, acts >>
LexError    == Running /\ CanLexError(run) /\ run' = DoLexError(run) /\ Quiet
SyntaxError == Running /\ CanSyntaxError(aut, run) /\ run' = DoSyntaxError(G, aut, run) /\ Quiet
Shift       == Running /\ CanShift(aut, run) /\ run' = DoShift(aut, run) /\ Quiet
Reduce      == /\ Running /\ CanReduce(aut, run)
               /\ run' = DoReduce(G, aut, run, TRUE)
               /\ acts' = Append(acts, ReduceProd(aut, run))
               /\ UNCHANGED << gen, gid, sem, ent, inp >>
Accept      == Running /\ CanAccept(aut, run) /\ run' = DoAccept(run) /\ Quiet

Next == Generate \/ Refuse \/ Semantics \/ StartRun \/ Pull
        \/ LexError \/ SyntaxError \/ Shift \/ Reduce \/ Accept

Spec == Init /\ [][Next]_vars

View == IF phase \in { "run", "refused" } THEN << G, phase, ent, run, inp, acts >>
        ELSE << G, phase, todo, IF phase = "first" THEN F ELSE <<>> >>

(***************************************************************************)
(* Properties.  K is the entry's non-terminal.                             *)
(***************************************************************************)
K == G.entries[ent]
Ended(k) == Running /\ run.st = "done" /\ run.ret.k = k
Before == Front(inp)                     \* tokens before the one read last

Shape == Running => RunShape(G, aut, run)

\* C02: only sentences are accepted (conflicts resolved or not).
Soundness == Ended("ok") => inp \in sem.lang[K]

\* C01: a syntax error means that the input is not a prefix of a sentence, so together with
\* termination (a run that is not done has exactly one enabled step, no endless reductions)
\* every sentence is accepted.
Completeness ==
  Ended("perr") /\ ~HasConflict =>
     IF run.la.k = "eof" THEN inp \notin sem.lang[K] ELSE inp \notin sem.pre[K]

\* C05: ... and the tokens before it were a prefix of a sentence.
ErrorIsFirst ==
  Running /\ ~HasConflict =>
     IF run.st = "run" /\ run.la.k = "tok" THEN Before \in sem.pre[K]
     ELSE IF run.st = "done" /\ run.la.k = "tok" THEN Before \in sem.pre[K]
     ELSE inp \in sem.pre[K]

\* C06: in every state in which a token is about to be read, the terminals with an action are
\* those that can follow.
ExpectedExact ==
  Running /\ run.st = "pull" /\ ~HasConflict =>
     ExpectedSet(G, aut, Top(run.stk)) = { t \in Terms(G) : Append(inp, t) \in sem.pre[K] }

\* C06, as reported with an error.
ExpectedReported ==
  Ended("perr") /\ ~HasConflict =>
     LET w == IF run.la.k = "eof" THEN inp ELSE Before
     IN run.ret.x = JoinNames(G.names, { t \in Terms(G) : Append(w, t) \in sem.pre[K] }, 1)

\* C03: the value is that of a parse tree, and the only one.
ValueIsTree ==
  Ended("ok") /\ ~HasConflict =>
     { z \in sem.trees[K] : z[1] = inp } = { << inp, run.ret.v >> }

\* C04: nothing is reduced once a token that cannot follow was read.
NoActionAfterBadToken ==
  [][ (Running /\ ~HasConflict /\ Len(acts') > Len(acts)) =>
        IF run.la.k = "eof" THEN inp \in sem.lang[K] ELSE inp \in sem.pre[K] ]_vars

\* C04: the productions reduced so far are a postorder: folding them over the token values gives
\* the value stack.  Kept by construction of DoReduce; checked through Shape and ValueIsTree.

\* C13: no endless reductions: between two requests at most this many actions.
BoundedReductions ==
  Running => Len(acts) <= (Len(inp) + 1) * (G.nN + 1) * (MaxRhs + 2)

\* C07: requests: one more than the tokens shifted, never after an end or an error.
Requests ==
  Running => run.np = Len(inp) + (IF run.la.k \in { "eof", "err" } THEN 1 ELSE 0)
ErrorPassedOn == Ended("lerr") <=> (Running /\ run.st = "done" /\ run.la.k = "err")

\* C09: with only shift/reduce conflicts the machine is still sound, and conflict-free grammars
\* are unambiguous (ValueIsTree).

\* Every run that is not done can make a step: the driver has no stuck state (C13).
NoStuck ==
  Running /\ run.st # "done" =>
     \/ CanPull(run) \/ CanLexError(run) \/ CanSyntaxError(aut, run)
     \/ CanShift(aut, run) \/ CanReduce(aut, run) \/ CanAccept(aut, run)
GotoDefined ==
  Running /\ CanReduce(aut, run) =>
     LET p == ReduceProd(aut, run)
         stk == Pop(run.stk, Len(G.prods[p].rhs))
     IN aut[Top(stk)].go[Sym(G, G.prods[p].lhs)] # 0
=============================================================================
