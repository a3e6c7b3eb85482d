------------------------------ MODULE Parsegen ------------------------------
(***************************************************************************)
(* parsegen: from a grammar to a parser, and the parser at work.           *)
(***************************************************************************)
EXTENDS LR1

VARIABLES G,        \* the grammar
          phase,    \* "first", "automaton", "ready"
          F,        \* FIRST table under construction
          C,        \* context (derived from G and F)
          aut,      \* LR(1) states found so far
          todo      \* first state that has not been expanded

gen == << G, phase, F, C, aut, todo >>

GenInit == /\ phase = "first"
           /\ F = F0(G)
           /\ C = <<>>
           /\ aut = <<>>
           /\ todo = 1

NewState(ker) == [ ker |-> ker, la |-> Close(G, C, ker), go |-> <<>>, act |-> <<>>, conf |-> {} ]

\* One pass over all productions (generate_first_table's loop body).
FirstSweep ==
  /\ phase = "first"
  /\ LET F2 == Sweep(G, F, 1) IN
       IF F2 # F THEN /\ F' = F2
                      /\ UNCHANGED << G, phase, C, aut, todo >>
       ELSE /\ phase' = "start"
            /\ C' = Ctx(G, F)
            /\ UNCHANGED << G, F, aut, todo >>

StartStates ==
  /\ phase = "start"
  /\ phase' = "automaton"
  /\ aut' = [ i \in 1 .. NE(G) |-> NewState(StartKer(G, i)) ]
  /\ UNCHANGED << G, F, C, todo >>

Find(seq, ker) == IF \E i \in 1 .. Len(seq) : seq[i].ker = ker
                  THEN CHOOSE i \in 1 .. Len(seq) : seq[i].ker = ker ELSE 0

RECURSIVE AddAll(_, _)
AddAll(seq, kers) ==          \* append the states that are not there yet
  IF kers = {} THEN seq
  ELSE LET k == CHOOSE x \in kers : TRUE
       IN AddAll(TLCEval(IF Find(seq, k) # 0 THEN seq ELSE Append(seq, NewState(k))), TLCEval(kers \ {k}))

\* `\E x \in { e }` where one would write LET: TLC then evaluates e once.
ExpandState ==
  /\ phase = "automaton"
  /\ todo <= Len(aut)
  /\ \E items \in { Items(G, C, aut[todo].ker, aut[todo].la) } :
     \E comp  \in { Complete(C, items) } :
     \E syms  \in { NextSyms(C, items) } :
     \E kers  \in { TLCEval([ x \in syms |-> GotoKer(C, items, x) ]) } :
     \E aut2  \in { TLCEval(AddAll(aut, { kers[x] : x \in syms })) } :
     \E go    \in { TLCEval([ x \in 1 .. G.nT + G.nN |-> IF x \in syms THEN Find(aut2, kers[x]) ELSE 0 ]) } :
     \E red   \in { TLCEval([ t \in 0 .. G.nT |-> Reductions(comp, t) ]) } :
     LET act  == TLCEval([ t \in 0 .. G.nT |-> Resolve(G, IF t = 0 THEN 0 ELSE go[t], red[t]) ])
         conf == { t \in 0 .. G.nT : Cardinality(red[t]) > 1 \/ (t # 0 /\ go[t] # 0 /\ red[t] # {}) }
         cc   == { IF Cardinality(red[t]) > 1 THEN "RR" ELSE "SR" : t \in conf }
     IN aut' = [ aut2 EXCEPT ![todo] = [ @ EXCEPT !.go = go, !.act = act, !.conf = cc ] ]
  /\ todo' = todo + 1
  /\ UNCHANGED << G, phase, F, C >>

Finish ==
  /\ phase = "automaton"
  /\ todo > Len(aut)
  /\ phase' = "ready"
  /\ UNCHANGED << G, F, C, aut, todo >>

Conflicts == UNION { aut[i].conf : i \in 1 .. Len(aut) }

GenNext == FirstSweep \/ StartStates \/ ExpandState \/ Finish
=============================================================================
