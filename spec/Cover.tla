------------------------------- MODULE Cover -------------------------------
(***************************************************************************)
(* Generates test inputs from the specification.                           *)
(*                                                                         *)
(* Once the automaton of a grammar is built, this machine walks the graph  *)
(* of its LR(1) items: a node is an item [p, d, la] of a state.  Going     *)
(* from an item with the dot before symbol X to the item behind X appends  *)
(* a shortest string of X to `pre`; going into the closure prepends what   *)
(* has to follow the non-terminal, starting with the chosen look-ahead, to *)
(* `suf`.  So                                                              *)
(*     pre \o (shortest string of the rest of p) \o suf                    *)
(* is a sentence whose parse passes through that item of that state with   *)
(* that look-ahead.  VIEW is the node, so every node is visited once.      *)
(*                                                                         *)
(* Every node that determines a cell of the parse table is printed:        *)
(*   dot before a terminal x     the shift on x                            *)
(*   dot before a non-terminal   the goto                                  *)
(*   dot at the end              the reduction (or accept) on la           *)
(* and with each new state the set of symbols that have an action in it.   *)
(***************************************************************************)
EXTENDS Parsegen, Json

VARIABLES gid, node, pre, suf, ent, tabs

vars == << gen, gid, node, pre, suf, ent, tabs >>

Grammars == ndJsonDeserialize("grammars.ndjson")

NoStr == << Eof >>                        \* "no string"
Shorter(a, b) == IF a = NoStr THEN b ELSE IF b = NoStr THEN a
                 ELSE IF Len(b) < Len(a) THEN b ELSE a
Cat(a, b) == IF a = NoStr \/ b = NoStr THEN NoStr ELSE a \o b

RECURSIVE StrOf(_, _, _)
StrOf(g, Y, rhs) == IF rhs = <<>> THEN <<>>
  ELSE LET x == Head(rhs) IN
       Cat(IF IsT(g, x) THEN << x >> ELSE Y[NT(g, x)], StrOf(g, Y, Tail(rhs)))

RECURSIVE ShortestOf(_, _, _)
ShortestOf(g, S, b) == IF S = {} THEN b
  ELSE LET x == CHOOSE y \in S : TRUE IN ShortestOf(g, S \ {x}, Shorter(b, x))

RECURSIVE YFix(_, _)
YFix(g, Y) ==
  LET Y2 == TLCEval([ k \in NTs(g) |->
        ShortestOf(g, { StrOf(g, Y, g.prods[p].rhs) : p \in ProdsOf(g, k) }, Y[k]) ])
  IN IF Y2 = Y THEN Y ELSE YFix(g, Y2)

\* Shortest string of rhs that starts with t.
RECURSIVE StartsWith(_, _, _, _, _, _)
StartsWith(g, f, Y, B, rhs, t) == IF rhs = <<>> THEN NoStr
  ELSE LET x == Head(rhs)  rest == Tail(rhs) IN
       IF IsT(g, x) THEN (IF x = t THEN Cat(<< x >>, StrOf(g, Y, rest)) ELSE NoStr)
       ELSE Shorter(Cat(B[NT(g, x)][t], StrOf(g, Y, rest)),
                    IF f.null[NT(g, x)] THEN StartsWith(g, f, Y, B, rest, t) ELSE NoStr)

RECURSIVE BFix(_, _, _, _)
BFix(g, f, Y, B) ==
  LET B2 == TLCEval([ k \in NTs(g) |-> [ t \in Terms(g) |->
        IF t \notin f.first[k] THEN NoStr
        ELSE ShortestOf(g, { StartsWith(g, f, Y, B, g.prods[p].rhs, t) : p \in ProdsOf(g, k) },
                        B[k][t]) ] ])
  IN IF B2 = B THEN B ELSE BFix(g, f, Y, B2)

Init == /\ gid \in 1 .. Len(Grammars)
        /\ G = Grammars[gid]
        /\ GenInit
        /\ node = <<>> /\ pre = <<>> /\ suf = <<>> /\ ent = 0 /\ tabs = <<>>

Generate == GenNext /\ UNCHANGED << gid, node, pre, suf, ent, tabs >>

HasItems(i) == Items(G, C, aut[i].ker, aut[i].la)

Classified ==
  /\ phase = "ready"
  /\ phase' = "cover"
  /\ PrintT("@@" \o ToJson([ g |-> G.id, kind |-> "class",
        conf |-> Conflicts, productive |-> AllProductive(G), states |-> Len(aut),
        exp |-> [ i \in 1 .. Len(aut) |-> { t \in 0 .. G.nT : aut[i].act[t][1] # "e" } ] ]))
  /\ IF G.cover = 0 THEN UNCHANGED tabs
     ELSE \E Y \in { YFix(G, [ k \in NTs(G) |-> NoStr ]) } :
             tabs' = [ Y |-> Y,
                       B |-> BFix(G, F, Y, [ k \in NTs(G) |-> [ t \in Terms(G) |-> NoStr ] ]) ]
  /\ UNCHANGED << G, F, C, aut, todo, gid, node, pre, suf, ent >>

StartCover ==
  /\ phase = "cover" /\ node = <<>> /\ G.cover = 1
  /\ \E i \in 1 .. NE(G) : /\ node' = << i, NP(G) + i, 0, Eof >>
                           /\ ent' = i
  /\ UNCHANGED << gen, gid, pre, suf, tabs >>

AtNode == phase = "cover" /\ node # <<>>
NState == node[1]
NProd  == node[2]
NDot   == node[3]
NLa    == node[4]
NRhs   == C.rhs[NProd]
NRest  == SubSeq(NRhs, NDot + 1, Len(NRhs))
NSym   == NRhs[NDot + 1]

Advance ==
  /\ AtNode /\ NDot < Len(NRhs)
  /\ LET w == StrOf(G, tabs.Y, << NSym >>)
     IN /\ w # NoStr
        /\ pre' = pre \o w
        /\ node' = << aut[NState].go[NSym], NProd, NDot + 1, NLa >>
  /\ UNCHANGED << gen, gid, suf, ent, tabs >>

Descend ==
  /\ AtNode /\ NDot < Len(NRhs) /\ ~IsT(G, NSym)
  /\ LET r == C.rest[NProd][NDot + 1]
         after == Tail(NRest)
     IN \E q \in C.prodsOf[NT(G, NSym)] :
        \E b \in r.f \cup (IF r.n THEN { NLa } ELSE {}) :
          LET w == IF r.n /\ b = NLa THEN <<>>
                   ELSE StartsWith(G, F, tabs.Y, tabs.B, after, b)
          IN /\ w # NoStr
             /\ node' = << NState, q, 0, b >>
             /\ suf' = w \o suf
  /\ UNCHANGED << gen, gid, pre, ent, tabs >>

Next == Generate \/ Classified \/ StartCover \/ Advance \/ Descend

Spec == Init /\ [][Next]_vars

View == IF node # <<>> THEN << gid, node >> ELSE << gid, phase, todo, IF phase = "first" THEN F ELSE <<>> >>

Cell == IF NDot = Len(NRhs) THEN NLa ELSE NSym

\* "Invariant" evaluated in every state: prints the test.
Emit == AtNode =>
  LET w == StrOf(G, tabs.Y, NRest)
  IN w = NoStr \/
     PrintT("@@" \o ToJson([ g |-> G.id, kind |-> "cell", e |-> ent, s |-> NState, c |-> Cell,
                             pre |-> pre, suf |-> w \o suf ]))
=============================================================================
