-------------------------------- MODULE LR1 --------------------------------
(***************************************************************************)
(* The canonical LR(1) construction, as constant operators.                *)
(*                                                                         *)
(* Production Len(G.prods) + i is the start production of entry point i:   *)
(* its right-hand side is the entry's non-terminal.                        *)
(*                                                                         *)
(* An LR(1) state is kept in a compressed form:                            *)
(*   ker  set of << p, d, LA >>: production p with the dot after d symbols *)
(*        and the set LA of its look-ahead terminals (Eof included)        *)
(*   la   function from non-terminals to look-ahead sets: the closure      *)
(*        contains << p, 0, la[k] >> for the productions p of every k in   *)
(*        its domain                                                       *)
(* i.e. all items with the same dotted production are one entry.           *)
(***************************************************************************)
EXTENDS CFG

NP(G) == Len(G.prods)
NE(G) == Len(G.entries)

\* Right-hand sides, start productions included.
AllRhs(G) == [ p \in 1 .. NP(G) + NE(G) |->
                 IF p <= NP(G) THEN G.prods[p].rhs
                 ELSE << Sym(G, G.entries[p - NP(G)]) >> ]

(***************************************************************************)
(* FIRST.  F is [null |-> [NT -> BOOLEAN], first |-> [NT -> SUBSET T]].    *)
(***************************************************************************)
F0(G) == [ null |-> [ k \in NTs(G) |-> FALSE ], first |-> [ k \in NTs(G) |-> {} ] ]

RECURSIVE RestFrom(_, _, _)
RestFrom(G, F, s) ==                    \* FIRST and nullability of a string
  IF s = <<>> THEN [ f |-> {}, n |-> TRUE ]
  ELSE LET x == Head(s) IN
       IF IsT(G, x) THEN [ f |-> {x}, n |-> FALSE ]
       ELSE IF ~F.null[NT(G, x)] THEN [ f |-> F.first[NT(G, x)], n |-> FALSE ]
       ELSE LET r == RestFrom(G, F, Tail(s))
            IN [ f |-> F.first[NT(G, x)] \cup r.f, n |-> r.n ]

\* What production p contributes to its non-terminal, given F.
Relax(G, F, p) ==
  LET k == G.prods[p].lhs
      r == RestFrom(G, F, G.prods[p].rhs)
  IN [ null  |-> [ F.null  EXCEPT ![k] = @ \/ r.n ],
       first |-> [ F.first EXCEPT ![k] = @ \cup r.f ] ]

RECURSIVE Sweep(_, _, _)
Sweep(G, F, p) == IF p > NP(G) THEN F ELSE Sweep(G, TLCEval(Relax(G, F, p)), p + 1)

RECURSIVE FixFirst(_, _)
FixFirst(G, F) == LET F2 == Sweep(G, F, 1) IN IF F2 = F THEN F ELSE FixFirst(G, F2)
First(G) == FixFirst(G, F0(G))

(***************************************************************************)
(* Context: everything the construction looks up repeatedly.               *)
(***************************************************************************)
Ctx(G, F) ==
  LET rhs == TLCEval(AllRhs(G)) IN
  [ rhs     |-> rhs,
    prodsOf |-> TLCEval([ k \in NTs(G) |-> ProdsOf(G, k) ]),
    ntFirst |-> TLCEval([ k \in NTs(G) |->        \* productions that start with a non-terminal
                  { p \in ProdsOf(G, k) : rhs[p] # <<>> /\ ~IsT(G, rhs[p][1]) } ]),
    rest    |-> TLCEval([ p \in 1 .. NP(G) + NE(G) |->
                   [ i \in 1 .. Len(rhs[p]) |->         \* what follows symbol i
                       RestFrom(G, F, SubSeq(rhs[p], i + 1, Len(rhs[p]))) ] ]) ]

(***************************************************************************)
(* Closure, as a least fixpoint over look-ahead sets of non-terminals.     *)
(* The domain of la is the set of non-terminals that have items.           *)
(***************************************************************************)
Contribution(C, p, d, LA) ==             \* to the non-terminal after the dot
  C.rest[p][d + 1].f \cup (IF C.rest[p][d + 1].n THEN LA ELSE {})

BeforeNT(G, C, p, d) == d < Len(C.rhs[p]) /\ ~IsT(G, C.rhs[p][d + 1])

\* The pairs << non-terminal, look-ahead set >> a set of items contributes.
Contributions(G, C, items) ==
  { c \in { << NT(G, C.rhs[it[1]][it[2] + 1]), Contribution(C, it[1], it[2], it[3]) >> :
            it \in { x \in items : BeforeNT(G, C, x[1], x[2]) } } : c[2] # {} }

\* Contributions of the closure items of non-terminal j with look-aheads LA.
FromNT(G, C, j, LA) ==
  { c \in { << NT(G, C.rhs[p][1]), Contribution(C, p, 0, LA) >> : p \in C.ntFirst[j] } : c[2] # {} }

Merge(la, cs) ==
  LET new == { c[1] : c \in cs } IN
  [ k \in DOMAIN la \cup new |->
      (IF k \in DOMAIN la THEN la[k] ELSE {})
      \cup (IF k \in new THEN UNION { c[2] : c \in { x \in cs : x[1] = k } } ELSE {}) ]

\* delta: the non-terminals whose look-ahead set grew in the last round.
RECURSIVE CloseFix(_, _, _, _)
CloseFix(G, C, la, delta) ==
  IF delta = {} THEN la
  ELSE LET la2 == TLCEval(Merge(la, UNION { FromNT(G, C, j, la[j]) : j \in delta }))
           grown == TLCEval({ k \in DOMAIN la2 : k \notin DOMAIN la \/ la2[k] # la[k] })
       IN CloseFix(G, C, la2, grown)

Close(G, C, ker) ==
  LET la == TLCEval(Merge(<<>>, Contributions(G, C, ker)))
  IN CloseFix(G, C, la, DOMAIN la)

\* All (compressed) items of a state.
Items(G, C, ker, la) ==
  ker \cup UNION { { << p, 0, la[k] >> : p \in C.prodsOf[k] } : k \in DOMAIN la }

StartKer(G, i) == { << NP(G) + i, 0, { Eof } >> }

GotoKer(C, items, x) ==
  { << it[1], it[2] + 1, it[3] >> :
      it \in { j \in items : j[2] < Len(C.rhs[j[1]]) /\ C.rhs[j[1]][j[2] + 1] = x } }

NextSyms(C, items) ==
  { C.rhs[it[1]][it[2] + 1] : it \in { j \in items : j[2] < Len(C.rhs[j[1]]) } }

Complete(C, items) == { it \in items : it[2] = Len(C.rhs[it[1]]) }

\* Productions a state with the complete items comp may reduce with on look-ahead t (a start
\* production stands for accepting).
Reductions(comp, t) == { it[1] : it \in { j \in comp : t \in j[3] } }

(***************************************************************************)
(* Parse actions.  << "s", n >> shift and go to n; << "r", p >> reduce;    *)
(* << "a", 0 >> accept; << "e", 0 >> error.  A shift/reduce conflict is    *)
(* resolved in favour of the shift; a reduce/reduce (or reduce/accept)     *)
(* conflict has no resolution: the generator must refuse the grammar.      *)
(***************************************************************************)
Resolve(G, shift, red) ==
  IF shift # 0 THEN << "s", shift >>
  ELSE IF red = {} THEN << "e", 0 >>
  ELSE LET p == CHOOSE q \in red : \A r \in red : q <= r
       IN IF p > NP(G) THEN << "a", 0 >> ELSE << "r", p >>
=============================================================================
