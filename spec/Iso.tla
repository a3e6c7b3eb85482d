--------------------------------- MODULE Iso ---------------------------------
(***************************************************************************)
(* Rearranging and renaming a grammar rearranges and renames its parser:   *)
(* for every grammar of the family and every exchange of two productions,  *)
(* two terminals or two non-terminals (which generate all rearrangements)  *)
(* the two automata run side by side, and in every pair of states they     *)
(* reach together they have corresponding actions and conflicts.           *)
(***************************************************************************)
EXTENDS Parsegen, Family

VARIABLES H,        \* the grammar rearranged
          sym,      \* symbols of G to symbols of H
          prod,     \* productions of G to productions of H
          other,    \* automaton of H
          pair      \* states reached together

vars == << gen, H, sym, prod, other, pair >>

Id(n) == [ i \in 1 .. n |-> i ]
Swap(n, a, b) == [ Id(n) EXCEPT ![a] = b, ![b] = a ]

Rearranged(g, s, p) ==       \* productions: the i-th one becomes the p[i]-th one
  [ g EXCEPT
      !.entries = [ i \in DOMAIN @ |-> s[g.nT + @[i]] - g.nT ],
      !.prods = [ i \in DOMAIN @ |->
         LET q == g.prods[CHOOSE j \in DOMAIN g.prods : p[j] = i] IN
         [ q EXCEPT !.lhs = s[g.nT + @] - g.nT, !.rhs = [ k \in DOMAIN @ |-> s[@[k]] ] ] ] ]

\* The automaton of a grammar, in one go.
Fresh(g, c, k) == [ ker |-> k, la |-> Close(g, c, k), go |-> <<>>, act |-> <<>>, conf |-> {} ]
RECURSIVE AddFresh(_, _, _, _)
AddFresh(g, c, seq, kers) ==
  IF kers = {} THEN seq
  ELSE LET k == CHOOSE x \in kers : TRUE
       IN AddFresh(g, c, TLCEval(IF Find(seq, k) # 0 THEN seq ELSE Append(seq, Fresh(g, c, k))), TLCEval(kers \ {k}))
RECURSIVE Expand(_, _, _, _)
Expand(g, c, seq, i) ==
  IF i > Len(seq) THEN seq
  ELSE LET items == TLCEval(Items(g, c, seq[i].ker, seq[i].la))
           comp  == TLCEval(Complete(c, items))
           syms  == TLCEval(NextSyms(c, items))
           kers  == TLCEval([ x \in syms |-> GotoKer(c, items, x) ])
           seq2  == TLCEval(AddFresh(g, c, seq, { kers[x] : x \in syms }))
           go    == TLCEval([ x \in 1 .. g.nT + g.nN |-> IF x \in syms THEN Find(seq2, kers[x]) ELSE 0 ])
           red   == TLCEval([ t \in 0 .. g.nT |-> Reductions(comp, t) ])
           act   == TLCEval([ t \in 0 .. g.nT |-> Resolve(g, IF t = 0 THEN 0 ELSE go[t], red[t]) ])
           conf  == { t \in 0 .. g.nT : Cardinality(red[t]) > 1 \/ (t # 0 /\ go[t] # 0 /\ red[t] # {}) }
       IN Expand(g, c, TLCEval([ seq2 EXCEPT ![i] = [ @ EXCEPT !.go = go, !.act = act, !.conf = conf ] ]), i + 1)
Automaton(g) == LET c == TLCEval(Ctx(g, First(g)))
                IN Expand(g, c, << Fresh(g, c, StartKer(g, 1)) >>, 1)

Init == /\ \E S \in ProdSets : G = MkGrammar(S)
        /\ Proper(G)
        /\ phase = "iso" /\ F = <<>> /\ C = <<>> /\ todo = 1
        /\ \/ prod = Id(Len(G.prods)) /\ \E a, b \in 1 .. G.nT : a < b /\ sym = Swap(G.nT + G.nN, a, b)
           \/ prod = Id(Len(G.prods)) /\ \E a, b \in G.nT + 1 .. G.nT + G.nN : a < b /\ sym = Swap(G.nT + G.nN, a, b)
           \/ sym = Id(G.nT + G.nN) /\ \E a, b \in 1 .. Len(G.prods) : a < b /\ prod = Swap(Len(G.prods), a, b)
        /\ H = Rearranged(G, sym, prod)
        /\ aut = Automaton(G)
        /\ other = Automaton(H)
        /\ pair = << 1, 1 >>

Next == /\ \E x \in 1 .. G.nT + G.nN :
              /\ aut[pair[1]].go[x] # 0
              /\ pair' = << aut[pair[1]].go[x], other[pair[2]].go[sym[x]] >>
        /\ UNCHANGED << gen, H, sym, prod, other >>

Spec == Init /\ [][Next]_vars
View == << G.prods, sym, prod, pair >>

Term(t) == IF t = 0 THEN 0 ELSE sym[t]
A == aut[pair[1]]
B == other[pair[2]]
Corresponds ==
  /\ \A x \in 1 .. G.nT + G.nN : (A.go[x] = 0) <=> (B.go[sym[x]] = 0)
  /\ { Term(t) : t \in A.conf } = B.conf
  /\ \A t \in 0 .. G.nT : t \notin A.conf =>
       LET a == A.act[t]  b == B.act[Term(t)] IN
       /\ a[1] = b[1]
       /\ a[1] = "r" => b[2] = prod[a[2]]
       /\ a[1] = "s" => TRUE
=============================================================================
