-------------------------------- MODULE Owner --------------------------------
(***************************************************************************)
(* Who has what: the parser of Parser.tla, and the owner of every token    *)
(* part, action result and lexer error at every step.                      *)
(*                                                                         *)
(* Things have numbers:                                                    *)
(*   0        the token iterator                                           *)
(*   4k + j   part j of the token that request k yields; G.parts[t] says   *)
(*            for each part of a token of terminal t whether its pattern   *)
(*            binds it                                                     *)
(*   4k       the lexer error that request k yields                        *)
(*   -n       the result of the n-th action                                *)
(* Each is made once, and from then on it is in one of these places: the   *)
(* look-ahead, the stack, `used` (handed to an action), `dropped`, `back`  *)
(* (returned).  When a parse is over, whatever the reason, only the last   *)
(* three are left.                                                         *)
(***************************************************************************)
EXTENDS Parsegen, Parser

Elems(s) == { s[i] : i \in DOMAIN s }
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Joined(Tail(ss))

Parts(t, k) == [ j \in DOMAIN G.parts[t] |-> 4 * k + j ]
RECURSIVE Pick(_, _, _, _)
Pick(s, bind, v, i) == IF i > Len(s) THEN <<>>
                       ELSE (IF bind[i] = v THEN << s[i] >> ELSE <<>>) \o Pick(s, bind, v, i + 1)
Bound(t, k)   == Pick(Parts(t, k), G.parts[t], 1, 1)
Unbound(t, k) == Pick(Parts(t, k), G.parts[t], 0, 1)

\* A run: `r` as in Parser.tla, except that a value is a sequence of things.
OwnInit(e) == [ r |-> RunInit(e), made |-> { 0 }, used |-> <<>>, dropped |-> {}, back |-> <<>> ]

\* The end: what is not given to the caller is dropped.
End(o, r, back) ==
  [ o EXCEPT !.r = r, !.back = back,
             !.dropped = @ \cup { 0 } \cup ((UNION { Elems(v) : v \in Elems(o.r.vals) }) \ Elems(back))
                           \cup (IF o.r.la.k = "tok" THEN Elems(Parts(o.r.la.t, o.r.np)) ELSE {}) ]

OwnPull(o, x) ==
  LET k == o.r.np + 1 IN
  [ o EXCEPT !.r = DoPull(o.r, IF x = 0 THEN EofItem ELSE IF x < 0 THEN ErrItem("") ELSE TokItem(x, "")),
             !.made = @ \cup (IF x = 0 THEN {} ELSE IF x < 0 THEN { 4 * k } ELSE Elems(Parts(x, k))) ]

OwnShift(o) ==
  LET t == o.r.la.t  k == o.r.np  r == DoShift(aut, o.r) IN
  [ o EXCEPT !.r = [ r EXCEPT !.vals[Len(r.vals)] = Bound(t, k) ],
             !.dropped = @ \cup Elems(Unbound(t, k)) ]

OwnArgs(o) ==
  LET p == ReduceProd(aut, o.r)  n == Len(G.prods[p].rhs)  d == Len(o.r.vals) - n IN
  [ i \in 1 .. n |-> o.r.vals[d + i] ]

OwnReduce(o) ==
  LET p == ReduceProd(aut, o.r)  r == DoReduce(G, aut, o.r, FALSE)  as == OwnArgs(o) IN
  [ o EXCEPT !.r = [ r EXCEPT !.vals[Len(r.vals)] = << 0 - r.na >> ],
             !.made = @ \cup { 0 - r.na },
             !.used = Append(@, Joined(Pick(as, G.prods[p].bind, 1, 1))),
             !.dropped = @ \cup Elems(Joined(Pick(as, G.prods[p].bind, 0, 1))) ]

OwnAccept(o)      == End(o, DoAccept(o.r), Top(o.r.vals))
OwnSyntaxError(o) == End(o, DoSyntaxError(G, aut, o.r), <<>>)
OwnLexError(o)    == End(o, DoLexError(o.r), << 4 * o.r.np >>)

\* The token iterator or an action panics: nobody gets anything.  An action that panics has its
\* arguments.
Dead(r) == [ r EXCEPT !.st = "done", !.ret = [ NoRet EXCEPT !.k = "fuel" ] ]
OwnPanic(o) ==
  IF o.r.st = "pull" THEN End(o, Dead(o.r), <<>>)
  ELSE LET p == ReduceProd(aut, o.r)  as == OwnArgs(o)
           given == Joined(Pick(as, G.prods[p].bind, 1, 1))
           e == End(o, Dead(o.r), <<>>)
       IN [ e EXCEPT !.used = Append(@, given), !.dropped = @ \ Elems(given) ]

(***************************************************************************)
(* One step; x is what the token iterator would offer, `last` the number   *)
(* of events before the panic (-1: none).                                  *)
(***************************************************************************)
Events(o) == o.r.np + o.r.na
OwnStep(o, x, last) ==
  CASE (CanPull(o.r) \/ CanReduce(aut, o.r)) /\ Events(o) = last -> OwnPanic(o)
    [] CanPull(o.r)             -> OwnPull(o, x)
    [] CanLexError(o.r)         -> OwnLexError(o)
    [] CanSyntaxError(aut, o.r) -> OwnSyntaxError(o)
    [] CanShift(aut, o.r)       -> OwnShift(o)
    [] CanReduce(aut, o.r)      -> OwnReduce(o)
    [] CanAccept(aut, o.r)      -> OwnAccept(o)

(***************************************************************************)
(* Nothing is lost and nothing is in two places.                           *)
(***************************************************************************)
OnStack(o) == Joined(o.r.vals)
Ahead(o)   == IF o.r.st # "run" THEN {} ELSE IF o.r.la.k = "tok" THEN Elems(Parts(o.r.la.t, o.r.np))
              ELSE IF o.r.la.k = "err" THEN { 4 * o.r.np } ELSE {}
Iterator(o) == IF o.r.st = "done" THEN {} ELSE { 0 }
Held(o) == IF o.r.st = "done" THEN {} ELSE Elems(OnStack(o))

Once(s) == Cardinality(Elems(s)) = Len(s)
Conserved(o) ==
  LET us == Joined(o.used)
      places == << Held(o), Ahead(o), Iterator(o), Elems(us), o.dropped, Elems(o.back) >>
  IN /\ Once(us) /\ Once(OnStack(o)) /\ Once(o.back)
     /\ o.made = UNION Elems(places)
     /\ \A i, j \in DOMAIN places : i < j => places[i] \cap places[j] = {}
=============================================================================
