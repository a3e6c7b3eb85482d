------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* What tokens are: from the values the token iterator yields to terminals *)
(* and their payloads.                                                     *)
(*                                                                         *)
(* A value is a tree [c, fs, ns]: constructor (or literal), fields, and    *)
(* names of the fields if it has named ones.                               *)
(* A pattern is a tree [k, c, ps, ns]                                      *)
(*   k = "any"     `_`                                                     *)
(*   k = "mark"    `<Type>`: matches anything and binds it                 *)
(*   k = "rest"    `..` among the parts of a "con"                         *)
(*   k = "con"     path, literal or constructor c with the parts ps        *)
(*   k = "fields"  constructor c, part ps[i] for the field ns[i]           *)
(*                                                                         *)
(* work.ndjson: one record per token type,                                 *)
(*   id, names (of the terminals), pats (their patterns), vals (values),   *)
(*   named   the terminals that are named where they are used              *)
(*   members the terminals of the list entry                               *)
(*   one     the terminal of the single-token entry                        *)
(*   tr      recorded runs [e, in, acts, ret]; in: indices of vals         *)
(* Entry 1 is   List: = (empty) => act(n + 1) | List t => act(t) ...       *)
(* Entry 2 is   One: = one => act(one).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES w, tid, pos, acts, val, ret, nbad

vars == << w, tid, pos, acts, val, ret, nbad >>

Work == ndJsonDeserialize("work.ndjson")
W    == Work[w]
Tr   == W.tr[tid]

(***************************************************************************)
(* Matching and binding.                                                   *)
(***************************************************************************)
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
RestAt(ps) == { i \in DOMAIN ps : ps[i].k = "rest" }

\* The pairs << part, field >> of a positional pattern, or no pairs if the numbers do not fit.
Fits(ps, fs) == IF RestAt(ps) = {} THEN Len(ps) = Len(fs) ELSE Len(ps) - 1 <= Len(fs)
Pairs(ps, fs) ==
  IF RestAt(ps) = {} THEN [ i \in DOMAIN ps |-> << ps[i], fs[i] >> ]
  ELSE LET r == CHOOSE i \in RestAt(ps) : TRUE
           back == Len(fs) - Len(ps)          \* distance of parts after the rest
       IN [ i \in 1 .. Len(ps) - 1 |->
              IF i < r THEN << ps[i], fs[i] >> ELSE << ps[i + 1], fs[i + 1 + back] >> ]

RECURSIVE Matches(_, _)
Matches(p, v) ==
  CASE p.k \in { "any", "mark" } -> TRUE
    [] p.k = "con" -> /\ p.c = v.c
                      /\ Fits(p.ps, v.fs)
                      /\ \A i \in DOMAIN Pairs(p.ps, v.fs) : Matches(Pairs(p.ps, v.fs)[i][1], Pairs(p.ps, v.fs)[i][2])
    [] p.k = "fields" -> /\ p.c = v.c
                         /\ \A i \in DOMAIN p.ps : Matches(p.ps[i], v.fs[IndexOf(v.ns, p.ns[i])])

\* The parts of v bound by p, in the order in which they are marked in the text of p.
RECURSIVE Bound(_, _), BoundAll(_)
Bound(p, v) ==
  CASE p.k = "mark" -> << v >>
    [] p.k = "con" -> BoundAll(Pairs(p.ps, v.fs))
    [] p.k = "fields" -> BoundAll([ i \in DOMAIN p.ps |-> << p.ps[i], v.fs[IndexOf(v.ns, p.ns[i])] >> ])
    [] OTHER -> <<>>
BoundAll(pairs) == IF pairs = <<>> THEN <<>> ELSE Bound(pairs[1][1], pairs[1][2]) \o BoundAll(Tail(pairs))

\* The terminal: the first one that matches.
Terminal(v) == CHOOSE t \in DOMAIN W.pats :
                 /\ Matches(W.pats[t], v)
                 /\ \A u \in 1 .. t - 1 : ~Matches(W.pats[u], v)

RECURSIVE Show(_), ShowAll(_)
Show(v) == IF v.fs = <<>> THEN v.c ELSE v.c \o "(" \o ShowAll(v.fs) \o ")"
ShowAll(vs) == IF Len(vs) = 1 THEN Show(vs[1]) ELSE Show(vs[1]) \o "," \o ShowAll(Tail(vs))

Payload(t, v) == LET b == Bound(W.pats[t], v)
                 IN IF b = <<>> THEN "u" ELSE IF Len(b) = 1 THEN Show(b[1]) ELSE "(" \o ShowAll(b) \o ")"

(***************************************************************************)
(* The parsers of the two entries.                                         *)
(***************************************************************************)
None == [ k |-> "", v |-> "", f |-> "" ]
Empty == Len(W.names) + 1
Node(t, args) == "n" \o ToString(t) \o "[" \o args \o "]"
Arg(t, v) == IF t \in { W.named[i] : i \in DOMAIN W.named } THEN Payload(t, v) \o "," ELSE ""
Member(t) == IF Tr.e = 1 THEN t \in { W.members[i] : i \in DOMAIN W.members } ELSE t = W.one /\ pos = 0

Init == /\ w \in 1 .. Len(Work) /\ tid = 1 /\ nbad = 0
        /\ pos = 0 /\ acts = <<>> /\ val = "" /\ ret = None

Begin == /\ tid <= Len(W.tr) /\ pos = 0 /\ ret = None /\ val = "" /\ Tr.e = 1
         /\ acts' = << Empty >> /\ val' = Node(Empty, "")
         /\ UNCHANGED << w, tid, pos, ret, nbad >>

Reading == tid <= Len(W.tr) /\ ret = None /\ (Tr.e = 2 \/ val # "")

Token == /\ Reading /\ pos < Len(Tr.in)
         /\ \E v \in { W.vals[Tr.in[pos + 1]] } : \E t \in { Terminal(v) } :
              IF Member(t)
              THEN /\ pos' = pos + 1
                   /\ acts' = Append(acts, t)
                   /\ val' = Node(t, (IF Tr.e = 1 THEN val \o "," ELSE "") \o Arg(t, v))
                   /\ ret' = ret
              ELSE /\ ret' = [ k |-> "perr", v |-> "", f |-> W.names[t] ]
                   /\ UNCHANGED << pos, acts, val >>
         /\ UNCHANGED << w, tid, nbad >>

End == /\ Reading /\ pos = Len(Tr.in)
       /\ ret' = IF Tr.e = 2 /\ pos = 0 THEN [ k |-> "perr", v |-> "", f |-> "end-of-input" ]
                 ELSE [ k |-> "ok", v |-> val, f |-> "" ]
       /\ UNCHANGED << w, tid, pos, acts, val, nbad >>

Difference ==
  IF Tr.ret.k # ret.k THEN Tr.ret.k \o " instead of " \o ret.k
  ELSE IF Tr.ret.f # ret.f THEN "token taken for " \o Tr.ret.f \o " instead of " \o ret.f
  \* (in case of an error the last action may not run; that is not judged here)
  ELSE IF Len(Tr.acts) > Len(acts) \/ Tr.acts # SubSeq(acts, 1, Len(Tr.acts)) \/ (ret.k = "ok" /\ Tr.acts # acts) THEN "tokens taken for other terminals"
  ELSE IF Tr.ret.v # ret.v THEN "bound: " \o Tr.ret.v \o " instead of " \o ret.v
  ELSE ""

Compare == /\ tid <= Len(W.tr) /\ ret # None
           /\ \E why \in { Difference } :
                /\ nbad' = IF why = "" THEN nbad ELSE nbad + 1
                /\ IF why = "" THEN TRUE
                   ELSE PrintT("@@" \o ToJson([ id |-> W.id, tid |-> tid, why |-> why, spec |-> ret, acts |-> acts ]))
           /\ tid' = tid + 1 /\ pos' = 0 /\ acts' = <<>> /\ val' = "" /\ ret' = None
           /\ UNCHANGED w

Finished == /\ tid = Len(W.tr) + 1
            /\ PrintT("@@" \o ToJson([ done |-> w, n |-> Len(W.tr) ]))
            /\ tid' = tid + 1
            /\ UNCHANGED << w, pos, acts, val, ret, nbad >>

Next == Begin \/ Token \/ End \/ Compare \/ Finished
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Every value of the work has a terminal, and only one is first.          *)
(***************************************************************************)
Covered == pos = 0 /\ tid = 1 =>
  \A i \in DOMAIN W.vals : Cardinality({ t \in DOMAIN W.pats :
     Matches(W.pats[t], W.vals[i]) /\ \A u \in 1 .. t - 1 : ~Matches(W.pats[u], W.vals[i]) }) = 1
=============================================================================
