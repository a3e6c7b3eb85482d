-------------------------------- MODULE Perm --------------------------------
(***************************************************************************)
(* Ways to write the same grammar down.                                    *)
(*                                                                         *)
(* A text is an order of the non-terminals, of the productions of each, of *)
(* the terminals, a place for the token enum, and names.                   *)
(* Mode = "generate": starting from the grammars in bases.ndjson, the      *)
(* edits below are made at random (simulation), and the text is printed.   *)
(* Mode = "judge": work.ndjson has, for pairs of texts, what their parsers *)
(* did on the same input; these must be the same up to names.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, Steps

VARIABLES b, n,
          nts,        \* sequence of [id, prods]
          terms,      \* sequence of terminals
          pos,        \* number of non-terminals before the token enum
          tn, nn      \* names

vars == << b, n, nts, terms, pos, tn, nn >>

Bases == ndJsonDeserialize("bases.ndjson")
Work  == ndJsonDeserialize("work.ndjson")

Range(s) == { s[i] : i \in DOMAIN s }
Reverse(s) == [ i \in DOMAIN s |-> s[Len(s) + 1 - i] ]
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i) \o << x >> \o SubSeq(s, i + 1, Len(s))
Moved(s, i, j) == InsertAt(RemoveAt(s, i), j, s[i])

NTNames == << "S", "S1", "S11", "S12", "A", "A1", "A11", "A10", "B", "B1", "Expr", "Expr1", "expr", "Z", "Z1", "nt_", "_0", "_01", "N", "N1", "N11", "N2" >>
TNames  == << "S", "S1", "x", ",", " ", "1", "11", "end-of-input", "$", "+", "if", "~~", "\"", "{", "t", "T", "Token0" >>

Init == /\ n = 0
        /\ \/ /\ Mode = "generate"
              /\ b \in DOMAIN Bases
              /\ \E r1, r2 \in BOOLEAN :
                   /\ nts = IF r1 THEN Reverse(Bases[b].nts) ELSE Bases[b].nts
                   /\ terms = IF r2 THEN Reverse(Bases[b].terms) ELSE Bases[b].terms
              /\ pos \in { 0, Len(nts) }
              /\ tn = Bases[b].tn /\ nn = Bases[b].nn
           \/ /\ Mode = "judge"
              /\ b \in DOMAIN Work
              /\ nts = <<>> /\ terms = <<>> /\ pos = 0 /\ tn = <<>> /\ nn = <<>>

MoveNT == \E i \in DOMAIN nts : \E j \in 0 .. Len(nts) - 1 :
            j # i - 1 /\ nts' = Moved(nts, i, j) /\ UNCHANGED << terms, pos, tn, nn >>
MoveProd == \E k \in DOMAIN nts : \E i \in DOMAIN nts[k].prods : \E j \in 0 .. Len(nts[k].prods) - 1 :
            j # i - 1 /\ nts' = [ nts EXCEPT ![k].prods = Moved(@, i, j) ] /\ UNCHANGED << terms, pos, tn, nn >>
ReverseProds == \E k \in DOMAIN nts : Len(nts[k].prods) > 1
                  /\ nts' = [ nts EXCEPT ![k].prods = Reverse(@) ] /\ UNCHANGED << terms, pos, tn, nn >>
MoveTerm == \E i \in DOMAIN terms : \E j \in 0 .. Len(terms) - 1 :
            j # i - 1 /\ terms' = Moved(terms, i, j) /\ UNCHANGED << nts, pos, tn, nn >>
MoveEnum == \E p \in 0 .. Len(nts) : p # pos /\ pos' = p /\ UNCHANGED << nts, terms, tn, nn >>
SwapNT   == \E i, j \in DOMAIN nn : i < j
              /\ nn' = [ nn EXCEPT ![i] = nn[j], ![j] = nn[i] ] /\ UNCHANGED << nts, terms, pos, tn >>
SwapT    == \E i, j \in DOMAIN tn : i < j
              /\ tn' = [ tn EXCEPT ![i] = tn[j], ![j] = tn[i] ] /\ UNCHANGED << nts, terms, pos, nn >>
RenameNT == \E i \in DOMAIN nn :
              \E x \in { NTNames[1 + ((7 * i + 5 * k + b) % Len(NTNames))] : k \in 0 .. 2 }
                       \cup { nn[j] \o "1" : j \in DOMAIN nn } :
                x \notin Range(nn) /\ nn' = [ nn EXCEPT ![i] = x ] /\ UNCHANGED << nts, terms, pos, tn >>
RenameT  == \E i \in DOMAIN tn :
              \E x \in { TNames[1 + ((7 * i + 5 * k + b) % Len(TNames))] : k \in 0 .. 2 } \cup Range(nn) :
                x \notin Range(tn) /\ tn' = [ tn EXCEPT ![i] = x ] /\ UNCHANGED << nts, terms, pos, nn >>

Edit == MoveNT \/ MoveProd \/ ReverseProds \/ MoveTerm \/ MoveEnum \/ SwapNT \/ SwapT \/ RenameNT \/ RenameT

Finish == /\ n = Steps
          /\ PrintT("@@" \o ToJson([ b |-> b, nts |-> nts, terms |-> terms, pos |-> pos, tn |-> tn, nn |-> nn ]))

Next == /\ Mode = "generate"
        /\ \/ n < Steps /\ n' = n + 1 /\ Edit /\ UNCHANGED b
           \/ n' = n + 1 /\ Finish /\ UNCHANGED << b, nts, terms, pos, tn, nn >>

Spec == Init /\ [][Next]_vars

\* The same declarations, differently arranged.
Same == Mode = "generate" =>
  /\ { nts[i].id : i \in DOMAIN nts } = { Bases[b].nts[i].id : i \in DOMAIN Bases[b].nts }
  /\ \A i \in DOMAIN nts : \E j \in DOMAIN Bases[b].nts :
        nts[i].id = Bases[b].nts[j].id /\ Range(nts[i].prods) = Range(Bases[b].nts[j].prods)
  /\ Range(terms) = Range(Bases[b].terms)
  /\ Cardinality(Range(tn)) = Len(tn) /\ Cardinality(Range(nn)) = Len(nn)

(***************************************************************************)
(* Judging: Work[b] = [id, ta, tb (names), runs |-> Seq([a, b])] where a   *)
(* and b are [k, v, np, f, x] (x: the list of the expected names).         *)
(***************************************************************************)
Id(names, x) == IF x = "end-of-input" /\ x \notin Range(names) THEN 0
                ELSE IF x \in Range(names) THEN CHOOSE i \in DOMAIN names : names[i] = x ELSE -1
\* A terminal can have the name the end of the input is reported with.
SameName(x, y) == \/ Id(Work[b].ta, x) = Id(Work[b].tb, y)
                  \/ x = "end-of-input" /\ y = "end-of-input"
                  \/ x = "end-of-input" /\ Id(Work[b].tb, y) # -1 /\ "end-of-input" \in Range(Work[b].ta)
                  \/ y = "end-of-input" /\ Id(Work[b].ta, x) # -1 /\ "end-of-input" \in Range(Work[b].tb)
Ids(names, xs) == { Id(names, xs[i]) : i \in DOMAIN xs }

Difference(p, q) ==
  IF p.k # q.k THEN "outcome " \o q.k \o " instead of " \o p.k
  ELSE IF p.k = "ok" /\ p.v # q.v THEN "result " \o q.v \o " instead of " \o p.v
  ELSE IF p.k = "lerr" /\ p.v # q.v THEN "another lexer error"
  ELSE IF p.k # "ok" /\ p.np # q.np THEN "error reported after " \o ToString(q.np) \o " requests instead of " \o ToString(p.np)
  ELSE IF p.k = "perr" /\ ~SameName(p.f, q.f) THEN "another token reported: " \o q.f \o " for " \o p.f
  ELSE IF p.k = "perr" /\ Ids(Work[b].ta, p.x) # Ids(Work[b].tb, q.x) THEN "other tokens expected"
  ELSE ""

Judge == Mode = "judge" =>
  /\ \A i \in DOMAIN Work[b].runs :
       \E why \in { Difference(Work[b].runs[i].a, Work[b].runs[i].b) } :
          IF why = "" THEN TRUE ELSE PrintT("@@" \o ToJson([ id |-> Work[b].id, run |-> i, why |-> why ]))
  /\ IF Work[b].va = Work[b].vb THEN TRUE
     ELSE PrintT("@@" \o ToJson([ id |-> Work[b].id, run |-> 0, why |-> Work[b].vb \o " instead of " \o Work[b].va ]))
  /\ PrintT("@@" \o ToJson([ done |-> b, n |-> Len(Work[b].runs) ]))
=============================================================================
