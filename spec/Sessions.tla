------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Several parses in one process.                                          *)
(*                                                                         *)
(* A session is a set of parses.  Each has what it does when it is alone   *)
(* in a fresh process (`solo`: its events in order, 0 a request, p > 0 an  *)
(* action; and its outcome), and a place:                                  *)
(*   par = 0, aft = 0   a thread of its own                                *)
(*   aft = j            in the thread of parse j, after it                 *)
(*   par = j, at = n    started by parse j within its n-th event (from the *)
(*                      semantic action or from the token iterator)        *)
(* Parses share nothing: the machine below is the product of their solo    *)
(* behaviours, ordered by nothing but threads and nesting.                 *)
(*                                                                         *)
(* Mode = "generate": prints interleavings of the sessions in work.ndjson. *)
(* Mode = "judge": each record also has what happened, `log` (pairs        *)
(* << parse, event >>, -1: returned) and `rets`; the log has to be a       *)
(* behaviour of the machine, and the outcomes the solo ones.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode

VARIABLES s,        \* the session
          pc,       \* events made by each parse
          fin,      \* parses that have returned
          hist,     \* the interleaving so far (generate)
          i,        \* position in the log (judge)
          bad

vars == << s, pc, fin, hist, i, bad >>

Work == ndJsonDeserialize("work.ndjson")
S    == Work[s]
Jobs == DOMAIN S.jobs
J(j) == S.jobs[j]

Started(j) == CASE J(j).par # 0 -> /\ pc[J(j).par] >= J(j).at
                                   \* one after the other within one event
                                   /\ \A k \in 1..(j - 1) : J(k).par = J(j).par /\ J(k).at = J(j).at => k \in fin
                [] J(j).aft # 0 -> J(j).aft \in fin
                [] OTHER -> TRUE
\* Started within the event the parse made last, and not over yet.
Nested(j)  == { k \in Jobs : J(k).par = j /\ pc[j] >= J(k).at /\ k \notin fin }
Enabled(j) == Started(j) /\ j \notin fin /\ Nested(j) = {}

CanStep(j)   == Enabled(j) /\ pc[j] < Len(J(j).solo)
CanReturn(j) == Enabled(j) /\ pc[j] = Len(J(j).solo)

Init == /\ s \in DOMAIN Work
        /\ pc = [ j \in Jobs |-> 0 ] /\ fin = {} /\ hist = <<>> /\ i = 1 /\ bad = ""

Do(j)  == pc' = [ pc EXCEPT ![j] = @ + 1 ] /\ UNCHANGED << s, fin >>
Ret(j) == fin' = fin \cup { j } /\ UNCHANGED << s, pc >>

Generate ==
  /\ Mode = "generate"
  /\ \E j \in Jobs :
       \/ CanStep(j) /\ Do(j) /\ hist' = Append(hist, j) /\ UNCHANGED << i, bad >>
       \/ CanReturn(j) /\ Ret(j) /\ UNCHANGED << hist, i, bad >>
Show ==
  /\ Mode = "generate" /\ fin = Jobs /\ i = 1
  /\ PrintT("@@" \o ToJson([ s |-> s, sched |-> hist ]))
  /\ i' = 2 /\ UNCHANGED << s, pc, fin, hist, bad >>

Judging == Mode = "judge" /\ bad = "" /\ i \in DOMAIN S.log
Entry == S.log[i]

Event == /\ Judging /\ Entry[2] # -1 /\ CanStep(Entry[1])
         /\ J(Entry[1]).solo[pc[Entry[1]] + 1] = Entry[2]
         /\ Do(Entry[1]) /\ i' = i + 1 /\ UNCHANGED << hist, bad >>
Return == /\ Judging /\ Entry[2] = -1 /\ CanReturn(Entry[1])
          /\ S.rets[Entry[1]] = J(Entry[1]).ret
          /\ Ret(Entry[1]) /\ i' = i + 1 /\ UNCHANGED << hist, bad >>
\* Anything else is influence from outside of the parse.
Other == /\ Judging
         /\ ~(Entry[2] # -1 /\ CanStep(Entry[1]) /\ J(Entry[1]).solo[pc[Entry[1]] + 1] = Entry[2])
         /\ ~(Entry[2] = -1 /\ CanReturn(Entry[1]) /\ S.rets[Entry[1]] = J(Entry[1]).ret)
         /\ bad' = IF Entry[2] = -1 /\ CanReturn(Entry[1])
                   THEN "parse " \o ToString(Entry[1]) \o " of the session returned something else than alone"
                   ELSE "parse " \o ToString(Entry[1]) \o " of the session went another way than alone, at entry " \o ToString(i)
         /\ UNCHANGED << s, pc, fin, hist, i >>
Verdict ==
  /\ Mode = "judge" /\ i # -1 /\ (bad # "" \/ i = Len(S.log) + 1)
  /\ \E why \in { IF bad # "" THEN bad ELSE IF S.stuck \/ fin # Jobs THEN "the session did not end" ELSE "" } :
       /\ IF why = "" THEN TRUE ELSE PrintT("@@" \o ToJson([ s |-> s, why |-> why ]))
       /\ PrintT("@@" \o ToJson([ done |-> s ]))
  /\ i' = -1 /\ UNCHANGED << s, pc, fin, hist, bad >>

Next == Generate \/ Show \/ Event \/ Return \/ Other \/ Verdict
Spec == Init /\ [][Next]_vars

View == IF Mode = "judge" THEN << s, i, bad # "" >> ELSE << s, i, hist, fin >>
=============================================================================
