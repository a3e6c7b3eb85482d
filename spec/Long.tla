-------------------------------- MODULE Long --------------------------------
(***************************************************************************)
(* Very long runs: the machine of LongRun.tla on inputs of tens of         *)
(* thousands of tokens, against summaries of what the real parser did.     *)
(* One TLC step makes Batch steps of the machine.                          *)
(*                                                                         *)
(* work.ndjson: [g, tr], tr a sequence of                                  *)
(*   e    entry                                                            *)
(*   segs the input: [part |-> items, n |-> repetitions]                   *)
(*   np, na, ah, al, sum, ret   what was observed (LongRun.tla); ret.v is    *)
(*        the digest of the value                                          *)
(***************************************************************************)
EXTENDS LongRun, Json

CONSTANTS Prop, Batch

VARIABLES gid, tid, run, nbad

vars == << gen, gid, tid, run, nbad >>

Work == ndJsonDeserialize("work.ndjson")
W  == Work[gid]
Tr == W.tr[tid]

(***************************************************************************)
(* Comparison.                                                             *)
(***************************************************************************)
Outcomes == { "ok", "perr", "lerr" }
Judge(tr) ==
  LET s == run.ret  o == tr.ret
      same == s.k = o.k /\ tr.np = run.np
  IN CASE Prop = "C01" -> IF s.k = "ok" /\ o.k # "ok" THEN "long sentence not accepted: " \o o.k ELSE ""
       [] Prop = "C02" -> IF o.k = "ok" /\ s.k # "ok" THEN "long input is not a sentence, but accepted" ELSE ""
       [] Prop = "C03" -> IF o.k = "ok" /\ s.k = "ok" /\ o.v # s.v THEN "value of a long sentence differs" ELSE ""
       [] Prop = "C04" -> IF same /\ (tr.na # run.na \/ tr.ah # run.ah) THEN "actions on a long input differ in number, order or time" ELSE ""
       [] Prop = "C05" -> IF s.k # "perr" THEN "" ELSE IF o.k # "perr" THEN "no syntax error in a long input: " \o o.k
                          ELSE IF o.f # s.f \/ tr.np # run.np THEN "syntax error in a long input reported elsewhere" ELSE ""
       [] Prop = "C06" -> IF s.k = "perr" /\ o.k = "perr" /\ tr.np = run.np /\ o.x # s.x
                          THEN "expected after a long input is {" \o o.x \o "} instead of {" \o s.x \o "}" ELSE ""
       [] Prop = "C07" -> IF s.k = "lerr" /\ o.k # "lerr" THEN "lexer error after a long input not passed on: " \o o.k
                          ELSE IF tr.na = run.na /\ tr.al = run.al /\ Less(run.sum, tr.sum) THEN "token requested ahead of time in a long input"
                          ELSE IF s.k = o.k /\ tr.np # run.np THEN "number of requests for a long input differs"
                          ELSE IF s.k = "lerr" /\ o.k = "lerr" /\ o.v # s.v THEN "lexer error altered" ELSE ""
       [] Prop = "C09" -> IF s.k # o.k \/ (s.k = "ok" /\ o.v # s.v) THEN "differs from the parser that prefers shifts on a long input" ELSE ""
       [] Prop = "C11" -> IF (s.k = "ok") # (o.k = "ok") \/ (s.k = "ok" /\ o.v # s.v) THEN "long sentence of an entry" ELSE ""
       [] Prop = "C13" -> IF o.k \notin Outcomes THEN "no result for a long input: " \o o.k ELSE ""
       [] OTHER -> ""

(***************************************************************************)
(* Steps.                                                                  *)
(***************************************************************************)
Init == /\ gid \in 1 .. Len(Work)
        /\ G = Work[gid].g
        /\ GenInit
        /\ tid = 1 /\ run = <<>> /\ nbad = 0

Generate == GenNext /\ UNCHANGED << gid, tid, run, nbad >>

Begin == phase = "ready" /\ phase' = "trace" /\ UNCHANGED << G, F, C, aut, todo, gid, tid, run, nbad >>

StartTrace == /\ phase = "trace" /\ run = <<>> /\ tid <= Len(W.tr)
              /\ run' = LongInit(Tr.e, Tr.segs)
              /\ UNCHANGED << gen, gid, tid, nbad >>

Ticks == [ i \in 1 .. Batch |-> i ]
Run == /\ phase = "trace" /\ run # <<>> /\ run.st # "done"
       /\ \E segs \in { Tr.segs } :
            run' = FoldLeft(LAMBDA r, i : Micro(segs, r), run, Ticks)
       /\ UNCHANGED << gen, gid, tid, nbad >>

Compare == /\ phase = "trace" /\ run # <<>> /\ run.st = "done"
           /\ \E why \in { Judge(Tr) } :
                /\ nbad' = IF why = "" THEN nbad ELSE nbad + 1
                /\ IF why = "" THEN TRUE
                   ELSE PrintT("@@" \o ToJson([ g |-> G.id, wid |-> gid, tid |-> tid, why |-> why, prop |-> Prop,
                          spec |-> [ np |-> run.np, na |-> run.na, ah |-> run.ah, ret |-> run.ret ] ]))
           /\ tid' = tid + 1 /\ run' = <<>>
           /\ UNCHANGED << gen, gid >>

Finished == /\ phase = "trace" /\ run = <<>> /\ tid > Len(W.tr)
            /\ phase' = "over"
            /\ PrintT("@@" \o ToJson([ done |-> gid, g |-> G.id, n |-> Len(W.tr), bad |-> nbad ]))
            /\ UNCHANGED << G, F, C, aut, todo, gid, tid, run, nbad >>

Next == Generate \/ Begin \/ StartTrace \/ Run \/ Compare \/ Finished
Spec == Init /\ [][Next]_vars

View == IF run = <<>> THEN << gid, tid, phase, todo, IF phase = "first" THEN F ELSE <<>> >>
        ELSE << gid, tid, run.np, run.na, run.st >>
=============================================================================
