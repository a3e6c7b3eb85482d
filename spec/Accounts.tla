------------------------------ MODULE Accounts ------------------------------
(***************************************************************************)
(* Accounts of real parses against Owner.tla.                              *)
(*                                                                         *)
(* work.ndjson: [g, tr], g a grammar with `parts`, tr a sequence of        *)
(*   e, in    entry and input, as in Trace.tla                             *)
(*   last     events before the panic, -1: none                            *)
(*   ev, k    events observed, kind of the outcome                         *)
(*   used     what each action was handed, in order                        *)
(*   back     what was returned                                            *)
(*   dropped  what had been dropped when the parse was over, in order      *)
(*            (lexer errors are not listed)                                *)
(*   left     what there still was when the result was gone                *)
(***************************************************************************)
EXTENDS Owner, Json

VARIABLES gid, tid, o, nbad

vars == << gen, gid, tid, o, nbad >>

Work == ndJsonDeserialize("work.ndjson")
W  == Work[gid]
Tr == W.tr[tid]

Init == /\ gid \in 1 .. Len(Work)
        /\ G = Work[gid].g
        /\ GenInit
        /\ tid = 1 /\ o = <<>> /\ nbad = 0

Generate == GenNext /\ UNCHANGED << gid, tid, o, nbad >>
Begin == phase = "ready" /\ phase' = "trace" /\ UNCHANGED << G, F, C, aut, todo, gid, tid, o, nbad >>

StartTrace == /\ phase = "trace" /\ o = <<>> /\ tid <= Len(W.tr)
              /\ o' = OwnInit(Tr.e)
              /\ UNCHANGED << gen, gid, tid, nbad >>

Offer(tr, k) == IF k > Len(tr.in) THEN 0 ELSE tr.in[k]

\* A token, error or result there can have been, as far as the events go.
Errs(tr) == { 4 * k : k \in { i \in 1 .. Len(tr.in) : tr.in[i] < 0 } }
NPulls(tr) == Cardinality({ i \in DOMAIN tr.ev : tr.ev[i] = 0 })
Yielded(tr) == NPulls(tr) - (IF tr.k = "fuel" /\ tr.ev # <<>> /\ tr.ev[Len(tr.ev)] = 0 THEN 1 ELSE 0)
Results(tr) == Len(tr.ev) - NPulls(tr) - (IF tr.k = "fuel" /\ tr.ev # <<>> /\ tr.ev[Len(tr.ev)] # 0 THEN 1 ELSE 0)
Made(tr) == { 0 } \cup { 0 - n : n \in 1 .. Results(tr) }
            \cup UNION { IF Offer(tr, k) > 0 THEN Elems(Parts(Offer(tr, k), k)) ELSE {} : k \in 1 .. Yielded(tr) }

Judge(tr) ==
  LET us == Joined(tr.used)
      back == SelectSeq(tr.back, LAMBDA x : x \notin Errs(tr))
      all == us \o back \o tr.dropped
  IN IF tr.k \notin { "ok", "perr", "lerr", "fuel" } THEN ""
     ELSE IF tr.left # <<>> THEN "still there after the parse: " \o ToString(tr.left)
     ELSE IF ~Once(all) THEN "used, returned or dropped more than once: " \o ToString({ x \in Elems(all) : Cardinality({ i \in DOMAIN all : all[i] = x }) > 1 })
     ELSE IF Elems(all) # Made(tr) THEN "lost or made up: " \o ToString((Made(tr) \ Elems(all)) \cup (Elems(all) \ Made(tr)))
     ELSE IF tr.k # o.r.ret.k \/ Len(tr.used) # Len(o.used) THEN ""
     ELSE IF tr.used # o.used THEN "actions were handed " \o ToString(tr.used) \o " instead of " \o ToString(o.used)
     ELSE IF tr.back # o.back THEN "returned " \o ToString(tr.back) \o " instead of " \o ToString(o.back)
     ELSE IF Elems(tr.dropped) # o.dropped THEN "dropped " \o ToString(tr.dropped) \o " instead of " \o ToString(o.dropped)
     ELSE ""

Run == /\ phase = "trace" /\ o # <<>> /\ o.r.st # "done"
       /\ \E p \in { OwnStep(o, Offer(Tr, o.r.np + 1), Tr.last) } : o' = p
       /\ UNCHANGED << gen, gid, tid, nbad >>

Compare == /\ phase = "trace" /\ o # <<>> /\ o.r.st = "done"
           /\ \E why \in { Judge(Tr) } :
                /\ nbad' = IF why = "" THEN nbad ELSE nbad + 1
                /\ IF why = "" THEN TRUE
                   ELSE PrintT("@@" \o ToJson([ g |-> G.id, wid |-> gid, tid |-> tid, why |-> why,
                          spec |-> [ ret |-> o.r.ret, used |-> o.used, back |-> o.back ] ]))
           /\ tid' = tid + 1 /\ o' = <<>>
           /\ UNCHANGED << gen, gid >>

Finished == /\ phase = "trace" /\ o = <<>> /\ tid > Len(W.tr)
            /\ phase' = "over"
            /\ PrintT("@@" \o ToJson([ done |-> gid, g |-> G.id, n |-> Len(W.tr), bad |-> nbad ]))
            /\ UNCHANGED << G, F, C, aut, todo, gid, tid, o, nbad >>

Next == Generate \/ Begin \/ StartTrace \/ Run \/ Compare \/ Finished
Spec == Init /\ [][Next]_vars

View == IF o = <<>> THEN << gid, tid, phase, todo, IF phase = "first" THEN F ELSE <<>> >>
        ELSE << gid, tid, o.r.np, o.r.na, o.r.st >>
Accounted == o # <<>> => Conserved(o)
=============================================================================
