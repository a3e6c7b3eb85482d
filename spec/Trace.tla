------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: runs of the real, generated parsers against the       *)
(* specification.                                                          *)
(*                                                                         *)
(* work.ndjson holds one record per line                                   *)
(*   g        a grammar (CFG.tla)                                          *)
(*   verdict  what the macro made of it: "accepted" or "rejected"          *)
(*   tr       recorded runs of its parser:                                 *)
(*     e      the entry point                                              *)
(*     spec   1: run the specification next to it; 0: (very long inputs)   *)
(*            judge the kind of the outcome only; `in` is empty            *)
(*     cyc    0, or the index in `in` the iterator goes back to after its  *)
(*            last item, again and again                                   *)
(*     in     what the token iterator had to offer: t > 0 a token of       *)
(*            terminal t, -x a lexer error with payload x, 0 the end.      *)
(*            After the last item the iterator returns the end for ever.   *)
(*     ev     what was observed, in order: 0 the iterator was asked for    *)
(*            the next item, p > 0 the action labelled p ran               *)
(*     ret    the outcome [k, v, f, x]; k is "ok", "perr", "lerr" or       *)
(*            "panic", "hang", "fuel", "crash" if there was none           *)
(*                                                                         *)
(* For every run the specification's machine is executed on the same       *)
(* iterator, step by step, and the recorded run is then compared with that *)
(* behaviour.  Which parts have to agree depends on the property (Prop).   *)
(* Disagreements are printed (and, with Stop = TRUE, violate NoBad).       *)
(***************************************************************************)
EXTENDS Parsegen, Parser, Json

CONSTANTS Prop, Stop

VARIABLES gid, tid,
          run,        \* the specification's run, <<>> between traces
          evs,        \* its events
          pst,        \* its state at each request
          nbad

vars == << gen, gid, tid, run, evs, pst, nbad >>

Work == ndJsonDeserialize("work.ndjson")
W  == Work[gid]
Tr == W.tr[tid]

Tracked == Prop \in { "C03", "C09", "C11", "ALL" }

Init == /\ gid \in 1 .. Len(Work)
        /\ G = Work[gid].g
        /\ GenInit
        /\ tid = 1 /\ run = <<>> /\ evs = <<>> /\ pst = <<>> /\ nbad = 0

Generate == GenNext /\ UNCHANGED << gid, tid, run, evs, pst, nbad >>

(***************************************************************************)
(* The environment.                                                        *)
(***************************************************************************)
Offer(tr, k) == IF k <= Len(tr.in) THEN tr.in[k]
                ELSE IF tr.cyc = 0 THEN 0
                ELSE tr.in[tr.cyc + ((k - tr.cyc) % (Len(tr.in) - tr.cyc + 1))]

\* The value of a token: what its pattern binds.
TokValue(t, k) == IF G.tk[t] = 0 THEN "u"
                  ELSE IF G.tk[t] = 1 THEN ToString(k)
                  ELSE ToString(k) \o "a&" \o ToString(k) \o "b"

Item(tr, k) == LET x == Offer(tr, k)
               IN IF x = 0 THEN EofItem
                  ELSE IF x < 0 THEN ErrItem(ToString(0 - x))
                  ELSE TokItem(x, IF Tracked THEN TokValue(x, k) ELSE "")

(***************************************************************************)
(* Comparison with the recorded run.                                       *)
(***************************************************************************)
Pulls(tr) == Cardinality({ i \in 1 .. Len(tr.ev) : tr.ev[i] = 0 })
ActsOf(s) == SelectSeq(s, LAMBDA x : x # 0)
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
ConflictFree == Conflicts = {}

\* Position of the first difference of two sequences.
RECURSIVE FirstDiff(_, _, _)
FirstDiff(s, t, i) == IF i > Len(s) \/ i > Len(t) \/ s[i] # t[i] THEN i ELSE FirstDiff(s, t, i + 1)

NameOfItem(x) == IF x = 0 THEN "end-of-input" ELSE G.names[x]

\* Number of requests before each action, in order.
RECURSIVE PullsAt(_, _, _)
PullsAt(s, i, n) == IF i > Len(s) THEN <<>>
                    ELSE IF s[i] = 0 THEN PullsAt(s, i + 1, n + 1)
                    ELSE << n >> \o PullsAt(s, i + 1, n)

\* Recognition by the grammar itself, not by the automaton: the set of << k, i, j >> such
\* that non-terminal k derives w[i+1 .. j].
RECURSIVE Ends(_, _, _, _)
Ends(w, D, rhs, i) ==
  IF rhs = <<>> THEN { i }
  ELSE LET x == Head(rhs)
           js == IF IsT(G, x) THEN (IF i < Len(w) /\ w[i + 1] = x THEN { i + 1 } ELSE {})
                 ELSE { d[3] : d \in { y \in D : y[1] = NT(G, x) /\ y[2] = i } }
       IN UNION { Ends(w, D, Tail(rhs), j) : j \in js }
RECURSIVE ChartFix(_, _)
ChartFix(w, D) ==
  LET D2 == TLCEval(D \cup UNION { UNION { { << G.prods[p].lhs, i, j >> :
                       j \in Ends(w, D, G.prods[p].rhs, i) } : p \in PIdx(G) } : i \in 0 .. Len(w) })
  IN IF D2 = D THEN D ELSE ChartFix(w, D2)
Derived(e, w) == << G.entries[e], 0, Len(w) >> \in ChartFix(w, {})

\* "" if the recorded run agrees.
JudgeC01(tr) ==
  IF run.ret.k = "ok" /\ tr.ret.k # "ok" THEN "sentence not accepted: " \o tr.ret.k ELSE ""

JudgeC02(tr) ==
  IF tr.ret.k # "ok" THEN ""
  ELSE LET w == tr.in IN
       IF \E i \in 1 .. Len(w) : w[i] <= 0 THEN "accepted without reading to the end"
       ELSE IF IF ConflictFree THEN run.ret.k # "ok" ELSE ~Derived(tr.e, w)
            THEN "not a sentence, but accepted" ELSE ""

JudgeC03(tr) ==
  IF run.ret.k = "ok" /\ tr.ret.k = "ok" /\ tr.ret.v # run.ret.v
  THEN "value " \o tr.ret.v \o " instead of " \o run.ret.v ELSE ""

JudgeC04(tr) ==
  LET d == FirstDiff(tr.ev, evs, 1)
      od == IF d <= Len(tr.ev) THEN tr.ev[d] ELSE -1      \* -1: returned
      sd == IF d <= Len(evs) THEN evs[d] ELSE -1
  IN IF od = sd THEN ""
     ELSE IF od > 0 THEN "action " \o ToString(od) \o " run as event " \o ToString(d)
     ELSE IF od = 0 /\ sd > 0 THEN "action " \o ToString(sd) \o " not run before event " \o ToString(d)
     ELSE IF od = -1 /\ sd > 0 /\ tr.ret.k = "ok" THEN "action " \o ToString(sd) \o " not run"
     ELSE ""

JudgeC05(tr) ==
  IF run.ret.k # "perr" THEN ""
  ELSE IF tr.ret.k # "perr" THEN "no syntax error: " \o tr.ret.k
  ELSE IF tr.ret.f # run.ret.f THEN "found is " \o tr.ret.f \o " instead of " \o run.ret.f
  ELSE IF Pulls(tr) # run.np THEN "reported after " \o ToString(Pulls(tr)) \o " requests instead of " \o ToString(run.np)
  ELSE ""

JudgeC06(tr) ==
  IF tr.ret.k # "perr" THEN ""
  ELSE LET n == Pulls(tr)
           should == IF run.ret.k = "perr" /\ tr.ret.f = run.ret.f THEN run.ret.x
                     ELSE IF n \in 1 .. Len(pst) THEN Expected(G, aut, pst[n]) ELSE ""
       IN IF tr.ret.x # should THEN "expected is {" \o tr.ret.x \o "} instead of {" \o should \o "}" ELSE ""

JudgeC07(tr) ==
  LET n == Pulls(tr)
      last == Offer(tr, n)
      ahead == LET a == PullsAt(tr.ev, 1, 0)  b == PullsAt(evs, 1, 0)
               IN /\ ConflictFree
                  /\ IsPrefix(ActsOf(tr.ev), ActsOf(evs))
                  /\ \E i \in 1 .. Len(a) : a[i] > b[i]
  IN IF \E i \in 1 .. n - 1 : Offer(tr, i) <= 0 THEN "request after the end or an error"
     ELSE IF ahead THEN "token requested ahead of time"
     ELSE IF tr.ret.k = "ok" /\ (n = 0 \/ last # 0) THEN "success before the end of the input was read"
     ELSE IF tr.ret.k = "lerr" /\ (n = 0 \/ last >= 0) THEN "lexer error out of nowhere"
     ELSE IF tr.ret.k = "lerr" /\ tr.ret.v # ToString(0 - last) THEN "lexer error altered"
     ELSE IF tr.ret.k \in { "ok", "perr" } /\ n > 0 /\ last < 0 THEN "lexer error not passed on"
     ELSE IF tr.ret.k = "perr" /\ n = 0 THEN "syntax error without reading"
     ELSE IF tr.ret.k = "perr" /\ tr.ret.f # NameOfItem(last) THEN "the token reported is not the one read last"
     ELSE ""

JudgeC09(tr) ==         \* an accepted grammar in which shifts were preferred
  IF ConflictFree \/ "RR" \in Conflicts THEN ""
  ELSE IF ActsOf(tr.ev) # ActsOf(evs) THEN "actions differ from those of the parser that prefers shifts"
  ELSE IF tr.ret.k # run.ret.k THEN tr.ret.k \o " instead of " \o run.ret.k
  ELSE IF run.ret.k = "ok" /\ tr.ret.v # run.ret.v THEN "value differs" ELSE ""

JudgeC11(tr) ==
  IF run.ret.k = "ok" /\ tr.ret.k # "ok" THEN "sentence of the entry not accepted: " \o tr.ret.k
  ELSE IF run.ret.k # "ok" /\ tr.ret.k = "ok" THEN "not a sentence of the entry, but accepted"
  ELSE IF run.ret.k = "ok" /\ tr.ret.v # run.ret.v THEN "value " \o tr.ret.v \o " instead of " \o run.ret.v
  ELSE ""

JudgeC13(tr) ==
  IF run.ret.k = "fuel" THEN ""               \* no token that cannot continue so far
  ELSE IF tr.ret.k \notin { "ok", "perr", "lerr" } THEN "no result: " \o tr.ret.k ELSE ""

Judge(tr) ==
  CASE Prop = "C01" -> JudgeC01(tr)
    [] Prop = "C02" -> JudgeC02(tr)
    [] Prop = "C03" -> JudgeC03(tr)
    [] Prop = "C04" -> JudgeC04(tr)
    [] Prop = "C05" -> JudgeC05(tr)
    [] Prop = "C06" -> JudgeC06(tr)
    [] Prop = "C07" -> JudgeC07(tr)
    [] Prop = "C09" -> JudgeC09(tr)
    [] Prop = "C11" -> JudgeC11(tr)
    [] Prop = "C13" -> JudgeC13(tr)
    [] OTHER -> ""

\* What the macro made of the grammar.
JudgeVerdict ==
  CASE Prop = "C08" ->
         IF ConflictFree /\ AllProductive(G) /\ W.verdict # "accepted"
         THEN "a well-formed LR(1) grammar was rejected" ELSE ""
    [] Prop = "C09" ->
         IF "RR" \in Conflicts /\ W.verdict = "accepted"
         THEN "a grammar with a reduce/reduce conflict was accepted" ELSE ""
    [] Prop = "C11" ->
         IF ConflictFree /\ AllProductive(G) /\ W.verdict # "accepted"
         THEN "the entry points of a grammar could not be used" ELSE ""
    [] OTHER -> ""

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
Report(n, why) ==      \* base: number of traces of the grammar in earlier lines
  PrintT("@@" \o ToJson([ g |-> G.id, base |-> W.base, tid |-> n, why |-> why, prop |-> Prop,
     spec |-> IF n = 0 THEN [ conf |-> Conflicts, productive |-> AllProductive(G) ]
              ELSE [ ret |-> run.ret, ev |-> evs ] ]))

Begin ==
  /\ phase = "ready"
  /\ \E why \in { JudgeVerdict } :
       /\ nbad' = IF why = "" THEN 0 ELSE 1
       /\ IF why = "" THEN TRUE ELSE Report(0, why)
  /\ phase' = "trace"
  /\ UNCHANGED << G, F, C, aut, todo, gid, tid, run, evs, pst >>

\* A grammar without unique behaviour has no runs to compare with.
StartTrace ==
  /\ phase = "trace" /\ run = <<>> /\ tid <= Len(W.tr)
  /\ run' = RunInit(Tr.e)
  /\ evs' = <<>> /\ pst' = <<>>
  /\ UNCHANGED << gen, gid, tid, nbad >>

\* An endless stream is followed for so many requests.
Endless == 300

Running == phase = "trace" /\ run # <<>>
SpecRuns == Running /\ Tr.spec = 1
Same == UNCHANGED << gen, gid, tid, nbad >>

Pull        == /\ SpecRuns /\ CanPull(run) /\ ~(Tr.cyc > 0 /\ run.np >= Endless)
               /\ run' = DoPull(run, Item(Tr, run.np + 1))
               /\ evs' = Append(evs, 0)
               /\ pst' = Append(pst, Top(run.stk))
               /\ Same
LexError    == /\ SpecRuns /\ CanLexError(run) /\ run' = DoLexError(run)
               /\ UNCHANGED << evs, pst >> /\ Same
SyntaxError == /\ SpecRuns /\ CanSyntaxError(aut, run) /\ run' = DoSyntaxError(G, aut, run)
               /\ UNCHANGED << evs, pst >> /\ Same
Shift       == /\ SpecRuns /\ CanShift(aut, run) /\ run' = DoShift(aut, run)
               /\ UNCHANGED << evs, pst >> /\ Same
Reduce      == /\ SpecRuns /\ CanReduce(aut, run)
               /\ run' = DoReduce(G, aut, run, Tracked)
               /\ evs' = Append(evs, G.prods[ReduceProd(aut, run)].lab)
               /\ UNCHANGED pst /\ Same
Accept      == /\ SpecRuns /\ CanAccept(aut, run) /\ run' = DoAccept(run)
               /\ UNCHANGED << evs, pst >> /\ Same

GiveUp == /\ SpecRuns /\ CanPull(run) /\ Tr.cyc > 0 /\ run.np >= Endless
          /\ run' = [ run EXCEPT !.st = "done", !.ret = [ NoRet EXCEPT !.k = "fuel" ] ]
          /\ UNCHANGED << evs, pst >> /\ Same

Compare ==
  /\ Running /\ (run.st = "done" \/ Tr.spec = 0)
  /\ \E why \in { Judge(Tr) } :
       /\ nbad' = IF why = "" THEN nbad ELSE nbad + 1
       /\ IF why = "" THEN TRUE ELSE Report(tid, why)
  /\ tid' = tid + 1
  /\ run' = <<>> /\ evs' = <<>> /\ pst' = <<>>
  /\ UNCHANGED << gen, gid >>

Finished ==
  /\ phase = "trace" /\ run = <<>> /\ tid > Len(W.tr)
  /\ phase' = "over"
  /\ PrintT("@@" \o ToJson([ done |-> gid, g |-> G.id, n |-> Len(W.tr), bad |-> nbad ]))
  /\ UNCHANGED << G, F, C, aut, todo, gid, tid, run, evs, pst, nbad >>

Next == Generate \/ Begin \/ StartTrace \/ Pull \/ LexError \/ SyntaxError \/ Shift \/ Reduce
        \/ Accept \/ GiveUp \/ Compare \/ Finished

Spec == Init /\ [][Next]_vars

View == IF run = <<>> THEN << gid, tid, phase, todo, IF phase = "first" THEN F ELSE <<>> >>
        ELSE << gid, tid, run.np, run.na, run.st >>

Shape == Running => TopShape(G, aut, run)
NoBad == Stop => nbad = 0
=============================================================================
