------------------------------- MODULE Repro -------------------------------
(***************************************************************************)
(* Expansions of `parser!` over the life of several compiler processes.    *)
(*                                                                         *)
(* The macro is a function: what it expands a grammar to is determined by  *)
(* the grammar.  A process starts in some environment (`env`), expands     *)
(* some grammars, ends; neither its memory (`seen`) nor its environment    *)
(* must matter.                                                            *)
(*                                                                         *)
(* Mode = "generate": all histories of one process over the grammars       *)
(* 1 .. K, up to MaxLen expansions, in all environments, are printed.      *)
(* Mode = "judge": work.ndjson holds the expansions observed, in order:    *)
(* [c |-> process, g |-> grammar, h |-> digest of the code].               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, K, MaxLen

VARIABLES env,      \* where the current process runs
          seen,     \* grammars expanded by the current process, in order
          memo,     \* what each grammar was expanded to: the function being revealed
          i

vars == << env, seen, memo, i >>

Work == ndJsonDeserialize("work.ndjson")
Grammars == IF Mode = "generate" THEN 1 .. K ELSE { Work[j].g : j \in DOMAIN Work }

\* The package being compiled (0: none, as rustc is run by hand), its crate, the working directory,
\* the user's environment, the optimisation, the position of the grammar in the file,
\* the date, the number of processors, the profile the macro is compiled in.
Envs == [ pkg : 0 .. 2, crate : 1 .. 3, dir : 1 .. 3, user : 1 .. 3, opt : BOOLEAN, at : 0 .. 2,
          clock : 0 .. 2, cpus : BOOLEAN, debug : BOOLEAN ]

Init == env \in (IF Mode = "generate" THEN Envs ELSE { [ pkg |-> 0 ] }) /\ seen = <<>> /\ memo = [ g \in Grammars |-> "" ] /\ i = 1

Imagine(g) == /\ Mode = "generate" /\ Len(seen) < MaxLen
              /\ seen' = Append(seen, g)
              /\ PrintT("@@" \o ToJson([ seq |-> seen', env |-> env ]))
              /\ UNCHANGED << env, memo, i >>

\* An expansion of a grammar for the first time reveals the function; later ones must agree.
Reveal == /\ Mode = "judge" /\ i <= Len(Work) /\ memo[Work[i].g] = ""
          /\ memo' = [ memo EXCEPT ![Work[i].g] = Work[i].h ]
          /\ i' = i + 1 /\ UNCHANGED << env, seen >>
Agree  == /\ Mode = "judge" /\ i <= Len(Work) /\ memo[Work[i].g] = Work[i].h
          /\ i' = i + 1 /\ UNCHANGED << env, seen, memo >>
Differ == /\ Mode = "judge" /\ i <= Len(Work) /\ memo[Work[i].g] \notin { "", Work[i].h }
          /\ PrintT("@@" \o ToJson([ i |-> i, g |-> Work[i].g, why |-> "expanded to other code than before" ]))
          /\ i' = i + 1 /\ UNCHANGED << env, seen, memo >>
Done   == /\ Mode = "judge" /\ i = Len(Work) + 1
          /\ PrintT("@@" \o ToJson([ done |-> Len(Work) ]))
          /\ i' = i + 1 /\ UNCHANGED << env, seen, memo >>

Next == (\E g \in Grammars : Imagine(g)) \/ Reveal \/ Agree \/ Differ \/ Done
Spec == Init /\ [][Next]_vars
View == IF Mode = "judge" THEN << i, <<>>, <<>> >> ELSE << i, seen, env >>
=============================================================================
