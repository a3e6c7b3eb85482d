------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* The front end: which texts are grammars.                                *)
(*                                                                         *)
(* A text is a sequence of items                                           *)
(*   [k |-> "enum",  terms |-> Seq(name)]                                  *)
(*   [k |-> "nt",    name, pub, prods |-> Seq(production)]                 *)
(*   [k |-> "type",  name]             `type <name> = ...;`                *)
(* production: [syms |-> Seq(symbol), fallible |-> BOOLEAN]                *)
(* symbol: [t |-> "t" or "n", name, named |-> BOOLEAN,                     *)
(*          rep |-> "", "+", "*", "?" or two of them]                      *)
(*                                                                         *)
(* Mode = "generate": the machine starts from well-formed texts, inserts   *)
(* defects with one of the actions below, anywhere, and prints the texts.  *)
(* Mode = "judge": reads observations {items, verdict} from work.ndjson    *)
(* and checks that what is malformed was rejected.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, MaxDefects, MaxMoves

VARIABLES items, n, moves, base

vars == << items, n, moves, base >>

(***************************************************************************)
(* Well-formedness.                                                        *)
(***************************************************************************)
Of(its, k)   == { i \in DOMAIN its : its[i].k = k }
Declared(its) == UNION { { its[i].terms[j] : j \in DOMAIN its[i].terms } : i \in Of(its, "enum") }
NTNames(its) == { its[i].name : i \in Of(its, "nt") }
Prods(its)   == UNION { { its[i].prods[j] : j \in DOMAIN its[i].prods } : i \in Of(its, "nt") }
Symbols(its) == UNION { { p.syms[j] : j \in DOMAIN p.syms } : p \in Prods(its) }
TypeKinds    == { "State" }

Defects(its) ==
  { d \in { "no token enum", "several token enums", "terminal declared twice", "non-terminal declared twice",
            "state type declared twice", "unknown type", "undeclared terminal", "undeclared non-terminal",
            "repetition", "fallible action" } :
    CASE d = "no token enum" -> Of(its, "enum") = {}
      [] d = "several token enums" -> Cardinality(Of(its, "enum")) > 1
      [] d = "terminal declared twice" ->
           \E i \in Of(its, "enum") : \E a, b \in DOMAIN its[i].terms : a < b /\ its[i].terms[a] = its[i].terms[b]
      [] d = "non-terminal declared twice" ->
           \E i, j \in Of(its, "nt") : i < j /\ its[i].name = its[j].name
      [] d = "state type declared twice" ->
           \E i, j \in Of(its, "type") : i < j /\ its[i].name = "State" /\ its[j].name = "State"
      [] d = "unknown type" -> \E i \in Of(its, "type") : its[i].name \notin TypeKinds
      [] d = "undeclared terminal" -> \E s \in Symbols(its) : s.t = "t" /\ s.name \notin Declared(its)
      [] d = "undeclared non-terminal" -> \E s \in Symbols(its) : s.t = "n" /\ s.name \notin NTNames(its)
      [] d = "repetition" -> \E s \in Symbols(its) : s.rep # ""
      [] d = "fallible action" -> \E p \in Prods(its) : p.fallible }

(***************************************************************************)
(* Well-formed texts to start from.                                        *)
(***************************************************************************)
T(x) == [ t |-> "t", name |-> x, named |-> FALSE, rep |-> "" ]
N(x) == [ t |-> "n", name |-> x, named |-> FALSE, rep |-> "" ]
Nm(s) == [ s EXCEPT !.named = TRUE ]
P(ss) == [ syms |-> ss, fallible |-> FALSE ]
Enum(ts) == [ k |-> "enum", name |-> "T", pub |-> FALSE, terms |-> ts, prods |-> <<>> ]
NTm(x, pub, ps) == [ k |-> "nt", name |-> x, pub |-> pub, prods |-> ps, terms |-> <<>> ]
Type(x) == [ k |-> "type", name |-> x, pub |-> FALSE, prods |-> <<>>, terms |-> <<>> ]

Bases == <<
  << Enum(<< "a" >>), NTm("S", TRUE, << P(<< T("a") >>) >>) >>,
  << NTm("S", TRUE, << P(<< T("a"), Nm(N("B")) >>), P(<< T("b") >>) >>), Enum(<< "a", "b", "c", "dup", "extra" >>),
     NTm("B", FALSE, << P(<< Nm(T("c")) >>), P(<< T("b"), N("B") >>) >>) >>,
  << Type("State"), NTm("E", TRUE, << P(<< N("E"), T("+"), N("F") >>), P(<< N("F") >>) >>),
     NTm("F", TRUE, << P(<< T("("), Nm(N("E")), T(")") >>), P(<< Nm(T("id")) >>) >>),
     Enum(<< "+", "(", "extra", ")", "id", "dup" >>) >>,
  << Enum(<< "extra", "a", "dup", "b" >>), NTm("S", TRUE, << P(<<>>) >>), NTm("U", FALSE, << P(<< T("a"), N("U") >>), P(<< T("b") >>) >>) >>,
  << NTm("S", TRUE, << P(<<>>), P(<< T("a"), N("S1") >>) >>), NTm("S1", FALSE, << P(<< T("b") >>) >>),
     Enum(<< "a", "b", "extra", "dup" >>), Type("State") >>,
  << NTm("A", FALSE, << P(<< T("x") >>) >>), NTm("B", FALSE, << P(<< T("y") >>) >>), Enum(<< "dup", "extra", "x", "y", "z" >>),
     NTm("S", TRUE, << P(<< N("A"), N("B") >>), P(<< T("z"), Nm(N("A")), Nm(T("x")) >>) >>), NTm("Q", TRUE, << P(<< N("B") >>) >>) >> >>

\* A text with many of everything.
BigT(i) == "t" \o ToString(i)
BigN(i) == "N" \o ToString(i)
BigText ==
  << Enum([ i \in 1 .. 70 |-> IF i = 69 THEN "extra" ELSE IF i = 70 THEN "dup" ELSE BigT(i) ]), Type("State") >> \o
  [ i \in 1 .. 40 |->
      NTm(BigN(i), i % 7 = 1,
          << P(<< T(BigT(i)), Nm(N(BigN((i % 40) + 1))), T(BigT(i + 22)) >>),
             P(<< Nm(T(BigT(1))), T(BigT(2)), T(BigT(3)), Nm(T(BigT(4))), T(BigT(5)), T(BigT(6)), T(BigT(7)), T(BigT(8)),
                  T(BigT(9)), T(BigT(10)), Nm(T(BigT(11))), T(BigT(12)), T(BigT(((i + 18) % 19) + 1)) >>),
             P(<< T("dup"), T(BigT(63)) >>) >>) ]

(***************************************************************************)
(* Defects.  Replace and Insert are the elementary edits.                  *)
(***************************************************************************)
InsertAt(s, i, x) == SubSeq(s, 1, i) \o << x >> \o SubSeq(s, i + 1, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

AddItem(x) == \E i \in 0 .. Len(items) : items' = InsertAt(items, i, x)

DropEnum     == \E i \in Of(items, "enum") : items' = RemoveAt(items, i)
SecondEnum   == \E i \in Of(items, "enum") :
                  \E ts \in { items[i].terms, <<>>, << "fresh" >>, IF items[i].terms = <<>> THEN <<>> ELSE << items[i].terms[1] >> } : AddItem(Enum(ts))
SameTerminal == \E i \in Of(items, "enum") : \E a \in DOMAIN items[i].terms : \E b \in 0 .. Len(items[i].terms) :
                  items' = [ items EXCEPT ![i].terms = InsertAt(@, b, items[i].terms[a]) ]
SameNT       == \E i \in Of(items, "nt") : \E p \in BOOLEAN :
                  \E ps \in { items[i].prods, << P(<< T("dup") >>) >>, <<>> } :
                    AddItem(NTm(items[i].name, p, ps))
SecondState  == \/ Of(items, "type") # {} /\ AddItem(Type("State"))
                \/ \E k \in 0 .. Len(items) : \E j \in 0 .. Len(items) + 1 :
                     Of(items, "type") = {} /\ items' = InsertAt(InsertAt(items, k, Type("State")), j, Type("State"))
UnknownType  == \E x \in { "Error", "Location", "state", "STATE", "States", "Stat", "Token", "S", "Loc", "LexerError",
                             "Lexer", "Span", "Input", "Output", "UserState", "Context", "T", "Err", "Tok", "Type", "Extern" } : AddItem(Type(x))

\* Names that could be mistaken for declared ones.
NearT(x) == { "undeclared", x \o " ", "A", "S", "T", "" }
NearN(x) == { "Undeclared", x \o "1", x \o "11", x \o "0", "T", "a", "Token0" }

EditSym(f(_)) ==
  \E i \in Of(items, "nt") : \E j \in DOMAIN items[i].prods : \E m \in DOMAIN items[i].prods[j].syms :
    \E s \in f(items[i].prods[j].syms[m]) : items' = [ items EXCEPT ![i].prods[j].syms[m] = s ]
NewSym(S) ==
  \E i \in Of(items, "nt") : \E j \in DOMAIN items[i].prods : \E m \in 0 .. Len(items[i].prods[j].syms) :
    \E s \in S : items' = [ items EXCEPT ![i].prods[j].syms = InsertAt(@, m, s) ]
NewProd(S) ==
  \E i \in Of(items, "nt") : \E j \in 0 .. Len(items[i].prods) :
    \E p \in S : items' = [ items EXCEPT ![i].prods = InsertAt(@, j, p) ]

Undeclared == { T("undeclared"), Nm(T("Undeclared")), N("Undeclared"), Nm(N("undeclared")) }

WrongTerminal == EditSym(LAMBDA s : { [ s EXCEPT !.t = "t", !.name = x ] : x \in NearT(s.name) })
WrongNT       == EditSym(LAMBDA s : { [ s EXCEPT !.t = "n", !.name = x ] : x \in NearN(IF s.t = "n" THEN s.name ELSE "S") })
ExtraSymbol   == NewSym(Undeclared)
ExtraProd     == NewProd({ P(<< s >>) : s \in Undeclared })
Repetition    == EditSym(LAMBDA s : { [ s EXCEPT !.rep = r ] : r \in { "+", "*", "?", "+?", "++", "**", "?*" } })
Fallible      == \/ \E i \in Of(items, "nt") : \E j \in DOMAIN items[i].prods :
                      items' = [ items EXCEPT ![i].prods[j].fallible = TRUE ]
                 \/ NewProd({ [ P(<< T("extra") >>) EXCEPT !.fallible = TRUE ] })

Break == \/ DropEnum \/ SecondEnum \/ SameTerminal \/ SameNT \/ SecondState \/ UnknownType
         \/ WrongTerminal \/ WrongNT \/ ExtraSymbol \/ ExtraProd \/ Repetition \/ Fallible

\* Moving items around makes nothing wrong and nothing right.
Move == \E i, j \in DOMAIN items : i # j /\ items' = InsertAt(RemoveAt(items, i), j - 1, items[i])

Work == ndJsonDeserialize("work.ndjson")

Init == /\ n = 0 /\ moves = 0
        /\ \/ /\ Mode = "generate"
              /\ base \in DOMAIN Bases
              /\ items = Bases[base]
           \/ /\ Mode = "big"
              /\ base = 0
              /\ items = BigText
           \/ /\ Mode = "judge"
              /\ base \in 1 .. Len(Work)
              /\ items = Work[base].items

Next == /\ Mode \in { "generate", "big" }
        /\ \/ /\ n = 0 /\ moves < MaxMoves /\ Move
              /\ moves' = moves + 1 /\ UNCHANGED << n, base >>
           \/ /\ n < MaxDefects /\ Break
              /\ n' = n + 1 /\ UNCHANGED << moves, base >>

Spec == Init /\ [][Next]_vars

View == << items, n >>

(***************************************************************************)
(* Checked.                                                                *)
(***************************************************************************)
WellFormedStart == (Mode # "judge" /\ n = 0) => Defects(items) = {}

\* Prints the texts.
Emit == Mode # "judge" =>
          PrintT("@@" \o ToJson([ base |-> base, n |-> n, items |-> items, defects |-> Defects(items) ]))

\* In simulations, where TLC evaluates invariants in all successors of the states it visits.
EmitSome == RandomElement(1 .. 100) = 1 => Emit

EmitFew == (n = 0 \/ RandomElement(1 .. 400) = 1) => Emit

Judge == Mode = "judge" =>
           IF Defects(items) # {} /\ Work[base].verdict = "accepted"
           THEN PrintT("@@" \o ToJson([ id |-> Work[base].id, why |-> "accepted although malformed", defects |-> Defects(items) ]))
           ELSE PrintT("@@" \o ToJson([ done |-> base ]))
=============================================================================
