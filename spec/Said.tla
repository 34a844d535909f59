-------------------------------- MODULE Said --------------------------------
(***************************************************************************)
(* What the console and the log file say about the commands that were run. *)
(* Every text a command is involved in carries marks of its own (the       *)
(* messages, the program and its arguments, the lines it writes), so what  *)
(* is said is a sequence of marks.  A mark is [ n, k, i ]: the i-th of     *)
(* kind k of command n; "x" is the report of the exit status i.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n) == [ clause |-> clause, n |-> n ]

Mark(n, k, i) == [ n |-> n, k |-> k, i |-> i ]
Marks(n, k, m) == [ i \in 1..m |-> Mark(n, k, i) ]

(* The command line: libraries to be found, the program, its arguments.     *)
(* One with spaces is quoted (kind q), others are not (kind a).             *)
Line(x, n) == Marks(n, "l", x.libs) \o <<Mark(n, "p", 1)>> \o [ i \in 1..Len(x.args) |-> Mark(n, x.args[i], i) ]

(* Verbosities that were not given follow `quieter`.                        *)
Or(v, d) == IF v = -1 THEN d ELSE v

Failed(x) == x.status # 0

(* All that is to be said about a command, each with the verbosity from    *)
(* which on it is said.                                                    *)
Parts(x, n) ==
  << [ at |-> 4, marks |-> Line(x, n) ] >>
  \o (IF x.messages = 0 THEN <<>> ELSE << [ at |-> x.quieter, marks |-> Marks(n, "m", x.messages) ] >>)
  \o IF ~x.starts THEN << [ at |-> 0, marks |-> Line(x, n) ] >>
     ELSE << [ at |-> IF Failed(x) THEN x.quieter ELSE 1, marks |-> Line(x, n) ],
             [ at |-> Or(x.oquieter, x.quieter), marks |-> Marks(n, "o", x.out) ],
             [ at |-> Or(x.equieter, x.quieter), marks |-> Marks(n, "e", x.err) ],
             [ at |-> 2, marks |-> << Mark(n, "x", x.status) >> ] >>

Said(x, n, level) == FlattenSeq([ j \in DOMAIN Parts(x, n) |-> IF Parts(x, n)[j].at <= level THEN Parts(x, n)[j].marks ELSE <<>> ])

(* Commands that run one after the other are reported one after the other; *)
(* of those that run at a time, each is on its own.                        *)
Of(n, seq) == SelectSeq(seq, LAMBDA m : m.n = n)
NoExit(seq) == SelectSeq(seq, LAMBDA m : m.k # "x")

JudgeText(c, text, level, where) ==
  { V(where, n) : n \in { n \in 1..Len(c.items) : NoExit(Of(n, text)) # NoExit(Said(c.items[n], n, level)) } }
  \cup IF c.threads > 1 THEN {}
       ELSE LET all == FlattenSeq([ n \in 1..Len(c.items) |-> Said(c.items[n], n, level) ])
                stat(s) == [ j \in DOMAIN s |-> IF s[j].k = "x" THEN [ s[j] EXCEPT !.n = 0 ] ELSE s[j] ]
            IN IF text # stat(all) THEN { V(where, 0) } ELSE {}

Judge(c) == JudgeText(c, c.console, c.level, "console") \cup JudgeText(c, c.file, 1000, "file")

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
Spec == Init /\ [][Step]_<<ti, done>>
=============================================================================
