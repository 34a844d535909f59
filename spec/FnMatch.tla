------------------------------- MODULE FnMatch -------------------------------
(* Judges what the real fnmatch says of patterns and names. *)
EXTENDS Pattern, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n) == [ clause |-> clause, n |-> n ]

Judge(c) ==
  LET items == Items(c.p)
      good == { n \in 1..Len(c.names) : MatchItems(items, c.names[n]) }
      said == { c.yes[k] : k \in 1..Len(c.yes) }
  IN IF ~Sound(items) THEN {}
     ELSE IF c.error # "" THEN { V("error", 0) }
     ELSE { V("match", n) : n \in said \ good } \cup { V("nomatch", n) : n \in good \ said }
          \cup (IF c.filtered # SelectSeq([ n \in 1..Len(c.names) |-> n ], LAMBDA n : n \in said)
                  THEN { V("filter", 0) } ELSE {})

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
