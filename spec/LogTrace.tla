------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* What the log promises, as a monitor over recorded runs of the real one. *)
(* A message is what one call of the log writes; blanks and colours are    *)
(* left out of the texts.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i,
          said,     \* the messages so far: [ th, text, verbose, hidden, now, line ]
          viol

vars == <<ti, i, said, viol>>

Init == ti \in 1..Len(Traces) /\ i = 1 /\ said = <<>> /\ viol = {}

Evs == Traces[ti].ev
E == Evs[i]
V(clause, n) == [ clause |-> clause, at |-> i, n |-> n ]
If(c, v) == IF c THEN { v } ELSE {}

(* The text of a message for somebody who reads this much. *)
Text(m, level) ==
  IF m.verbose > level THEN "" ELSE IF m.verbose + 1 > level THEN m.text ELSE m.text \o m.hidden

Places(x, s) == { p \in 1..(Len(s) + 1 - Len(x)) : SubSeq(s, p, p + Len(x) - 1) = x }
ThePlace(x, s) == CHOOSE p \in Places(x, s) : TRUE

RECURSIVE Sum(_, _)
Sum(level, k) == IF k = 0 THEN 0 ELSE Len(Text(said[k], level)) + Sum(level, k - 1)

RECURSIVE Joined(_, _, _)
Joined(line, level, k) ==
  IF k > Len(said) THEN ""
  ELSE (IF said[k].line = line THEN Text(said[k], level) ELSE "") \o Joined(line, level, k + 1)

(* Names of messages are unique, so each text is found once at most. *)
Judge(out, level, where) ==
  LET shown == { k \in 1..Len(said) : Text(said[k], level) # "" }
      found == { k \in shown : Places(Text(said[k], level), out) # {} }
      place == [ k \in found |-> ThePlace(Text(said[k], level), out) ]
  IN { V("missing" \o where, k) : k \in shown \ found }
     \cup { V("repeated" \o where, k) : k \in { k \in found : Cardinality(Places(Text(said[k], level), out)) > 1 } }
     \cup { V("order" \o where, k) : k \in { k \in found :
              \E l \in found : l > k /\ said[l].th = said[k].th /\ ~said[l].now /\ place[l] < place[k] } }
     (* What a task writes until its first line is complete stays together. *)
     \cup { V("split" \o where, l) : l \in { l \in { said[k].line : k \in found } \ {0} :
              found = shown /\ Places(Joined(l, level, 1), out) = {} } }
     \cup If(found = shown /\ Len(out) # Sum(level, Len(said)), V("extra" \o where, 0))

Say ==
  /\ E.e = "say"
  /\ said' = Append(said, E)
  /\ viol' = viol

Err ==
  /\ E.e = "error"
  /\ viol' = viol \cup { V("failed", Len(said)) }
  /\ UNCHANGED said

Fin ==
  /\ E.e = "fin"
  /\ viol' = viol \cup Judge(E.console, E.verbose, "") \cup (IF E.hasfile THEN Judge(E.file, 99, "file") ELSE {})
  /\ UNCHANGED said

Dead ==
  /\ E.e = "dead"
  /\ viol' = viol \cup { V(E.why, 0) }
  /\ UNCHANGED said

Step ==
  /\ i <= Len(Evs)
  /\ i' = i + 1
  /\ ti' = ti
  /\ Say \/ Err \/ Fin \/ Dead
  /\ (i' > Len(Evs)) =>
       PrintT("RESULT " \o ToJson([ id |-> Traces[ti].id, events |-> Len(Evs), viol |-> SetToSeq(viol') ]))

Spec == Init /\ [][Step]_vars
=============================================================================
