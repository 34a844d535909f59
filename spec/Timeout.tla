------------------------------ MODULE Timeout ------------------------------
(***************************************************************************)
(* Commands with timeouts.  A command is a tree of processes: itself (L),  *)
(* children that hold its pipes (h) and such that are free of them (f).    *)
(* It is complete when it has ended and all that hold its pipes have, at   *)
(* its earliest after `planned'.  Times are milliseconds of one clock,     *)
(* recorded by the processes themselves and by the caller.  What is too    *)
(* close to call is not judged.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, what) == [ clause |-> clause, n |-> n, what |-> what ]

Margin == 1500       \* for a busy machine
Patience == 8000

Pids(list) == { list[k].pid : k \in 1..Len(list) }
EndOf(o, p) == o.ends[CHOOSE k \in 1..Len(o.ends) : o.ends[k].pid = p].t

(* Processes that its end depends on. *)
Needed(o) == { o.starts[k].pid : k \in { k \in 1..Len(o.starts) : o.starts[k].role # "f" } }
Completed(o) == Needed(o) # {} /\ Needed(o) \subseteq Pids(o.ends)
At(o) == CHOOSE t \in { EndOf(o, p) : p \in Needed(o) } : \A p \in Needed(o) : EndOf(o, p) <= t

InTime(x, o) == x.timeout = 0 \/ (Completed(o) /\ At(o) <= o.called + x.timeout - Margin)
TooLong(x) == x.timeout > 0 /\ x.planned >= x.timeout + 5000

(* Everything else in the group that holds the lock, one after the other.  *)
RECURSIVE Busy(_, _)
Busy(c, n) == IF n = 0 THEN 0 ELSE c.tasks[n].ms + Busy(c, n - 1)

JudgeCommand(c, n) ==
  LET x == c.tasks[n]
      o == c.got[n]
      kind == IF x.code # 0 /\ ~x.ignore THEN "error" ELSE "ok"
  IN IF o.kind \in { "other", "os", "interrupt" } THEN { V("outcome", n, o.what) }
     ELSE
       (IF InTime(x, o) /\ o.kind = "timeout" THEN { V("blamed", n, "") }
        ELSE IF TooLong(x) /\ o.kind # "timeout" THEN { V("spared", n, o.kind) }
        ELSE IF o.kind # "timeout" /\ (o.kind # kind \/ (kind = "error" /\ o.code # x.code))
          THEN { V(IF o.code = 99 THEN "stuck" ELSE "outcome", n, o.kind) } ELSE {})
       \cup (IF ~o.same THEN { V("command", n, "") } ELSE {})
       \cup (IF o.kind = "timeout"
               THEN (IF o.alive # <<>> THEN { V("alive", n, "") } ELSE {})
                    \cup (IF o.returned > o.called + x.timeout + Busy(c, Len(c.tasks)) + Patience THEN { V("late", n, "") } ELSE {})
               ELSE IF Pids(o.starts) \ (Pids(o.ends) \cup ToSet(o.alive)) # {} THEN { V("killed", n, "") } ELSE {})
       \cup (IF o.zombies # <<>> THEN { V("zombies", n, "") } ELSE {})

Judge(c) ==
  UNION { IF c.tasks[n].what = "command" THEN JudgeCommand(c, n) ELSE {} : n \in 1..Len(c.tasks) }
  \cup (IF c.left > 0 THEN { V("threads", 0, ToString(c.left)) } ELSE {})

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
