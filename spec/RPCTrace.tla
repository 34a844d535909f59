------------------------------ MODULE RPCTrace ------------------------------
(***************************************************************************)
(* What the procedure call thread promises its callers, as a monitor over  *)
(* recorded runs of the real one.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i,
          calls,    \* n -> [ by, at, state: "asked" "running" "done", how, ret ]
          running,  \* the call that is being executed, 0 if none
          phase,    \* "new" "starting" "started"
          ending,   \* somebody asked the thread to end, or it had a fatal error
          ended,    \* somebody saw that it ended
          joins,    \* who is joining -> the phase when that began
          viol

vars == <<ti, i, calls, running, phase, ending, ended, joins, viol>>

Put(f, x, v) == (x :> v) @@ f

Init ==
  /\ ti \in 1..Len(Traces)
  /\ i = 1
  /\ calls = <<>> /\ running = 0 /\ phase = "new" /\ ending = FALSE /\ ended = FALSE /\ joins = <<>> /\ viol = {}

Evs == Traces[ti].ev
E == Evs[i]
V(clause, n) == [ clause |-> clause, at |-> i, n |-> n ]
If(c, v) == IF c THEN { v } ELSE {}

Call ==
  /\ E.e = "call"
  /\ calls' = Put(calls, E.n, [ by |-> E.th, state |-> "asked", how |-> "", ret |-> "",
                                (* what must come of it, as far as is known now *)
                                sure |-> phase = "started" /\ ~ending,
                                never |-> ended ])
  /\ UNCHANGED <<running, phase, ending, ended, joins, viol>>

Exec ==
  /\ E.e = "exec"
  /\ LET n == E.n IN
     /\ calls' = [ calls EXCEPT ![n].state = "running" ]
     /\ running' = n
     /\ viol' = viol
          \cup If(running # 0, V("parallel", n))
          \cup If(E.th # "rpc", V("elsewhere", n))
          \cup If(calls[n].state # "asked", V("twice", n))
          \cup If(calls[n].never \/ ended, V("late", n))
          \cup If(calls[n].ret # "" /\ calls[n].ret # "int", V("answered", n))
          \cup If(\E m \in DOMAIN calls : m > n /\ calls[m].by = calls[n].by /\ calls[m].state # "asked",
                  V("order", n))
  /\ UNCHANGED <<phase, ending, ended, joins>>

Done ==
  /\ E.e = "done"
  /\ calls' = [ calls EXCEPT ![E.n].state = "done", ![E.n].how = E.how ]
  /\ running' = 0
  /\ ending' = (ending \/ E.how = "fatal")
  /\ UNCHANGED <<phase, ended, joins, viol>>

Ret ==
  /\ E.e = "ret"
  /\ LET n == E.n K == calls[n] IN
     /\ calls' = [ calls EXCEPT ![n].ret = E.how ]
     /\ viol' = viol
          \cup If(E.how \in {"ok", "exc"} /\ (~E.mine \/ K.state # "done"), V("wrong", n))
          \cup If(E.how = "ok" /\ K.how # "ok", V("swallowed", n))
          \cup If(E.how = "exc" /\ K.how \notin {"exc", "fatal"}, V("wrong", n))
          \cup If(E.how = "norun" /\ K.state # "asked", V("wrong", n))
          \cup If(E.how = "norun" /\ phase = "started" /\ K.sure /\ ~ending, V("refused", n))
          \cup If(E.how = "other", V("failed", n))
          \cup If(E.how # "norun" /\ E.how # "other" /\ K.never, V("accepted", n))
  /\ UNCHANGED <<running, phase, ending, ended, joins>>

Start ==
  /\ E.e \in {"start", "started"}
  /\ phase' = IF E.e = "start" THEN "starting" ELSE "started"
  /\ ending' = (ending \/ DOMAIN joins # {})
  /\ UNCHANGED <<calls, running, ended, joins, viol>>

Join ==
  /\ E.e = "join"
  /\ ending' = (ending \/ phase # "new")
  /\ joins' = Put(joins, E.th, phase)
  /\ UNCHANGED <<calls, running, phase, ended, viol>>

Joined ==
  /\ E.e = "joined"
  /\ ended' = (ended \/ (phase = "started" /\ ~E.alive))
  /\ viol' = viol \cup If(E.alive /\ ~E.timeout /\ joins[E.th] = "started", V("alive", 0))
  /\ joins' = [ t \in DOMAIN joins \ {E.th} |-> joins[t] ]
  /\ UNCHANGED <<calls, running, phase, ending>>

Fin ==
  /\ E.e = "fin"
  /\ viol' = viol
       \cup { V("unanswered", n) : n \in { m \in DOMAIN calls : calls[m].ret = "" } }
       \* Interrupting the caller does not take back the call.
       \cup { V("lost", n) : n \in { m \in DOMAIN calls : calls[m].ret = "int" /\ calls[m].state = "asked" /\
                                       ~\E k \in DOMAIN calls : calls[k].how = "fatal" } }
  /\ UNCHANGED <<calls, running, phase, ending, ended, joins>>

Dead ==
  /\ E.e \in {"dead", "idle"}
  /\ viol' = viol \cup (IF E.e = "dead" THEN { V(E.why, 0) } ELSE {})
  /\ UNCHANGED <<calls, running, phase, ending, ended, joins>>

Step ==
  /\ i <= Len(Evs)
  /\ i' = i + 1
  /\ ti' = ti
  /\ Call \/ Exec \/ Done \/ Ret \/ Start \/ Join \/ Joined \/ Fin \/ Dead
  /\ (i' > Len(Evs)) =>
       PrintT("RESULT " \o ToJson([ id |-> Traces[ti].id, events |-> Len(Evs), viol |-> SetToSeq(viol') ]))

Spec == Init /\ [][Step]_vars
=============================================================================
