------------------------------ MODULE SchedModel ------------------------------
(***************************************************************************)
(* How fbuild's scheduler works (sched.py): the queue of ready tasks       *)
(* (last in, first out), the controlling lock, the queues on which maps    *)
(* wait for their tasks, and the stacks of the threads.  A worker that     *)
(* maps something itself works on other tasks while it waits.              *)
(*                                                                         *)
(* One action is what a thread does from one operation on a queue or a     *)
(* lock to the next.  The program that the threads run is given as data.   *)
(* TLC explores all schedules of small programs (Mutex, Once, Finished,    *)
(* and that all threads end), and draws random ones of larger programs;    *)
(* those leave a trace that SchedTrace judges and that the real code is    *)
(* made to follow.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

P == ndJsonDeserialize(IOEnv.PROGRAM)[1]
Logging == IOEnv.LOGGING = "1"

Workers == 1..P.workers
Main == P.workers + 1
Clients == Main..(P.workers + Len(P.clients))
Threads == Workers \cup Clients
Tasks == 1..Len(P.tasks)
Evals == 1..Len(P.evals)

WAKEUP == 0              \* what shutdown() puts into the queue
NOTHING == 9999          \* the queue was empty
LOOP == 1000             \* the errors for dependency loops

VARIABLES
  ready,                 \* the queue of ready tasks; the last is taken first
  lock,                  \* who has the controlling lock, or 0
  fin,                   \* the workers that were told to end
  ended,                 \* the threads that have ended
  stk,                   \* thread -> its frames
  dq,                    \* evaluation -> the finished tasks it was not told of
  cnt,                   \* evaluation -> how many of its tasks are under way
  res,                   \* evaluation -> how many tasks it has the results of
  done,                  \* tasks that are done, or cancelled
  running,               \* tasks that were queued
  exc,                   \* task -> the error it raised, or 0
  begun,                 \* task -> how often it was begun (up to 2)
  over,                  \* tasks that came to their end
  ev                     \* the trace
vars == <<ready, lock, fin, ended, stk, dq, cnt, res, done, running, exc, begun, over, ev>>

Frame(k, pc, n) == [ k |-> k, pc |-> pc, n |-> n, i |-> 1, r |-> 0, b |-> <<>> ]

Init ==
  /\ ready = <<>> /\ lock = 0 /\ fin = {} /\ ended = {}
  /\ stk = [ t \in Threads |-> << IF t \in Workers THEN Frame("loop", "chk", 0) ELSE Frame("client", "op", t - P.workers) >> ]
  /\ dq = [ e \in Evals |-> <<>> ] /\ cnt = [ e \in Evals |-> 0 ] /\ res = [ e \in Evals |-> 0 ]
  /\ done = {} /\ running = {} /\ over = {}
  /\ exc = [ x \in Tasks |-> 0 ] /\ begun = [ x \in Tasks |-> 0 ]
  /\ ev = <<>>

(* --------------------------------------------------------------- helpers *)

Top(t) == Last(stk[t])
Set(t, f) == stk' = [ stk EXCEPT ![t] = Append(Front(@), f) ]
Goto(t, pc) == Set(t, [ Top(t) EXCEPT !.pc = pc ])
Call(t, pc, f) == stk' = [ stk EXCEPT ![t] = Append(Append(Front(@), [ Top(t) EXCEPT !.pc = pc ]), f) ]
(* Return to the frame below with r. *)
Return(t, r) ==
  stk' = [ stk EXCEPT ![t] = LET s == Front(@) IN Append(Front(s), [ Last(s) EXCEPT !.r = r ]) ]

Name(t) == (IF t \in Workers THEN "w" ELSE "c") \o ToString(t)
(* Events of all kinds have the same fields, and those that they need. *)
Event(t, e) == e @@ [ th |-> Name(t), wk |-> t \in Workers ]
Log(t, es) == ev' = IF Logging THEN ev \o [ j \in 1..Len(es) |-> Event(t, es[j]) ] ELSE ev
Quiet == ev' = ev

(* Operations on a queue, and that the lock is taken: not seen by the tasks,
   but told to those that are to follow. *)
Queue(t) == Log(t, << [ e |-> "q" ] >>)
Lock(t, does) == IF does THEN Log(t, << [ e |-> "l" ] >>) ELSE ev' = ev

Ready(x) == x \notin running /\ x \notin done /\ ToSet(P.tasks[x].deps) \subseteq done
Ops(f) == IF f.k = "client" THEN P.clients[f.n] ELSE P.tasks[f.n].ops

(* -------------------------------------------------- bodies, and clients *)

OpenOut(b) == b # <<>> /\ Last(b)

Op(t) ==
  LET f == Top(t)
      ops == Ops(f)
      op == ops[f.i]
      src == [ m |-> P.tasks[f.n].m, src |-> P.tasks[f.n].src ]
  IN
  IF f.i > Len(ops) THEN
    IF f.k = "client" THEN Goto(t, "idle") /\ Log(t, << [ e |-> "idle" ] >>) /\ UNCHANGED <<lock, exc, over>>
    ELSE /\ Return(t, 0) /\ over' = over \cup {f.n}
         /\ Log(t, << src @@ [ e |-> "end", how |-> "ok", x |-> 0, v |-> f.n ] >>) /\ UNCHANGED <<lock, exc>>
  ELSE
    /\ UNCHANGED <<lock, exc, over>>
    /\ CASE op.o = "tick" -> Goto(t, "tick") /\ Log(t, << [ e |-> "tick" ] >>)
         [] op.o = "in" -> Goto(t, "rel") /\ Log(t, << [ e |-> "int" ] >>)
         [] op.o = "out" -> Goto(t, "acq") /\ Log(t, << [ e |-> "leave" ] >>)
         [] op.o = "raise" -> Set(t, [ f EXCEPT !.r = f.n, !.pc = "unw" ]) /\ Quiet
         [] op.o = "map" -> Call(t, "ret", Frame("map", "go", op.m))
                            /\ Log(t, << [ e |-> "map", m |-> op.m, kind |-> P.maps[op.m].kind, inputs |-> P.maps[op.m].inputs,
                                           deps |-> P.maps[op.m].deps ] >>)

Body(t) ==
  LET f == Top(t)
      ops == Ops(f)
      src == [ m |-> P.tasks[f.n].m, src |-> P.tasks[f.n].src ]
  IN
  /\ UNCHANGED <<ready, fin, ended, dq, cnt, res, done, running, begun>>
  /\ CASE f.pc = "op" -> Op(t)
       [] f.pc = "tick" -> Set(t, [ f EXCEPT !.pc = "op", !.i = @ + 1 ]) /\ Log(t, << [ e |-> "tick" ] >>) /\ UNCHANGED <<lock, exc, over>>
       [] f.pc = "rel" -> /\ lock' = IF lock = t THEN 0 ELSE lock
                          /\ Set(t, [ f EXCEPT !.pc = "ins", !.b = Append(@, lock = t) ])
                          /\ Quiet /\ UNCHANGED <<exc, over>>
       [] f.pc = "ins" -> Set(t, [ f EXCEPT !.pc = "op", !.i = @ + 1 ]) /\ Log(t, << [ e |-> "inside" ] >>) /\ UNCHANGED <<lock, exc, over>>
       [] f.pc \in {"acq", "unwacq"} ->
            /\ OpenOut(f.b) => lock = 0
            /\ lock' = IF OpenOut(f.b) THEN t ELSE lock
            /\ Goto(t, IF f.pc = "acq" THEN "back" ELSE "unwback") /\ Lock(t, OpenOut(f.b)) /\ UNCHANGED <<exc, over>>
       [] f.pc = "back" -> Set(t, [ f EXCEPT !.pc = "op", !.i = @ + 1, !.b = Front(@) ]) /\ Log(t, << [ e |-> "back" ] >>)
                           /\ UNCHANGED <<lock, exc, over>>
       [] f.pc = "unwback" -> Set(t, [ f EXCEPT !.pc = "unw", !.b = Front(@) ]) /\ Log(t, << [ e |-> "back" ] >>) /\ UNCHANGED <<lock, exc, over>>
       [] f.pc = "ret" ->       \* from a map
            /\ Quiet /\ UNCHANGED <<lock, exc, over>>
            /\ IF f.r = 0 \/ ops[f.i].c THEN Set(t, [ f EXCEPT !.pc = "op", !.i = @ + 1, !.r = 0 ]) ELSE Goto(t, "unw")
       [] f.pc = "unw" ->       \* an error goes through
            IF f.b # <<>> THEN Goto(t, "unwacq") /\ Quiet /\ UNCHANGED <<lock, exc, over>>
            ELSE IF f.k = "client" THEN Goto(t, "idle") /\ Log(t, << [ e |-> "idle" ] >>) /\ UNCHANGED <<lock, exc, over>>
            ELSE /\ exc' = [ exc EXCEPT ![f.n] = f.r ] /\ over' = over \cup {f.n} /\ UNCHANGED lock
                 /\ Return(t, 0)
                 /\ Log(t, << src @@ [ e |-> "end", how |-> "exc", x |-> f.r, v |-> 0 ] >>)

(* ------------------------------------------------------------------ maps *)

Map(t) ==
  LET f == Top(t)
      M == P.maps[f.n]
  IN
  /\ UNCHANGED <<ready, lock, fin, ended, dq, cnt, res, done, running, exc, begun, over>>
  /\ CASE f.pc = "go" ->
            IF f.i <= Len(M.evals) THEN Call(t, "ret", Frame("eval", "init", M.evals[f.i])) /\ Quiet
            ELSE Return(t, 0) /\ Log(t, << [ e |-> "mapret", m |-> f.n, how |-> "ok", x |-> 0, vals |-> M.order, named |-> <<>> ] >>)
       [] f.pc = "ret" ->
            IF f.r = 0 THEN Set(t, [ f EXCEPT !.pc = "go", !.i = @ + 1 ]) /\ Quiet
            ELSE LET loop == f.r > LOOP /\ (f.r - LOOP) \in ToSet(M.evals) IN
                 Return(t, f.r) /\ Log(t, << [ e |-> "mapret", m |-> f.n, how |-> IF loop THEN "loop" ELSE "exc", x |-> f.r, vals |-> <<>>,
                                               named |-> IF loop THEN M.named ELSE <<>> ] >>)

(* Scheduler._evaluate *)
Eval(t) ==
  LET f == Top(t)
      e == f.n
      T == P.evals[e].tasks
      Same == UNCHANGED <<fin, ended, exc, begun, over>>
      kids(x) == SelectSeq(T, LAMBDA y : x \in ToSet(P.tasks[y].deps))
      list == IF f.pc = "init" THEN T ELSE kids(f.r)
  IN
  /\ Same
  /\ CASE f.pc \in {"init", "kids"} ->
            /\ UNCHANGED <<lock, dq, res, done>>
            /\ IF f.i > Len(list) THEN Set(t, [ f EXCEPT !.pc = "loop", !.i = 1, !.r = 0 ]) /\ Quiet /\ UNCHANGED <<ready, cnt, running>>
               ELSE IF Ready(list[f.i]) THEN
                      /\ ready' = Append(ready, list[f.i]) /\ cnt' = [ cnt EXCEPT ![e] = @ + 1 ] /\ running' = running \cup { list[f.i] }
                      /\ Set(t, [ f EXCEPT !.i = @ + 1 ]) /\ Queue(t)
               ELSE Set(t, [ f EXCEPT !.i = @ + 1 ]) /\ Quiet /\ UNCHANGED <<ready, cnt, running>>
       [] f.pc = "loop" ->
            /\ UNCHANGED <<ready, lock, dq, cnt, res, done, running>> /\ Quiet
            /\ IF cnt[e] # 0 THEN Goto(t, IF t \in Workers THEN "rel" ELSE "wait")
               ELSE Return(t, IF res[e] # Len(T) THEN LOOP + e ELSE 0)
       [] f.pc = "wait" ->        \* not a worker: waits until one of its tasks is done
            /\ dq[e] # <<>>
            /\ Goto(t, "got") /\ Queue(t) /\ UNCHANGED <<ready, lock, dq, cnt, res, done, running>>
       [] f.pc = "rel" ->
            /\ lock' = IF lock = t THEN 0 ELSE lock
            /\ Set(t, [ f EXCEPT !.pc = "take", !.b = << lock = t >> ]) /\ Quiet /\ UNCHANGED <<ready, dq, cnt, res, done, running>>
       [] f.pc = "take" ->
            /\ IF ready = <<>> THEN ready' = ready /\ Set(t, [ f EXCEPT !.pc = "acq", !.r = NOTHING ])
               ELSE ready' = Front(ready) /\ Set(t, [ f EXCEPT !.pc = "acq", !.r = Last(ready) ])
            /\ Queue(t) /\ UNCHANGED <<lock, dq, cnt, res, done, running>>
       [] f.pc = "acq" ->
            /\ OpenOut(f.b) => lock = 0
            /\ lock' = IF OpenOut(f.b) THEN t ELSE lock
            /\ IF f.r = NOTHING THEN Goto(t, "look") ELSE Call(t, "look", Frame("one", "chk", f.r))
            /\ Lock(t, OpenOut(f.b)) /\ UNCHANGED <<ready, dq, cnt, res, done, running>>
       [] f.pc = "look" -> Goto(t, IF dq[e] = <<>> THEN "loop" ELSE "got") /\ Queue(t) /\ UNCHANGED <<ready, lock, dq, cnt, res, done, running>>
       [] f.pc = "got" ->
            LET x == Head(dq[e]) IN
            /\ dq' = [ dq EXCEPT ![e] = Tail(@) ] /\ cnt' = [ cnt EXCEPT ![e] = @ - 1 ]
            /\ IF exc[x] # 0 THEN done' = done \cup ToSet(T) /\ res' = res /\ Return(t, exc[x])
               ELSE done' = done \cup {x} /\ res' = [ res EXCEPT ![e] = @ + 1 ] /\ Set(t, [ f EXCEPT !.pc = "kids", !.r = x, !.i = 1 ])
            /\ Quiet /\ UNCHANGED <<ready, lock, running>>

(* --------------------------------------------------------------- workers *)

(* WorkerThread.run_one *)
One(t) ==
  LET f == Top(t)
      x == f.n
      T == P.tasks[x]
      src == [ m |-> T.m, src |-> T.src ]
  IN
  /\ UNCHANGED <<ready, lock, fin, ended, cnt, res, done, running>>
  /\ CASE f.pc = "chk" ->
            /\ UNCHANGED <<dq, exc, begun, over>> /\ Quiet
            /\ IF x = WAKEUP THEN Return(t, 1) ELSE IF x \in done THEN Return(t, 0) ELSE Goto(t, "run")
       [] f.pc = "run" ->
            /\ begun' = [ begun EXCEPT ![x] = IF @ = 2 THEN 2 ELSE @ + 1 ] /\ UNCHANGED dq
            /\ (CASE T.dep = 0 -> Call(t, "put", Frame("body", "op", x)) /\ Log(t, << src @@ [ e |-> "begin" ] >>) /\ UNCHANGED <<exc, over>>
                 [] T.dep = 1 -> /\ Goto(t, "put") /\ over' = over \cup {x} /\ UNCHANGED exc
                                 /\ Log(t, << src @@ [ e |-> "dep" ], src @@ [ e |-> "depend" ] >>)
                 [] T.dep = 2 -> /\ Goto(t, "put") /\ over' = over \cup {x} /\ exc' = [ exc EXCEPT ![x] = x ]
                                 /\ Log(t, << src @@ [ e |-> "dep" ], src @@ [ e |-> "depx", x |-> x ] >>))
       [] f.pc = "put" ->
            /\ dq' = [ dq EXCEPT ![T.e] = Append(@, x) ] /\ Return(t, 0) /\ Queue(t) /\ UNCHANGED <<exc, begun, over>>

(* WorkerThread.run *)
Loop(t) ==
  LET f == Top(t) IN
  /\ UNCHANGED <<fin, dq, cnt, res, done, running, exc, begun, over>>
  /\ IF f.pc = "get" \/ (f.pc = "end" /\ t \in fin) THEN Queue(t) ELSE Lock(t, f.pc = "lock")
  /\ CASE f.pc = "chk" -> Goto(t, IF t \in fin THEN "end" ELSE "get") /\ UNCHANGED <<ready, lock, ended>>
       [] f.pc = "get" -> /\ ready # <<>> /\ ready' = Front(ready) /\ Set(t, [ f EXCEPT !.pc = "lock", !.n = Last(ready) ])
                          /\ UNCHANGED <<lock, ended>>
       [] f.pc = "lock" -> lock = 0 /\ lock' = t /\ Call(t, "after", Frame("one", "chk", f.n)) /\ UNCHANGED <<ready, ended>>
       [] f.pc = "after" -> lock' = 0 /\ Goto(t, IF f.r = 1 THEN "end" ELSE "chk") /\ UNCHANGED <<ready, ended>>
       [] f.pc = "end" -> /\ ready' = IF t \in fin THEN Append(ready, WAKEUP) ELSE ready
                          /\ ended' = ended \cup {t} /\ stk' = [ stk EXCEPT ![t] = <<>> ] /\ UNCHANGED lock

(* -------------------------------------------------------------- shutdown *)

Closing(t) ==
  LET f == Top(t)
      k == f.i
  IN
  /\ UNCHANGED <<lock, dq, cnt, res, done, running, exc, begun, over>>
  /\ CASE f.pc = "idle" ->
            IF t # Main THEN ended' = ended \cup {t} /\ stk' = [ stk EXCEPT ![t] = <<>> ] /\ Quiet /\ UNCHANGED <<ready, fin>>
            ELSE /\ Clients \ {Main} \subseteq ended
                 /\ Set(t, [ f EXCEPT !.pc = "flag", !.i = 1, !.r = 1 ]) /\ Log(t, << [ e |-> "shut" ] >>) /\ UNCHANGED <<ready, fin, ended>>
       [] f.pc = "flag" -> IF k > P.workers \/ f.r > 1 THEN Set(t, [ f EXCEPT !.pc = "put", !.i = 1 ]) /\ Quiet /\ UNCHANGED <<ready, fin, ended>>
                           ELSE fin' = fin \cup {k} /\ Set(t, [ f EXCEPT !.i = @ + 1 ]) /\ Quiet /\ UNCHANGED <<ready, ended>>
       [] f.pc = "put" -> IF k > P.workers \/ f.r > 1 THEN Set(t, [ f EXCEPT !.pc = "join", !.i = 1 ]) /\ Quiet /\ UNCHANGED <<ready, fin, ended>>
                          ELSE ready' = Append(ready, WAKEUP) /\ Set(t, [ f EXCEPT !.i = @ + 1 ]) /\ Queue(t) /\ UNCHANGED <<fin, ended>>
       [] f.pc = "join" -> IF k > P.workers \/ f.r > 1
                           THEN Goto(t, "shutdone") /\ Log(t, << [ e |-> "shutdone", alive |-> Cardinality(Workers \ ended) ] >>) /\ UNCHANGED <<ready, fin, ended>>
                           ELSE k \in ended /\ Set(t, [ f EXCEPT !.i = @ + 1 ]) /\ Quiet /\ UNCHANGED <<ready, fin, ended>>
       [] f.pc = "shutdone" ->
            IF f.r < P.shutdowns THEN Set(t, [ f EXCEPT !.pc = "flag", !.i = 1, !.r = @ + 1 ]) /\ Log(t, << [ e |-> "shut" ] >>) /\ UNCHANGED <<ready, fin, ended>>
            ELSE ended' = ended \cup {t} /\ stk' = [ stk EXCEPT ![t] = <<>> ] /\ Log(t, << [ e |-> "fin" ] >>) /\ UNCHANGED <<ready, fin>>

(* ------------------------------------------------------------------------ *)

Do(t) ==
  /\ stk[t] # <<>>
  /\ LET f == Top(t) IN
     CASE f.k = "client" /\ f.pc \in {"idle", "flag", "put", "join", "shutdone"} -> Closing(t)
       [] f.k \in {"client", "body"} -> Body(t)
       [] f.k = "map" -> Map(t)
       [] f.k = "eval" -> Eval(t)
       [] f.k = "one" -> One(t)
       [] f.k = "loop" -> Loop(t)

AllEnded == ended = Threads
Over == AllEnded /\ UNCHANGED vars

Next == (\E t \in Threads : Do(t)) \/ Over
Walk == \E t \in Threads : Do(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Do(t))

(* ------------------------------------------------------------- properties *)

(* Runs code of a task that is in no interruptible block. *)
Open(t) == \E j \in 1..Len(stk[t]) : stk[t][j].k = "body" /\ stk[t][j].b # <<>>
Exclusive(t) == t \in Workers /\ stk[t] # <<>> /\ Top(t).k = "body" /\ ~Open(t) /\ Top(t).pc \in {"op", "tick", "ret", "unw"}
Mutex == \A t, u \in Threads : Exclusive(t) /\ Exclusive(u) => t = u

Once == \A x \in Tasks : begun[x] <= 1

(* A task begins after those it depends on. *)
Order == \A x \in Tasks : begun[x] > 0 => ToSet(P.tasks[x].deps) \subseteq over

(* When an evaluation has succeeded, all of its tasks are over. *)
Complete == \A t \in Threads : stk[t] # <<>> /\ Top(t).k = "eval" /\ Top(t).pc = "loop" /\ cnt[Top(t).n] = 0
              => \A x \in ToSet(P.evals[Top(t).n].tasks) : x \in over \/ x \notin running

Ends == <>AllEnded

(* For random behaviours: what was seen, when all is over. *)
Emit == (AllEnded /\ Logging) => PrintT("HIST " \o ToJson(ev))
=============================================================================
