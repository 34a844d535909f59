----------------------------- MODULE SchedTrace -----------------------------
(***************************************************************************)
(* What the scheduler promises its users, as a monitor over recorded runs  *)
(* of the real scheduler.  One behaviour per trace; what the contract      *)
(* forbids is collected in `viol`.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i, maps, holder, inside, shut, viol

vars == <<ti, i, maps, holder, inside, shut, viol>>

At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
RangeOf(s) == { s[k] : k \in 1..Len(s) }
Count(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x })

Init ==
  /\ ti \in 1..Len(Traces)
  /\ i = 1
  /\ maps = <<>> /\ holder = "" /\ inside = <<>> /\ shut = 0 /\ viol = {}

Evs == Traces[ti].ev
E == Evs[i]
V(clause, m) == [ clause |-> clause, at |-> i, m |-> m,
                  kind |-> IF m \in DOMAIN maps THEN maps[m].kind ELSE "", shut |-> shut ]

(* -------------------------------------------------------- dependency graph *)

Deps(m, s) == { d \in RangeOf(maps[m].deps[s]) : d \in RangeOf(maps[m].inputs) }

RECURSIVE Reach(_, _)
Reach(m, S) == LET T == S \cup UNION { Deps(m, s) : s \in S } IN IF T = S THEN S ELSE Reach(m, T)

OnCycle(m, s) == s \in Reach(m, Deps(m, s))
Cyclic(m) == \E s \in RangeOf(maps[m].inputs) : OnCycle(m, s)

(* Depth first, dependencies before dependents, each input once. *)
RECURSIVE Visit(_, _, _)
RECURSIVE VisitAll(_, _, _, _)
Visit(m, s, seen) ==     \* seen: the visited ones, in order of completion, and the set
  IF s \in seen.set THEN seen
  ELSE LET r == VisitAll(m, SelectSeq(maps[m].deps[s], LAMBDA d : d \in RangeOf(maps[m].inputs)), 1,
                         [ seen EXCEPT !.set = @ \cup {s} ])
       IN [ r EXCEPT !.order = Append(@, s) ]
VisitAll(m, l, k, seen) ==
  IF k > Len(l) THEN seen ELSE VisitAll(m, l, k + 1, Visit(m, l[k], seen))

DepthFirst(m) == VisitAll(m, maps[m].inputs, 1, [ order |-> <<>>, set |-> {} ]).order

(* --------------------------------------------------------------- the lock *)

Worker == E.wk
Locked == Worker /\ At(inside, E.th, 0) = 0
Mutex == IF Locked /\ holder \notin {"", E.th} THEN { V("mutex", 0) } ELSE {}
Take == holder' = IF Locked THEN E.th ELSE holder
Drop == holder' = IF Locked THEN "" ELSE holder

(* ----------------------------------------------------------------- events *)

Map ==
  /\ E.e = "map"
  /\ maps' = Put(maps, E.m, [ kind |-> E.kind, inputs |-> E.inputs, deps |-> E.deps, th |-> E.th,
                              begun |-> <<>>, vals |-> <<>>, excs |-> {}, done |-> {}, open |-> 0,
                              asked |-> {}, ret |-> "", after |-> {} ])
  /\ viol' = viol \cup Mutex
  /\ Drop /\ UNCHANGED <<inside, shut>>

Begin ==
  /\ E.e = "begin"
  /\ LET m == E.m M == maps[m] IN
     /\ maps' = [ maps EXCEPT ![m].begun = Append(@, E.src), ![m].open = @ + 1,
                              ![m].after = IF M.ret = "exc" THEN @ \cup {E.th} ELSE @ ]
     /\ viol' = viol \cup Mutex
          \cup (IF E.src \notin RangeOf(M.inputs) THEN { V("stray", m) } ELSE {})
          \cup (IF Count(M.begun, E.src) >= (IF M.kind = "map" THEN Count(M.inputs, E.src) ELSE 1)
                  THEN { V("twice", m) } ELSE {})
          \cup (IF M.kind = "deps" /\ E.src \in RangeOf(M.inputs) /\ ~(Deps(m, E.src) \subseteq M.done)
                  THEN { V("order", m) } ELSE {})
          \cup (IF M.ret \in {"ok", "loop"} THEN { V("late", m) } ELSE {})
          (* A task that a thread already took may still start. *)
          \cup (IF M.ret = "exc" /\ E.th \in M.after THEN { V("cancelled", m) } ELSE {})
  /\ Take /\ UNCHANGED <<inside, shut>>

EndTask ==
  /\ E.e = "end"
  /\ LET m == E.m IN
     /\ maps' = [ maps EXCEPT ![m].open = @ - 1,
                    ![m].done = IF E.how = "ok" THEN @ \cup {E.src} ELSE @,
                    ![m].vals = IF E.how = "ok" THEN Put(@, E.v, E.src) ELSE @,
                    ![m].excs = IF E.how = "exc" THEN @ \cup {E.x} ELSE @ ]
     /\ viol' = viol \cup Mutex
  /\ Drop /\ UNCHANGED <<inside, shut>>

(* Asking for the dependencies of an input. *)
Dep ==
  /\ E.e \in {"dep", "depend", "depx"}
  /\ LET m == E.m M == maps[m] IN
     /\ maps' = CASE E.e = "dep" -> [ maps EXCEPT ![m].open = @ + 1 ]
                  [] E.e = "depend" -> [ maps EXCEPT ![m].open = @ - 1, ![m].asked = @ \cup {E.src} ]
                  [] OTHER -> [ maps EXCEPT ![m].open = @ - 1, ![m].excs = @ \cup {E.x} ]
     /\ viol' = viol \cup Mutex
          \cup (IF E.e = "dep" /\ M.begun # <<>> THEN { V("order", m) } ELSE {})
  /\ (IF E.e = "dep" THEN Take ELSE Drop) /\ UNCHANGED <<inside, shut>>

MapRet ==
  /\ E.e = "mapret"
  /\ LET m == E.m M == maps[m]
         vs == E.vals
         good(order) == /\ Len(vs) = Len(order)
                        /\ \A k \in 1..Len(vs) : At(M.vals, vs[k], "") = order[k]
                        /\ \A k, l \in 1..Len(vs) : k # l => vs[k] # vs[l]
     IN
     /\ maps' = [ maps EXCEPT ![m].ret = E.how ]
     /\ viol' = viol \cup Mutex
          \cup (IF E.how = "ok" /\ M.kind = "map" /\ ~good(M.inputs) THEN { V("result", m) } ELSE {})
          \cup (IF E.how = "ok" /\ M.kind = "deps" /\ Cyclic(m) THEN { V("noloop", m) } ELSE {})
          \cup (IF E.how = "ok" /\ M.kind = "deps" /\ ~Cyclic(m) /\ ~good(DepthFirst(m)) THEN { V("result", m) } ELSE {})
          \cup (IF E.how = "ok" /\ M.open # 0 THEN { V("early", m) } ELSE {})
          \cup (IF E.how = "ok" /\ M.excs # {} THEN { V("partial", m) } ELSE {})
          \cup (IF E.how = "exc" /\ E.x \notin M.excs THEN { V("wrongexc", m) } ELSE {})
          \cup (IF E.how = "loop" /\ (M.kind # "deps" \/ ~Cyclic(m)) THEN { V("falseloop", m) } ELSE {})
          \cup (IF E.how = "loop" /\ M.kind = "deps" /\ (E.named = <<>> \/ \E s \in RangeOf(E.named) :
                      s \notin RangeOf(M.inputs) \/ ~OnCycle(m, s)) THEN { V("named", m) } ELSE {})
          \cup (IF E.how = "other" THEN { V("raised", m) } ELSE {})
          \cup (IF E.th # M.th \/ M.ret # "" THEN { V("stray", m) } ELSE {})
  /\ Take /\ UNCHANGED <<inside, shut>>

Tick ==
  /\ E.e = "tick"
  /\ viol' = viol \cup Mutex
  /\ Take /\ UNCHANGED <<maps, inside, shut>>

IntIn ==
  /\ E.e = "int"
  /\ viol' = viol \cup Mutex
  /\ Drop
  /\ inside' = Put(inside, E.th, At(inside, E.th, 0) + 1)
  /\ UNCHANGED <<maps, shut>>

Inside ==
  /\ E.e \in {"inside", "leave"}
  /\ viol' = viol
  /\ UNCHANGED <<maps, holder, inside, shut>>

Back ==
  /\ E.e = "back"
  /\ inside' = Put(inside, E.th, At(inside, E.th, 0) - 1)
  /\ LET locked == Worker /\ inside'[E.th] = 0 IN
     /\ viol' = viol \cup (IF locked /\ holder \notin {"", E.th} THEN { V("mutex", 0) } ELSE {})
     /\ holder' = IF locked THEN E.th ELSE holder
  /\ UNCHANGED <<maps, shut>>

Shut ==
  /\ E.e \in {"shut", "shutdone"}
  /\ shut' = shut + 1
  /\ viol' = viol \cup (IF E.e = "shutdone" /\ E.alive # 0 THEN { V("alive", 0) } ELSE {})
  /\ UNCHANGED <<maps, holder, inside>>

Idle ==
  /\ E.e = "idle"
  /\ viol' = viol
  /\ UNCHANGED <<maps, holder, inside, shut>>

Fin ==
  /\ E.e = "fin"
  /\ viol' = viol
       \cup { V("unfinished", m) : m \in { x \in DOMAIN maps : maps[x].ret = "" } }
       \cup { V("dropped", m) : m \in { x \in DOMAIN maps : maps[x].open # 0 } }
  /\ UNCHANGED <<maps, holder, inside, shut>>

Dead ==
  /\ E.e = "dead"
  /\ viol' = viol \cup { V(E.why, 0) }
  /\ UNCHANGED <<maps, holder, inside, shut>>

Step ==
  /\ i <= Len(Evs)
  /\ i' = i + 1
  /\ ti' = ti
  /\ Map \/ Begin \/ EndTask \/ Dep \/ MapRet \/ Tick \/ IntIn \/ Inside \/ Back \/ Shut \/ Idle \/ Fin \/ Dead
  /\ (i' > Len(Evs)) =>
       PrintT("RESULT " \o ToJson([ id |-> Traces[ti].id, events |-> Len(Evs), viol |-> SetToSeq(viol') ]))

Spec == Init /\ [][Step]_vars
=============================================================================
