-------------------------------- MODULE Main --------------------------------
(***************************************************************************)
(* The command line.  The state that remains between runs is what was      *)
(* saved, for each state file, and what was installed.  A run has flags,   *)
(* targets and what the build description does in them; it is seen by the  *)
(* events of the description, the exit status and what is left behind.     *)
(*                                                                         *)
(* The specification of a run is a transition system over [todo, mem,      *)
(* tmps, marks, status]: Steps takes it to its end.  Works that are done   *)
(* in parallel are one slot of the expected events, in any order.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, what) == [ clause |-> clause, n |-> n, what |-> what ]

Event(e, n, k, m) == [ e |-> e, n |-> n, k |-> k, m |-> m ]

(* The engine called cache saves nothing, but its state file, that a       *)
(* rebuild removes, is that of pickle.                                     *)
Engine(r) == IF r.engine = "default" THEN "pickle" ELSE r.engine
Key(r) == <<Engine(r), r.root>>
Keys == { <<e, d>> : e \in { "pickle", "sqlite", "cache" }, d \in { "build", "out" } }

Exists(f) == f \in { "one", "two" }

(* ---------------------------------------------------------------- targets *)

(* The hooks for options: a deprecated one only counts without its new one. *)
Before(r) == IF "arguments" \in ToSet(r.hooks) THEN "arguments" ELSE IF "pre_options" \in ToSet(r.hooks) THEN "pre_options" ELSE ""
After(r) == IF "post_arguments" \in ToSet(r.hooks) THEN "post_arguments" ELSE IF "post_options" \in ToSet(r.hooks) THEN "post_options" ELSE ""

Targets(r) ==
  (IF r.given = <<>> THEN <<"build">> ELSE r.given) \o (IF r.add # "" /\ After(r) # "" THEN <<r.add>> ELSE <<>>)

Bad(T) == \E i \in 1..(Len(T) - 1) : T[i] = "install"

Implied(T) ==
  IF T # <<>> /\ Last(T) = "install" /\ ToSet(T) \subseteq { "configure", "install" } THEN Front(T) \o <<"build", "install">> ELSE T

Defined(r, t) == \E k \in 1..Len(r.defs) : r.defs[k].n = t
(* What a module defines counts more than what it registers. *)
Def(r, t) ==
  LET S == { k \in 1..Len(r.defs) : r.defs[k].n = t } IN
  r.defs[CHOOSE k \in S : /\ \A l \in S : r.defs[l].how = "module" => r.defs[k].how = "module"
                          /\ \A l \in S : r.defs[l].how = r.defs[k].how => l <= k].steps

(* ------------------------------------------------------------------ a run *)

(* s: [slots, mem, tmps, marks, dest, ok, loose, ignored]; slots: the events to see, *)
(* each a set of them.                                                      *)
Slot(s, S) == IF S = {} THEN s ELSE [ s EXCEPT !.slots = Append(@, S) ]

RECURSIVE Works(_, _)
Works(s, ks) ==
  IF ks = <<>> THEN s
  ELSE Works([ Slot(s, IF Head(ks) \in s.mem THEN {} ELSE { Event("work", "", Head(ks), 0) }) EXCEPT !.mem = @ \cup {Head(ks)} ], Tail(ks))

(* An interrupt that is ignored changes nothing. *)
RECURSIVE Do(_, _)
Do(s, steps) ==
  IF steps = <<>> \/ ~s.ok THEN s
  ELSE LET a == Head(steps) IN
    Do(CASE a.op = "work" -> Works(s, a.ks)
         [] a.op = "par" -> [ Slot(s, { Event("work", "", k, 0) : k \in ToSet(a.ks) \ s.mem }) EXCEPT !.mem = @ \cup ToSet(a.ks) ]
         [] a.op = "tmp" -> [ s EXCEPT !.tmps = @ + 1 ]
         [] a.op = "mark" -> [ s EXCEPT !.marks = Append(@, a.n) ]
         [] a.op = "fail" -> [ s EXCEPT !.ok = s.ignored /\ a.n = "sigint" ],
       Tail(steps))

Install(s, r) ==
  LET a == IF r.pre_there THEN Do(Slot(s, { Event("pre", "", 0, 0) }), r.pre) ELSE s IN
  IF ~a.ok THEN a
  ELSE IF \E k \in 1..Len(a.marks) : ~Exists(a.marks[k]) THEN [ a EXCEPT !.ok = FALSE, !.loose = ToSet(a.marks) ]
  ELSE LET b == [ a EXCEPT !.dest = @ \cup ToSet(a.marks) ] IN
       IF r.post_there THEN Do(Slot(b, { Event("post", "", 0, 0) }), r.post) ELSE b

RECURSIVE Steps(_, _, _)
Steps(s, r, T) ==
  IF T = <<>> \/ ~s.ok THEN s
  ELSE Steps(IF Head(T) = "install" THEN Install(s, r)
             ELSE IF ~Defined(r, Head(T)) THEN [ s EXCEPT !.ok = FALSE ]
             ELSE Do(Slot(s, { Event("begin", Head(T), 0, s.tmps) }), Def(r, Head(T))),
             r, Tail(T))

Usage(r) == r.mine /\ (r.broken # "" \/ Before(r) = "")      \* an option that nobody added
Hooks(r) ==
  (IF r.broken = "" /\ Before(r) # "" THEN << { Event("hook", Before(r), 0, 0) } >> ELSE <<>>)
  \o (IF r.broken = "" /\ After(r) # "" /\ ~Usage(r) THEN << { Event("hook", After(r), 0, 0) } >> ELSE <<>>)

Start(saved, dest, r) ==
  [ slots |-> Hooks(r), mem |-> IF r.rebuild # "" THEN {} ELSE saved[Key(r)], tmps |-> 0, marks |-> <<>>, dest |-> dest,
    ok |-> TRUE, loose |-> {}, ignored |-> r.ignored ]

(* What a run does: [s, kind], kind one of usage, clean, broken and run. *)
Run(saved, dest, r) ==
  LET s == Start(saved, dest, r)
      T == Targets(r)
  IN CASE r.broken = "error" -> [ s |-> [ s EXCEPT !.ok = FALSE ], kind |-> "none" ]
       [] Usage(r) -> [ s |-> [ s EXCEPT !.ok = FALSE ], kind |-> "none" ]
       [] r.broken # "" -> [ s |-> [ s EXCEPT !.ok = FALSE ], kind |-> "none" ]
       [] r.clean -> [ s |-> s, kind |-> "clean" ]
       [] Bad(T) -> [ s |-> [ s EXCEPT !.ok = FALSE ], kind |-> "run" ]
       [] OTHER -> [ s |-> Steps(s, r, Implied(T)), kind |-> "run" ]

Saved(saved, r, x) ==
  [ k \in Keys |->
      IF x.kind = "clean" /\ k[2] = r.root THEN {}
      ELSE IF x.kind # "run" \/ r.nosave THEN saved[k]
      ELSE IF k[1] = "cache" THEN {}
      ELSE IF k = Key(r) THEN x.s.mem
      ELSE IF Engine(r) = "cache" /\ r.rebuild # "" /\ k = <<"pickle", r.root>> THEN {}
      ELSE saved[k] ]

(* ----------------------------------------------------------------- judging *)

RECURSIVE Follow(_, _, _)
(* 0 if the events are those of the slots, else the first that is not. *)
Follow(events, i, slots) ==
  IF slots = <<>> THEN IF i > Len(events) THEN 0 ELSE i
  ELSE LET n == Cardinality(Head(slots)) IN
    IF i + n - 1 <= Len(events) /\ { events[j] : j \in i..(i + n - 1) } = Head(slots) THEN Follow(events, i + n, Tail(slots)) ELSE i

JudgeRun(n, r, o, saved, dest, x) ==
  LET f == Follow(o.events, 1, x.s.slots) IN
  (IF o.status < 0 THEN { V("hangs", n, "") }
   ELSE (IF (o.status = 0) # x.s.ok THEN { V("status", n, ToString(o.status)) } ELSE {})
        \cup (IF f # 0 THEN { V("events", n, IF f <= Len(o.events) THEN ToString(o.events[f]) ELSE "") } ELSE {})
        \cup (IF x.kind = "run" /\ o.tmp # (IF x.s.ok THEN -1 ELSE x.s.tmps) THEN { V("tmp", n, ToString(o.tmp)) } ELSE {})
        \cup (IF x.kind = "clean" /\ o.there THEN { V("clean", n, "") } ELSE {})
        \cup (IF x.kind = "run" /\ ~o.there THEN { V("gone", n, "") } ELSE {})
        \cup (IF x.s.loose = {} /\ ToSet(o.dest) # { "usr/local/share/" \o f2 : f2 \in x.s.dest } THEN { V("installed", n, "") } ELSE {})
        \cup (IF x.s.loose # {} /\ ~(/\ { "usr/local/share/" \o f2 : f2 \in x.s.dest } \subseteq ToSet(o.dest)
                                     /\ ToSet(o.dest) \subseteq { "usr/local/share/" \o f2 : f2 \in x.s.dest \cup x.s.loose })
                THEN { V("installed", n, "") } ELSE {}))

RECURSIVE Walk(_, _, _, _)
Walk(c, n, saved, dest) ==
  IF n > Len(c.runs) THEN {}
  ELSE LET r == c.runs[n]
           o == c.got[n]
           x == Run(saved, dest, r)
           v == JudgeRun(n, r, o, saved, dest, x)
       IN IF v # {} THEN v
          ELSE Walk(c, n + 1, Saved(saved, r, x), { f \in { "one", "two", "gone" } : "usr/local/share/" \o f \in ToSet(o.dest) })

Judge(c) == Walk(c, 1, [ k \in Keys |-> {} ], {})

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
