------------------------------- MODULE CBuild -------------------------------
(***************************************************************************)
(* Histories of edits and incremental builds of C programs.  The state is  *)
(* the files (with what they include and call) and, for every object, what *)
(* it may have been made from.  Sources are units that print their version,*)
(* the macro M, and the versions of all headers they see, and then call    *)
(* other units.  A build makes targets (libraries, programs) one after the *)
(* other; it is seen by what was compiled and by what the programs print.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, what) == [ clause |-> clause, n |-> n, what |-> what ]

(* ------------------------------------------------------------------- files *)

(* files: from paths to [n, kind, ver, incl, calls, broken]. *)
Set(files, p, x) == [ q \in DOMAIN files \cup {p} |-> IF q = p THEN x ELSE files[q] ]
Without(files, p) == [ q \in DOMAIN files \ {p} |-> files[q] ]
Includes(f) == { f.incl[k].p : k \in 1..Len(f.incl) }

RECURSIVE Reach(_, _, _)
Reach(files, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET p == CHOOSE p \in todo : TRUE
           next == IF p \in DOMAIN files THEN Includes(files[p]) ELSE {}
       IN Reach(files, seen \cup {p}, (todo \cup next) \ (seen \cup {p}))
Inputs(files, p) == Reach(files, {}, {p})
Good(files, p) == \A q \in Inputs(files, p) : q \in DOMAIN files /\ ~files[q].broken
(* What an object is made from; {} is no object. *)
Snapshot(files, p) == { <<q, IF q \in DOMAIN files THEN files[q] ELSE [ missing |-> TRUE ]>> : q \in Inputs(files, p) }

(* ------------------------------------------------------------------- links *)

Target(b, name) == b.targets[CHOOSE k \in 1..Len(b.targets) : b.targets[k].name = name]
Own(t) == ToSet(t.units) \cup ToSet(t.objs)
RECURSIVE LibsOf(_, _)
LibsOf(b, t) == UNION { {l} \cup LibsOf(b, Target(b, l)) : l \in ToSet(t.libs) }
Linked(b, t) == Own(t) \cup UNION { Own(Target(b, l)) : l \in LibsOf(b, t) }
UnitNamed(files, ps, n) == { p \in ps : files[p].n = n }

(* All calls of the program's own units must be found. *)
Links(files, b, t) ==
  \A p \in Own(t) : \A n \in ToSet(files[p].calls) : UnitNamed(files, Linked(b, t), n) # {}

MacroOf(b, t, p) ==
  IF p \in Own(t) THEN t.macro
  ELSE Target(b, CHOOSE l \in LibsOf(b, t) : p \in Own(Target(b, l))).macro

RECURSIVE Lines(_, _, _, _)
Lines(files, b, t, n) ==
  LET p == CHOOSE p \in UnitNamed(files, Linked(b, t), n) : TRUE
      f == files[p]
      line == [ u |-> n, ver |-> f.ver, m |-> MacroOf(b, t, p),
                hs |-> { [ h |-> files[q].n, ver |-> files[q].ver ] : q \in Inputs(files, p) \ {p} } ]
  IN <<line>> \o FlattenSeq([ k \in 1..Len(f.calls) |-> Lines(files, b, t, f.calls[k]) ])

MainOf(files, t) == files[CHOOSE p \in Own(t) : files[p].main].n
SeenLines(lines) == [ k \in 1..Len(lines) |-> [ lines[k] EXCEPT !.hs = ToSet(lines[k].hs) ] ]

(* ------------------------------------------------------------------ builds *)

(* s: [files, poss, viol, on, needed]; poss tells for <<target, source,     *)
(* macro>> what the object may be made from.                                *)
Key(t, p) == <<t.name, p, t.macro>>
Poss(s, k) == IF k \in DOMAIN s.poss THEN s.poss[k] ELSE {{}}
Count(seq, x) == Cardinality({ k \in 1..Len(seq) : seq[k] = x })

One(s, b, t, n) ==
  LET cur(p) == Snapshot(s.files, p)
      seen(p) == Count(b.compiled, [ p |-> p, t |-> t.name ])
      good == \A p \in Own(t) : Good(s.files, p)
      needed(p) == cur(p) \notin Poss(s, Key(t, p))
      upto(p) == Poss(s, Key(t, p)) = { cur(p) }
      keys == { Key(t, p) : p \in Own(t) }
      poss == [ k \in DOMAIN s.poss \cup keys |->
                  IF k \notin keys THEN s.poss[k]
                  ELSE IF good THEN { cur(k[2]) }
                  ELSE IF seen(k[2]) > 0 THEN Poss(s, k) \cup { {} } \cup (IF Good(s.files, k[2]) THEN { cur(k[2]) } ELSE {})
                  ELSE Poss(s, k) ]
      viol == (IF good THEN { V("not compiled", n, p) : p \in { p \in Own(t) : needed(p) /\ seen(p) = 0 } } ELSE {})
              \cup { V("compiled again", n, p) : p \in { p \in Own(t) : (upto(p) /\ seen(p) > 0) \/ seen(p) > 1 } }
              \cup { V("compiled", n, b.compiled[k].p) : k \in { k \in 1..Len(b.compiled) : b.compiled[k].t = t.name /\ b.compiled[k].p \notin Own(t) } }
  IN IF ~s.on THEN [ s EXCEPT !.viol = @ \cup { V("compiled after a failure", n, b.compiled[k].p) : k \in { k \in 1..Len(b.compiled) : b.compiled[k].t = t.name } } ]
     ELSE [ s EXCEPT !.poss = poss, !.viol = @ \cup viol, !.needed = @ \/ (\E p \in Own(t) : ~upto(p)),
                     !.on = good /\ (t.kind = "lib" \/ Links(s.files, b, t)) ]

(* A file that a build sees with other contents makes everything dirty that *)
(* used it, also if it gets its old contents back.                          *)
Holds(files, snap) == \A x \in snap : x[1] \in DOMAIN files /\ files[x[1]] = x[2]
Doubt(files, poss) == [ k \in DOMAIN poss |-> IF \A snap \in poss[k] : Holds(files, snap) THEN poss[k] ELSE poss[k] \cup { {} } ]

RECURSIVE Targets(_, _, _, _)
Targets(s, b, k, n) == IF k > Len(b.targets) THEN s ELSE Targets(One(s, b, b.targets[k], n), b, k + 1, n)

Build(st, b, n) ==
  LET s == Targets([ files |-> st.files, poss |-> Doubt(st.files, st.poss), viol |-> {}, on |-> TRUE, needed |-> FALSE ], b, 1, n)
      idle == st.same /\ st.last = b.targets
      run(r) == LET t == Target(b, r.t) IN
                IF r.error # "" THEN { V("program failed", n, r.t) }
                ELSE IF SeenLines(r.lines) # Lines(st.files, b, t, MainOf(st.files, t)) THEN { V("program", n, r.t) } ELSE {}
      viol == s.viol
              \cup (IF b.ok /\ ~s.on THEN { V("accepted", n, "") } ELSE {})
              \cup (IF ~b.ok /\ s.on THEN { V("failed", n, b.error) } ELSE {})
              \cup (IF idle /\ b.commands > 0 THEN { V("not idle", n, ToString(b.commands)) } ELSE {})
              \cup (IF b.ok /\ s.on THEN UNION { run(b.runs[k]) : k \in 1..Len(b.runs) } ELSE {})
              \cup (IF b.ok /\ s.on /\ { b.runs[k].t : k \in 1..Len(b.runs) } # { b.targets[k].name : k \in { k \in 1..Len(b.targets) : b.targets[k].kind = "exe" } }
                      THEN { V("runs", n, "") } ELSE {})
  IN [ st EXCEPT !.poss = s.poss, !.viol = @ \cup viol, !.same = s.on, !.last = b.targets ]

Step1(st, x, n) ==
  CASE x.op = "write" ->
         LET f == [ n |-> x.n, kind |-> x.kind, ver |-> x.ver, incl |-> x.incl, calls |-> x.calls, broken |-> x.broken, main |-> x.main ] IN
         [ st EXCEPT !.files = Set(@, x.p, f), !.same = @ /\ x.p \in DOMAIN st.files /\ st.files[x.p] = f ]
    [] x.op = "delete" -> [ st EXCEPT !.files = Without(@, x.p), !.same = FALSE ]
    [] x.op = "drop" ->
         [ st EXCEPT !.poss = [ k \in DOMAIN @ |-> IF \E j \in 1..Len(x.gone) : x.gone[j].t = k[1] /\ x.gone[j].p = k[2] THEN {{}} ELSE @[k] ],
                     !.same = @ /\ x.gone = <<>> ]
    [] x.op = "build" -> Build(st, x, n)
    [] OTHER -> st

RECURSIVE All(_, _, _)
All(st, steps, n) == IF n > Len(steps) THEN st.viol ELSE All(Step1(st, steps[n], n), steps, n + 1)

Judge(c) == All([ files |-> <<>>, poss |-> <<>>, viol |-> {}, same |-> FALSE, last |-> <<>> ], c.steps, 1)

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
