------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Platform options.  Platforms are sets of features.  An entry of the     *)
(* options has a matcher, features or ["!"] and a feature, and changes:    *)
(* [key, op, val] where op is "=", "+" or "-".  Values are [t, v]: a type  *)
(* (str, list, tuple, set, none or other) and a sequence of elements.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, key) == [ clause |-> clause, n |-> n, key |-> key ]

Matches(platform, m) == \A k \in 1..Len(m) : (m[k].f \in platform) = ~m[k].neg

(* Options are functions from keys to values. *)
Normal(val) == IF val.t = "set" THEN [ t |-> "set", v |-> ToSet(val.v) ] ELSE val
Base(opts, ch) ==
  IF ch.key \in DOMAIN opts /\ opts[ch.key].t # "none" THEN opts[ch.key] ELSE [ t |-> ch.val.t, v |-> <<>> ]

Plus(val, m) == [ t |-> val.t, v |-> val.v \o m.v ]
Minus(val, m) == [ t |-> val.t, v |-> SelectSeq(val.v, LAMBDA x : x \notin ToSet(m.v)) ]

Set(opts, key, val) == [ k \in DOMAIN opts \cup {key} |-> IF k = key THEN val ELSE opts[k] ]

Change(opts, ch) ==
  Set(opts, ch.key,
      CASE ch.op = "=" -> ch.val
        [] ch.op = "+" -> Plus(Base(opts, ch), ch.val)
        [] ch.op = "-" -> Minus(Base(opts, ch), ch.val))

RECURSIVE Apply(_, _)
Apply(opts, changes) == IF changes = <<>> THEN opts ELSE Apply(Change(opts, Head(changes)), Tail(changes))

RECURSIVE Entries(_, _, _)
Entries(opts, platform, entries) ==
  IF entries = <<>> THEN opts
  ELSE Entries(IF Matches(platform, Head(entries).match) THEN Apply(opts, Head(entries).changes) ELSE opts,
               platform, Tail(entries))

AsFun(list) == [ k \in { list[j].key : j \in 1..Len(list) } |-> list[CHOOSE j \in 1..Len(list) : list[j].key = k].val ]

Final(c, u) == Entries(AsFun(u.given), ToSet(u.platform), c.entries)

(* The same options are used several times: what was used once must not    *)
(* have changed them, nor the values that were given.                      *)
JudgeUse(c, n) ==
  LET u == c.uses[n]
      good == Final(c, u)
      got == AsFun(u.got)
  IN IF u.error # "" THEN { V("error", n, u.error) }
     ELSE { V("missing", n, k) : k \in DOMAIN good \ DOMAIN got }
          \cup { V("extra", n, k) : k \in DOMAIN got \ DOMAIN good }
          \cup { V("value", n, k) : k \in { k \in DOMAIN got \cap DOMAIN good : Normal(got[k]) # Normal(good[k]) } }
          \cup { V("given", n, u.given[j].key) :
                   j \in { j \in 1..Len(u.given) : Normal(u.after[j].val) # Normal(u.given[j].val) } }

Judge(c) ==
  UNION { JudgeUse(c, n) : n \in 1..Len(c.uses) }
  \cup (IF [ k \in 1..Len(c.entries) |-> [ j \in 1..Len(c.entries[k].changes) |-> Normal(c.entries[k].changes[j].val) ] ]
           # [ k \in 1..Len(c.after) |-> [ j \in 1..Len(c.after[k].changes) |-> Normal(c.after[k].changes[j].val) ] ]
          THEN { V("options", 0, "") } ELSE {})

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
