-------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* What the patterns of paths find in a directory tree.                    *)
(* A case has a tree (paths as sequences of names, names as sequences of   *)
(* code points; kind d, f, or l for links to nothing) and questions.       *)
(*                                                                         *)
(* A pattern is matched name by name.  A name that starts with a dot needs *)
(* a pattern that does.  ** alone is any number of directories, and at the *)
(* end of a pattern also any files.  An empty last part asks for a         *)
(* directory.                                                              *)
(***************************************************************************)
EXTENDS Pattern, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, q, what) == [ clause |-> clause, q |-> q, what |-> what ]

Paths(c) == { c.tree[k].p : k \in 1..Len(c.tree) }
Kind(c, p) == IF p = <<>> THEN "d"
              ELSE LET S == { k \in 1..Len(c.tree) : c.tree[k].p = p } IN
                   IF S = {} THEN "no" ELSE c.tree[CHOOSE k \in S : TRUE].k

Hidden(name) == name[1] = DOT
Under(c, base) == { p \in Paths(c) : Len(p) > Len(base) /\ SubSeq(p, 1, Len(base)) = base }
Children(c, base) == { p \in Under(c, base) : Len(p) = Len(base) + 1 }

STARSTAR == << STAR, STAR >>
Magic(part) == \E k \in 1..Len(part) : part[k] \in { STAR, QUEST, OPEN, LBRACE }

(* All below, but nothing hidden and nothing in hidden directories. *)
Deep(c, base) == { p \in Under(c, base) : \A k \in (Len(base) + 1)..Len(p) : ~Hidden(p[k]) }

(* Results are [path, slash]. *)
RECURSIVE Eval(_, _, _)
Eval(c, B, parts) ==
  IF parts = <<>> THEN { [ p |-> b, slash |-> FALSE ] : b \in B }
  ELSE LET h == Head(parts)
           t == Tail(parts)
           D == { b \in B : Kind(c, b) = "d" }
       IN CASE h = <<>> -> { [ p |-> b, slash |-> TRUE ] : b \in D }
            [] h = STARSTAR /\ t = <<>> ->
                 { [ p |-> b, slash |-> TRUE ] : b \in D \ {<<>>} }
                 \cup { [ p |-> x, slash |-> FALSE ] : x \in UNION { Deep(c, b) : b \in D } }
            [] h = STARSTAR -> Eval(c, D \cup UNION { Deep(c, b) : b \in D }, t)
            [] Magic(h) ->
                 Eval(c, { x \in UNION { Children(c, b) : b \in D } :
                             /\ Hidden(Last(x)) => Hidden(h)
                             /\ Match(Last(x), h) }, t)
            [] OTHER -> Eval(c, { x \in UNION { Children(c, b) : b \in D } : Last(x) = h }, t)

RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<SLASH>> \o Join(Tail(p))
Text(r) == IF r.p = <<>> THEN <<>> ELSE IF r.slash THEN Join(r.p) \o <<SLASH>> ELSE Join(r.p)

Parts(pat) == SplitParts(pat)

(* The tree itself is only found by an absolute pattern. *)
Found(c, q, pat) ==
  LET good == { Text(r) : r \in Eval(c, {<<>>}, Parts(pat)) } \ {<<>>} IN
  IF q.abs /\ \A k \in 1..Len(Parts(pat)) : Parts(pat)[k] = STARSTAR \/ (k = Len(Parts(pat)) /\ Parts(pat)[k] = <<>>)
    THEN good \cup {<<>>} ELSE good

Excluded(text, excl) == \E k \in 1..Len(excl) : Match(text, excl[k])

SoundAll(pat) == \A k \in 1..Len(Parts(pat)) : Sound(Items(Parts(pat)[k]))

StarStars(pat) == Cardinality({ k \in 1..Len(Parts(pat)) : Parts(pat)[k] = STARSTAR })

RECURSIVE Escape(_)
Escape(t) == IF t = <<>> THEN <<>>
             ELSE (IF Head(t) \in { STAR, QUEST, OPEN, LBRACE } THEN << OPEN, Head(t), CLOSE >> ELSE << Head(t) >>)
                  \o Escape(Tail(t))

(* A question: patterns, what to leave out, and the answer; the answers for *)
(* several patterns follow each other.                                      *)
Good(c, q) ==
  CASE q.kind = "find" ->
         (* All in and below the directory, by their names. *)
         { Join(p) : p \in { x \in Under(c, q.base) :
                               /\ q.dirs \/ Kind(c, x) # "d"
                               /\ q.pats = <<>> \/ Match(Last(x), q.pats[1]) } }
    [] OTHER -> { t \in UNION { Found(c, q, q.pats[k]) : k \in 1..Len(q.pats) } : ~Excluded(t, q.excl) }

Reasonable(q) ==
  /\ \A k \in 1..Len(q.pats) : SoundAll(q.pats[k])
  /\ \A k \in 1..Len(q.excl) : Sound(Items(q.excl[k]))

JudgeQ(c, n) ==
  LET q == c.qs[n]
      good == Good(c, q)
      said == ToSet(q.got)
  IN IF ~Reasonable(q) THEN {}
     ELSE IF q.error # "" THEN { V("error", n, q.error) }
     ELSE { V("extra", n, t) : t \in said \ good } \cup { V("missing", n, t) : t \in good \ said }
          \cup (IF Cardinality(said) # Len(q.got) /\ (q.kind = "find" \/ (Len(q.pats) = 1 /\ StarStars(q.pats[1]) <= 1))
                  THEN { V("twice", n, "") } ELSE {})
          \cup (IF q.kind # "find" /\ q.got # FlattenSeq(q.parts) 
                  \* The files of each pattern follow those of the one before.
                  THEN { V("order", n, "") } ELSE {})
          \cup (IF q.kind = "escape" /\ q.escaped # Escape(q.text) THEN { V("escape", n, q.escaped) } ELSE {})

Judge(c) == UNION { JudgeQ(c, n) : n \in 1..Len(c.qs) }

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
