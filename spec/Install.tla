------------------------------ MODULE Install ------------------------------
(***************************************************************************)
(* Installation.  A case is a history of installations into a tree.  Files *)
(* are [k, c, m]: f with contents and mode, l with the text of the link.   *)
(* Marks are [file, dest, prefix, sub, absolute, rename, perms]; a mark's  *)
(* target is below the destination, by the prefix unless the directory is  *)
(* absolute, under the new or the file's own name.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, path) == [ clause |-> clause, n |-> n, path |-> path ]

AsFun(list) == [ p \in { list[k].p : k \in 1..Len(list) } |-> LET k == CHOOSE k \in 1..Len(list) : list[k].p = p IN
                   [ k |-> list[k].k, c |-> list[k].c, m |-> list[k].m ] ]

RECURSIVE Join(_)
Join(parts) == IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o "/" \o Join(Tail(parts))

Target(mk) == Join(mk.dest \o (IF mk.absolute THEN <<>> ELSE mk.prefix) \o mk.sub
                   \o << IF mk.rename # "" THEN mk.rename ELSE mk.name >>)

Put(files, p, f) == [ q \in DOMAIN files \cup {p} |-> IF q = p THEN f ELSE files[q] ]

InstallOne(files, mk) ==
  LET f == files[mk.file] IN
  Put(files, Target(mk), IF f.k = "l" \/ mk.perms < 0 THEN f ELSE [ f EXCEPT !.m = mk.perms ])

RECURSIVE InstallAll(_, _)
InstallAll(files, marks) == IF marks = <<>> THEN files ELSE InstallAll(InstallOne(files, Head(marks)), Tail(marks))

(* What the user changes between the installations. *)
RECURSIVE Edit(_, _)
Edit(files, edits) ==
  IF edits = <<>> THEN files
  ELSE LET e == Head(edits) IN
       Edit(IF e.k = "no" THEN [ q \in DOMAIN files \ {e.p} |-> files[q] ]
            ELSE Put(files, e.p, [ k |-> e.k, c |-> e.c, m |-> e.m ]), Tail(edits))

RECURSIVE After(_, _)
After(c, n) ==
  IF n = 0 THEN AsFun(c.tree)
  ELSE InstallAll(Edit(After(c, n - 1), c.rounds[n].edits), c.rounds[n].marks)

JudgeRound(c, n) ==
  LET good == After(c, n)
      got == AsFun(c.rounds[n].got)
  IN IF c.rounds[n].error # "" THEN { V("error", n, c.rounds[n].error) }
     ELSE { V("missing", n, p) : p \in DOMAIN good \ DOMAIN got }
          \cup { V("extra", n, p) : p \in DOMAIN got \ DOMAIN good }
          \cup { V("kind", n, p) : p \in { p \in DOMAIN good \cap DOMAIN got : good[p].k # got[p].k } }
          \cup { V("contents", n, p) : p \in { p \in DOMAIN good \cap DOMAIN got : good[p].c # got[p].c } }
          \cup { V("mode", n, p) : p \in { p \in DOMAIN good \cap DOMAIN got : good[p].k = "f" /\ good[p].m # got[p].m } }

Judge(c) == UNION { JudgeRound(c, n) : n \in 1..Len(c.rounds) }

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
