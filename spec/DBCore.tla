------------------------------- MODULE DBCore -------------------------------
(***************************************************************************)
(* What fbuild's cache promises, independent of how it is stored.          *)
(*                                                                         *)
(* A *world* is the contents of the files and the code version of every    *)
(* cached function.  A *record* is what the cache must know about one      *)
(* successful execution of one call: its result, the contents of the files *)
(* it used, the outputs it promised, and the code that took part in it     *)
(* (its own and that of every cached function it called, however deep).    *)
(* A call *must* run again if any of that is out of date, and *may* run    *)
(* again only if something it could have used changed.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ABSENT == "-"          \* the content of a file that does not exist

(* f[x], or d where f is not defined *)
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

Content(files, f) == At(files, f, ABSENT)

(* Override / extend a function. *)
Put(f, x, v) == (x :> v) @@ f
Merge(f, g) == f @@ g      \* f wins

RangeOf(s) == { s[i] : i \in 1..Len(s) }

(* The record of "never ran" and of "was deleted", with the reason. *)
Gone(why) ==
  [ gone |-> TRUE, why |-> why, res |-> "", src |-> <<>>, src2 |-> <<>>,
    ext |-> <<>>, ext2 |-> <<>>, dst |-> {}, extdst |-> {}, code |-> <<>>, was |-> <<>>,
    names |-> {}, soft |-> FALSE, softcode |-> FALSE, dropped |-> FALSE, seq |-> 0 ]

(***************************************************************************)
(* The reasons for which a call with this record may not be answered from  *)
(* the cache in this world.                                                *)
(***************************************************************************)
MustReasons(r, files, code, fn, srcs, dsts) ==
  IF r.gone THEN { r.why }
  ELSE
    (IF \E s \in srcs : ~(\/ Content(files, s) = At(r.src, s, "?")
                          \/ Content(files, s) = At(r.src2, s, "?"))
       THEN {"src"} ELSE {})
    \cup
    (IF \E s \in DOMAIN r.ext : ~(\/ Content(files, s) = r.ext[s]
                                  \/ Content(files, s) = r.ext2[s])
       THEN {"ext"} ELSE {})
    \cup
    (IF \E d \in dsts \cup r.dst : Content(files, d) = ABSENT THEN {"dst"} ELSE {})
    \cup
    (IF \E d \in r.extdst : Content(files, d) = ABSENT THEN {"extdst"} ELSE {})
    \cup
    (IF At(r.code, fn, 0) # At(code, fn, 0) THEN {"own"} ELSE {})
    \cup
    (IF \E g \in DOMAIN r.code \ {fn} : r.code[g] # At(code, g, 0) THEN {"dep"} ELSE {})

(* Something this record used is not as it was (superset of MustReasons). *)
Touched(r, files, code, fn, srcs, dsts) ==
  \/ MustReasons(r, files, code, fn, srcs, dsts) # {}
  \/ \E s \in srcs : \/ Content(files, s) # At(r.src, s, "?")
                     \/ Content(files, s) # At(r.src2, s, "?")
  \/ \E s \in DOMAIN r.ext : Content(files, s) # r.ext[s] \/ Content(files, s) # r.ext2[s]

(***************************************************************************)
(* Code dependencies are known per function, not per call: the functions   *)
(* that some recorded call of fn called, now or when it was recorded       *)
(* before (r.was), closed transitively.                                    *)
(***************************************************************************)
RECURSIVE Close(_, _)
Close(step, S) ==
  LET T == S \cup UNION { At(step, g, {}) : g \in S }
  IN IF T = S THEN S ELSE Close(step, T)

(* recs : key -> set of candidate records; fnof : key -> function *)
Names(recs, fnof) ==
  LET fns == { fnof[k] : k \in DOMAIN recs }
  IN [ f \in fns |-> UNION { UNION { r.names : r \in recs[k] } :
                              k \in { k \in DOMAIN recs : fnof[k] = f } } ]

Closure(recs, fnof, fn) == Close(Names(recs, fnof), {fn})

(* This record was made with other code than the present. *)
OtherCode(r, code) ==
  /\ ~r.gone
  /\ \/ \E h \in DOMAIN r.code : r.code[h] # At(code, h, 0)
     \/ \E h \in DOMAIN r.was : r.was[h] # At(code, h, 0)

(* Some record of function g was made with other code than the present
   (and was not thrown away since). *)
CodeMoved(recs, fnof, code, g) ==
  \E k \in DOMAIN recs : fnof[k] = g /\ \E r \in recs[k] : ~r.dropped /\ OtherCode(r, code)

(* A function that is stored with other code than before takes the results
   of its other calls away. *)
Drop(recs, fnof, code, g) ==
  [ k \in DOMAIN recs |->
      IF fnof[k] = g THEN { [ r EXCEPT !.dropped = @ \/ OtherCode(r, code) ] : r \in recs[k] } ELSE recs[k] ]

(* No record at all of g (it failed, or it was deleted). *)
Unknown(recs, fnof, g) ==
  \A k \in DOMAIN recs : fnof[k] = g => \A r \in recs[k] : r.gone

(* Every call of a function whose closure contains a function of `moved`
   becomes doubtful: it may run again. *)
SoftenFns(recs, fnof, moved) ==
  LET names == Names(recs, fnof)
      hit == { f \in DOMAIN names : Close(names, {f}) \cap moved # {} }
  IN [ k \in DOMAIN recs |->
         IF fnof[k] \in hit
           THEN { [ r EXCEPT !.softcode = TRUE ] : r \in recs[k] }
           ELSE recs[k] ]

SoftenCode(recs, fnof, code) ==
  SoftenFns(recs, fnof,
    { f \in { fnof[k] : k \in DOMAIN recs } : CodeMoved(recs, fnof, code, f) })

(* A call one of whose files is not as it was becomes doubtful. *)
FileMoved(r, files) ==
  \/ \E s \in DOMAIN r.src : Content(files, s) # r.src[s]
  \/ \E s \in DOMAIN r.src2 : Content(files, s) # r.src2[s]
  \/ \E s \in DOMAIN r.ext : Content(files, s) # r.ext[s]
  \/ \E s \in DOMAIN r.ext2 : Content(files, s) # r.ext2[s]
  \/ \E d \in r.dst \cup r.extdst : Content(files, d) = ABSENT

SoftenFiles(recs, files) ==
  [ k \in DOMAIN recs |->
      { IF ~r.gone /\ FileMoved(r, files) THEN [ r EXCEPT !.soft = TRUE ] ELSE r :
          r \in recs[k] } ]

(***************************************************************************)
(* Verdict on one finished call.  cand is the set of records the cache may *)
(* hold (more than one after a crash or for concurrent equal calls).       *)
(***************************************************************************)
AllMust(cand, files, code, fn, srcs, dsts) ==
  IF \E r \in cand : MustReasons(r, files, code, fn, srcs, dsts) = {}
    THEN {}
    ELSE UNION { MustReasons(r, files, code, fn, srcs, dsts) : r \in cand }

GoodResults(cand, files, code, fn, srcs, dsts) ==
  { r \in cand : MustReasons(r, files, code, fn, srcs, dsts) = {} }

MayRun(recs, fnof, cand, files, code, fn, fun, srcs, dsts) ==
  \/ \E r \in cand : r.soft \/ r.softcode \/ Touched(r, files, code, fn, srcs, dsts)
  \/ \E g \in Closure(recs, fnof, fun) : Unknown(recs, fnof, g)
=============================================================================
