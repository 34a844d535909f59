------------------------------- MODULE DBTrace ------------------------------
(***************************************************************************)
(* Checks traces recorded from the real fbuild against DBCore.             *)
(*                                                                         *)
(* Every trace of the file is one behaviour: the events are replayed one   *)
(* by one against the abstract state; what the contract forbids is added   *)
(* to `viol` and the replay goes on with the state the implementation      *)
(* evidently has, so one trace can report several violations.              *)
(***************************************************************************)
EXTENDS DBCore, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i, files, code, recs, fnof, open, snap, run, seen, viol, seq

vars == <<ti, i, files, code, recs, fnof, open, snap, run, seen, viol, seq>>

NoRun == [ on |-> FALSE, kind |-> "", save |-> TRUE, main |-> "none", crash |-> FALSE,
           n |-> 0, aftercrash |-> FALSE ]

Init ==
  /\ ti \in 1..Len(Traces)
  /\ i = 1
  /\ files = <<>> /\ code = <<>> /\ recs = <<>> /\ fnof = <<>>
  /\ open = <<>> /\ snap = <<>> /\ run = NoRun /\ seen = {}
  /\ viol = {} /\ seq = 0

Evs == Traces[ti].ev
E == Evs[i]

Cand(k) == At(recs, k, { Gone("never") })

V(clause, id, why) ==
  [ clause |-> clause, at |-> i, id |-> id, why |-> SetToSeq(why), run |-> run.n,
    aftercrash |-> run.aftercrash ]

SetOf(field) == IF field \in DOMAIN E THEN RangeOf(E[field]) ELSE {}

(* ------------------------------------------------------------------ world *)

Start ==
  /\ E.e = "start"
  /\ code' = E.codes
  /\ UNCHANGED <<files, recs, fnof, open, snap, run, seen, viol, seq>>

Edit ==
  /\ E.e = "edit"
  /\ files' = Put(files, E.f, E.c)
  /\ recs' = IF run.on THEN SoftenFiles(recs, files') ELSE recs
  /\ UNCHANGED <<code, fnof, open, snap, run, seen, viol, seq>>

Code ==
  /\ E.e = "code"
  /\ code' = Put(code, E.fn, E.v)
  /\ UNCHANGED <<files, recs, fnof, open, snap, run, seen, viol, seq>>

AllGone(rs, why) == [ k \in DOMAIN rs |-> { Gone(why) } ]

Wipe ==
  /\ E.e = "wipe"
  /\ recs' = IF E.must THEN AllGone(recs, E.why)
             ELSE [ k \in DOMAIN recs |-> recs[k] \cup { Gone(E.why) } ]
  /\ UNCHANGED <<files, code, fnof, open, snap, run, seen, viol, seq>>

(* -------------------------------------------------------------------- run *)

Run ==
  /\ E.e = "run"
  /\ LET r1 == SoftenFiles(SoftenCode(recs, fnof, code), files)
     IN (* What is left if this run is stopped: a rebuild may already have
           removed what was saved. *)
        /\ snap' = IF E.kind = "rebuild" /\ E.save
                     THEN [ k \in DOMAIN r1 |-> r1[k] \cup { Gone("rebuild") } ] ELSE r1
        /\ recs' = IF E.kind = "rebuild" THEN AllGone(r1, "rebuild") ELSE r1
  /\ run' = [ on |-> TRUE, kind |-> E.kind, save |-> E.save, main |-> "none",
              crash |-> FALSE, n |-> run.n + 1, aftercrash |-> run.aftercrash ]
  /\ open' = <<>>
  /\ UNCHANGED <<files, code, fnof, seen, viol, seq>>

Main ==
  /\ E.e = "main"
  /\ run' = [ run EXCEPT !.main = E.how ]
  /\ UNCHANGED <<files, code, recs, fnof, open, snap, seen, viol, seq>>

Crash ==
  /\ E.e = "crash"
  /\ run' = [ run EXCEPT !.crash = TRUE ]
  /\ UNCHANGED <<files, code, recs, fnof, open, snap, seen, viol, seq>>

Union2(a, b) ==
  [ k \in DOMAIN a \cup DOMAIN b |->
      At(a, k, { Gone("never") }) \cup At(b, k, { Gone("never") }) ]

UsesFile(r, f) == ~r.gone /\ (f \in DOMAIN r.src \/ f \in DOMAIN r.ext)
Solid(r) == ~r.gone /\ ~r.soft /\ ~r.softcode

End ==
  /\ E.e = "end"
  /\ run' = [ run EXCEPT !.on = FALSE, !.aftercrash = run.aftercrash \/ run.crash ]
  /\ LET r1 == CASE run.crash -> Union2(snap, recs)
                 [] ~run.crash /\ run.kind = "clean" -> AllGone(recs, "clean")
                 [] ~run.crash /\ run.kind = "delfn" ->
                      [ k \in DOMAIN recs |->
                          IF fnof[k] = E.arg THEN { Gone("delfn") }
                          ELSE SoftenFns(recs, fnof, {E.arg})[k] ]
                 [] ~run.crash /\ run.kind = "delfile" ->
                      [ k \in DOMAIN recs |->
                          { IF UsesFile(r, E.arg) THEN Gone("delfile") ELSE r : r \in recs[k] } ]
                 [] OTHER -> recs
         want == CASE run.crash -> {"77"}
                   [] ~run.crash /\ run.kind = "delfn" ->
                        IF \E k \in DOMAIN recs : fnof[k] = E.arg /\ \A r \in recs[k] : Solid(r) THEN {"0"}
                        ELSE IF \A k \in DOMAIN recs : fnof[k] = E.arg =>
                                  \A r \in recs[k] : r.gone /\ r.why # "delfile" THEN {"1"}
                        ELSE {"0", "1"}
                   [] ~run.crash /\ run.kind = "delfile" ->
                        IF \E k \in DOMAIN recs : \A r \in recs[k] : Solid(r) /\ UsesFile(r, E.arg) THEN {"0"}
                        ELSE IF E.arg \notin seen THEN {"1"}
                        ELSE {"0", "1"}
                   [] ~run.crash /\ run.kind \in {"clean", "dump"} -> {"0"}
                   [] OTHER -> IF run.main = "ok" THEN {"0"} ELSE {"1"}
     IN /\ recs' = IF run.save \/ run.kind = "clean" THEN r1 ELSE snap
        /\ viol' = viol
             \cup (IF E.status \in want THEN {} ELSE { V("exit", 0, {E.status}) })
             \cup (IF ~run.crash /\ run.kind \in {"delfn", "delfile", "clean", "dump"} /\ run.main # "none"
                     THEN { V("ranmain", 0, {}) } ELSE {})
             \cup (IF ~run.crash /\ run.kind = "clean" /\ E.bdir
                     THEN { V("notclean", 0, {}) } ELSE {})
             \cup (IF run.crash \/ \A k \in DOMAIN open : ~open[k].on THEN {}
                   ELSE { V("unfinished", 0, {}) })
  /\ UNCHANGED <<files, code, fnof, open, snap, seen, seq>>

(* ------------------------------------------------------------------ calls *)

(* The open call and all the calls it runs inside of. *)
RECURSIVE Chain(_)
Chain(id) == IF id = 0 \/ id \notin DOMAIN open THEN {} ELSE {id} \cup Chain(open[id].parent)

Call ==
  /\ E.e = "call"
  /\ LET srcs == SetOf("srcs") dsts == SetOf("dsts")
         cand == Cand(E.key)
     IN /\ open' = Put(
             [ d \in DOMAIN open |-> IF d = E.parent
                 THEN [ open[d] EXCEPT !.names = @ \cup {E.fun} ] ELSE open[d] ],
             E.id,
             [ on |-> TRUE, fn |-> E.fn, fun |-> E.fun, key |-> E.key, parent |-> E.parent, srcs |-> srcs, dsts |-> dsts,
               exec |-> FALSE, ext |-> {}, extdst |-> {}, own |-> {}, owndst |-> {},
               code |-> <<>>, names |-> {}, began |-> seq,
               src |-> [ s \in srcs |-> Content(files, s) ],
               unk |-> \E g \in Closure(recs, fnof, E.fun) : Unknown(recs, fnof, g),
               may |-> MayRun(recs, fnof, cand, files, code, E.fn, E.fun, srcs, dsts),
               must |-> AllMust(cand, files, code, E.fn, srcs, dsts) ])
        /\ recs' = IF E.key \in DOMAIN recs THEN recs ELSE Put(recs, E.key, cand)
        /\ fnof' = Put(fnof, E.key, E.fun)
        /\ seen' = seen \cup srcs \cup dsts
  /\ UNCHANGED <<files, code, snap, run, viol, seq>>

Exec ==
  /\ E.e = "exec"
  /\ IF E.id \in DOMAIN open
       THEN LET c == open[E.id]
                may == c.may \/ MayRun(recs, fnof, Cand(c.key), files, code, c.fn, c.fun, c.srcs, c.dsts)
            IN /\ open' = [ open EXCEPT ![E.id].exec = TRUE ]
               (* Results of a function that called something which is not
                  recorded (it failed) are thrown away together. *)
               /\ recs' = IF c.unk THEN [ k \in DOMAIN recs |->
                              IF fnof[k] = c.fun
                                THEN { [ r EXCEPT !.softcode = TRUE ] : r \in recs[k] }
                                ELSE recs[k] ]
                          ELSE recs
               /\ viol' = viol
                    \cup (IF may THEN {} ELSE { V("needless", E.id, {}) })
                    \cup (IF c.exec THEN { V("twice", E.id, {}) } ELSE {})
                    \cup (IF E.ver \notin {0, At(code, c.fn, 0)} THEN { V("harness", E.id, {}) } ELSE {})
       ELSE /\ viol' = viol \cup { V("stray", E.id, {}) }
            /\ UNCHANGED <<open, recs>>
  /\ UNCHANGED <<files, code, fnof, snap, run, seen, seq>>

Uses ==
  /\ E.e = "uses"
  /\ open' = IF E.id \in DOMAIN open
               THEN [ open EXCEPT ![E.id].code = Put(@, E.fn, E.ver) ]
               ELSE open
  /\ UNCHANGED <<files, code, recs, fnof, snap, run, seen, viol, seq>>

Ext ==
  /\ E.e = "ext"
  /\ LET ch == Chain(E.id) s == SetOf("srcs") d == SetOf("dsts")
     IN /\ open' = [ x \in DOMAIN open |->
                     IF x \in ch
                       THEN [ open[x] EXCEPT !.ext = @ \cup s, !.extdst = @ \cup d,
                                !.own = IF x = E.id THEN @ \cup s ELSE @,
                                !.owndst = IF x = E.id THEN @ \cup d ELSE @ ]
                       ELSE open[x] ]
        /\ seen' = seen \cup s \cup d
  /\ UNCHANGED <<files, code, recs, fnof, snap, run, viol, seq>>

Ret ==
  /\ E.e = "ret"
  /\ LET c == open[E.id]
         cand == Cand(c.key)
         good == GoodResults(cand, files, code, c.fn, c.srcs, c.dsts)
         mustnow == AllMust(cand, files, code, c.fn, c.srcs, c.dsts)
         ok == E.how = "ok"
         rdsts == SetOf("rdsts")
         asrcs == SetOf("asrcs") adsts == SetOf("adsts")
         kcode == IF c.exec \/ ~ok THEN Put(c.code, c.fn, At(code, c.fn, 0))
                  ELSE IF good = {} THEN (c.fn :> At(code, c.fn, 0))
                  ELSE (CHOOSE r \in good : \A q \in good : q.seq <= r.seq).code
         new == [ gone |-> FALSE, why |-> "", res |-> E.res, src |-> c.src,
                  src2 |-> [ s \in c.srcs |-> Content(files, s) ],
                  ext |-> [ s \in c.ext |-> Content(files, s) ],
                  ext2 |-> [ s \in c.ext |-> Content(files, s) ],
                  dst |-> rdsts, extdst |-> c.extdst, code |-> kcode,
                  names |-> c.names \cup UNION { r.names : r \in cand },
                  was |-> [ g \in UNION { DOMAIN r.code \cup DOMAIN r.was : r \in cand } |-> At(code, g, 0) ],
                  soft |-> FALSE, softcode |-> FALSE, dropped |-> FALSE, seq |-> seq + 1 ]
         absentsrc == \E s \in c.srcs : c.src[s] = ABSENT
         (* Registering a file that cannot be read may be an error. *)
         absentext == \E s \in c.ext : Content(files, s) = ABSENT
         (* The build has failed and is saving its state, but this task has
            not noticed yet: what it does may be refused, or not be saved. *)
         late == run.main # "none"
         wrong == CASE ok /\ ~c.exec ->
                         (IF c.must # {} /\ mustnow # {}
                            THEN { V("stale", E.id, c.must) } ELSE {})
                         \cup (IF good # {} /\ (\A r \in good : r.res # E.res)
                            THEN { V("result", E.id, {}) } ELSE {})
                         \cup (IF good # {} /\ E.api /\ ~(\E r \in good :
                                 /\ asrcs = c.srcs \cup DOMAIN r.ext
                                 /\ adsts = c.dsts \cup r.dst \cup r.extdst)
                            THEN { V("sets", E.id, {"hit"}) } ELSE {})
                    [] ok /\ c.exec ->
                         (IF E.api /\ ~(/\ asrcs = c.srcs \cup c.ext
                                        /\ adsts = c.dsts \cup rdsts \cup c.extdst)
                            THEN { V("sets", E.id, {"run"}) } ELSE {})
                         \cup (IF absentsrc THEN { V("absentsrc", E.id, {}) } ELSE {})
                    [] ~ok /\ ~c.exec ->
                         (IF absentsrc \/ E.planned \/ late THEN {} ELSE { V("fail", E.id, {E.exc, E.msg}) })
                    [] ~ok /\ c.exec ->
                         (IF E.planned \/ absentext \/ late THEN {} ELSE { V("fail", E.id, {E.exc, E.msg}) })
     IN /\ viol' = viol \cup wrong
        /\ seq' = seq + 1
        /\ recs' = CASE ok /\ c.exec -> Put(IF late THEN recs ELSE Drop(recs, fnof, code, c.fun), c.key, { new } \cup
                          (* a concurrent equal call may have stored its own *)
                          { r \in cand : ~r.gone /\ r.seq > c.began }
                          \cup (IF late THEN cand ELSE {}))
                     [] ~ok -> Put(recs, c.key, { [ r EXCEPT !.soft = TRUE ] : r \in cand })
                     [] OTHER -> recs
        /\ open' = [ x \in DOMAIN open |->
                     IF x = E.id THEN [ open[x] EXCEPT !.on = FALSE ]
                     ELSE IF x = c.parent
                       THEN [ open[x] EXCEPT !.code = Merge(kcode, @) ]
                     ELSE open[x] ]
  /\ UNCHANGED <<files, code, fnof, snap, run, seen>>

Other ==
  /\ E.e \in {"active", "probe", "note", "dead"}
  /\ UNCHANGED <<files, code, recs, fnof, open, snap, run, seen, viol, seq>>

Step ==
  /\ i <= Len(Evs)
  /\ i' = i + 1
  /\ ti' = ti
  /\ Start \/ Edit \/ Code \/ Wipe \/ Run \/ Main \/ Crash \/ End
     \/ Call \/ Exec \/ Uses \/ Ext \/ Ret \/ Other
  /\ (i' > Len(Evs)) =>
       PrintT("RESULT " \o ToJson([ id |-> Traces[ti].id, events |-> Len(Evs),
                                     viol |-> SetToSeq(viol') ]))

Spec == Init /\ [][Step]_vars
=============================================================================
