------------------------------- MODULE DBModel ------------------------------
(***************************************************************************)
(* How fbuild's cache works: the tables it keeps, and what looking up and  *)
(* storing a call does to them (db/backend.py, db/cache_backend.py,        *)
(* db/database.py).  The user edits files and code, removes outputs,       *)
(* deletes what is stored, and builds; TLC explores all histories of these *)
(* up to a depth, for a small program that is given as data.               *)
(*                                                                         *)
(* The model leaves a trace of what a user could observe.  The traces are  *)
(* judged by DBTrace, like those of the real code, and the histories are   *)
(* replayed on the real code.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

P == ndJsonDeserialize(IOEnv.PROGRAM)[1]

ABSENT == "-"
Keys == DOMAIN P.calls            \* the calls there are
FnOf(k) == P.calls[k].fn
Fns == { FnOf(k) : k \in Keys }
SrcsOf(k) == IF P.calls[k].src = "" THEN {} ELSE { P.calls[k].src }
DstsOf(k) == IF P.calls[k].dst = "" THEN {} ELSE { P.calls[k].dst }

At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
Without(f, S) == [ x \in DOMAIN f \ S |-> f[x] ]

VARIABLES files, code, db, hist, ev, nid

(* fun    : function -> its digest and those of the functions it called    *)
(* res    : call -> result                                                 *)
(* file   : file -> the digest it had when we last looked                  *)
(* cf     : <<file, call>> -> the digest it had for that call              *)
(* xs, xd : call -> the sources and outputs registered while it ran        *)
NoDB == [ fun |-> <<>>, res |-> <<>>, file |-> <<>>, cf |-> <<>>, xs |-> <<>>, xd |-> <<>> ]

Init ==
  /\ files = [ f \in ToSet(P.files) |-> P.contents[1] ]
  /\ code = [ f \in Fns |-> 1 ]
  /\ db = NoDB
  /\ nid = 1
  /\ hist = << >>
  /\ ev = << [ e |-> "start", codes |-> code ] >> \o
          [ n \in 1..Len(P.files) |-> [ e |-> "edit", f |-> P.files[n], c |-> P.contents[1] ] ]

(***************************************************************************)
(* One build.  st is everything that changes in it: the database, the      *)
(* files, the trace, the ids; st.out is the outcome of the last call.      *)
(***************************************************************************)
Log(st, e) == [ st EXCEPT !.ev = Append(@, e) ]
Here(st, f) == At(st.files, f, ABSENT)

(* delete_file *)
DelFile(d, f) == [ d EXCEPT !.file = Without(@, {f}),
                            !.cf = Without(@, { p \in DOMAIN @ : p[1] = f }) ]

(* delete_function *)
CallsOf(fn) == { k \in Keys : FnOf(k) = fn }
DelFun(d, fn) ==
  [ d EXCEPT !.fun = Without(@, {fn}), !.res = Without(@, CallsOf(fn)),
             !.xs = Without(@, CallsOf(fn)), !.xd = Without(@, CallsOf(fn)),
             !.cf = Without(@, { p \in DOMAIN @ : p[2] \in CallsOf(fn) }) ]

(* add_file: the file is there; the answer is in d.file *)
AddFile(d, f, c) ==
  IF At(d.file, f, ABSENT) = c THEN d
  ELSE [ DelFile(d, f) EXCEPT !.file = Put(@, f, c) ]

RECURSIVE AddFiles(_, _, _)
AddFiles(st, d, fs) ==
  IF fs = {} THEN d
  ELSE LET f == CHOOSE f \in fs : TRUE
       IN AddFiles(st, IF Here(st, f) = ABSENT THEN d ELSE AddFile(d, f, Here(st, f)), fs \ {f})

(* check_function *)
FunDirty(d, fn) ==
  \/ fn \notin DOMAIN d.fun
  \/ d.fun[fn].dig # code[fn]
  \/ \E g \in DOMAIN d.fun[fn].deps :
        d.fun[fn].deps[g] # code[g] \/ g \notin DOMAIN d.fun

(* find_dependents *)
Dependents(d, fn, names) ==
  LET all == (names \cup UNION { IF g \in DOMAIN d.fun THEN DOMAIN d.fun[g].deps ELSE {} : g \in names }) \ {fn}
  IN [ g \in all |-> code[g] ]

(* save_external_files, after all of the files were added *)
SaveCall(d, k, res, digs, xs, xd) ==
  [ d EXCEPT !.res = Put(@, k, res), !.xs = Put(@, k, xs), !.xd = Put(@, k, xd),
             !.cf = [ p \in { <<f, k>> : f \in xs } |-> d.file[p[1]] ] @@
                    [ p \in { <<f, k>> : f \in DOMAIN digs } |-> digs[p[1]] ] @@ @ ]

(* Backend.cache *)
Cache(st, k, res, names, digs, xs, xd) ==
  LET fn == FnOf(k)
      d1 == AddFiles(st, st.db, xs)
      dirty == FunDirty(d1, fn)
      deps == Dependents(d1, fn, names)
      d2 == IF dirty
              THEN LET z == DelFun(d1, fn)
                   IN [ z EXCEPT !.fun = Put(@, fn, [ dig |-> code[fn], deps |-> deps ]) ]
              ELSE [ d1 EXCEPT !.fun[fn].deps = deps @@ @ ]
  IN SaveCall(d2, k, res, digs, xs, xd)

Nothing == [ names |-> {}, xs |-> {}, xd |-> {} ]
Add(a, b) == [ names |-> a.names \cup b.names, xs |-> a.xs \cup b.xs, xd |-> a.xd \cup b.xd ]

Finish(st, ok, res, srcs, dsts, id, planned, up) ==
  [ Log(st, [ e |-> "ret", id |-> id, how |-> IF ok THEN "ok" ELSE "fail", res |-> res, rdsts |-> <<>>,
              api |-> TRUE, asrcs |-> SetToSeq(srcs), adsts |-> SetToSeq(dsts),
              planned |-> planned, exc |-> "Error", msg |-> "" ])
    EXCEPT !.out = [ ok |-> ok, res |-> res, up |-> up ] ]

RECURSIVE Do(_, _, _), Body(_, _, _, _, _, _)

(* Database.call *)
Do(st0, k, parent) ==
  LET id == st0.nid
      fn == FnOf(k)
      srcs == SrcsOf(k) dsts == DstsOf(k)
      st == [ Log(st0, [ e |-> "call", id |-> id, parent |-> parent, fn |-> fn, fun |-> fn, key |-> k,
                         srcs |-> SetToSeq(srcs), dsts |-> SetToSeq(dsts) ]) EXCEPT !.nid = id + 1 ]
      known == ~FunDirty(st.db, fn) /\ k \in DOMAIN st.db.res
      gone == \E f \in srcs : Here(st, f) = ABSENT
      d1 == AddFiles(st, st.db, srcs)
      xs == IF known THEN d1.xs[k] ELSE {}
      xd == IF known THEN d1.xd[k] ELSE {}
      d2 == AddFiles(st, d1, xs)
      Changed(f) == Here(st, f) = ABSENT \/ At(d2.cf, <<f, k>>, "?") # Here(st, f)
      hit == /\ known
             /\ \A f \in srcs \cup xs : ~Changed(f)
             /\ \A f \in dsts \cup xd : Here(st, f) # ABSENT
      digs == [ f \in { f \in srcs : ~known \/ Changed(f) } |-> Here(st, f) ]
      up == [ Nothing EXCEPT !.names = {fn} ]
  IN IF gone
       (* getting the time of the file raises, before anything else *)
       THEN Finish(st, FALSE, "", {}, {}, id, FALSE, up)
     ELSE IF hit
       THEN Finish([ st EXCEPT !.db = d2 ], TRUE, d2.res[k], srcs \cup xs, dsts \cup xd, id, FALSE, up)
     ELSE
       LET s1 == Log([ st EXCEPT !.db = d2 ], [ e |-> "exec", id |-> id, fn |-> fn, ver |-> code[fn] ])
           s2 == Body(s1, k, id, 1, Nothing, << k, code[fn] >> \o SetToSeq({ Here(st, f) : f \in srcs }))
           mine == s2.mine
           unread == \E f \in mine.xs : Here(s2, f) = ABSENT
       IN IF ~s2.out.ok
            THEN Finish(s2, FALSE, "", {}, {}, id, s2.out.res = "planned", Add(up, mine))
          ELSE IF unread
            THEN Finish([ s2 EXCEPT !.db = AddFiles(s2, @, {}) ], FALSE, "", {}, {}, id, FALSE,
                        [ Add(up, mine) EXCEPT !.names = {fn} ])
          ELSE Finish([ s2 EXCEPT !.db = Cache(s2, k, s2.out.res, mine.names, digs, mine.xs, mine.xd) ],
                      TRUE, s2.out.res, srcs \cup mine.xs, dsts \cup mine.xd, id, FALSE,
                      [ mine EXCEPT !.names = {fn} ])

(* What the function does; acc is what its result depends on. *)
Body(st, k, id, n, mine, acc) ==
  LET acts == P.calls[k].acts IN
  IF n > Len(acts)
    THEN [ st EXCEPT !.out = [ ok |-> TRUE, res |-> ToString(acc), up |-> Nothing ], !.mine = mine ]
  ELSE
  LET a == acts[n]
      on == a.when = "" \/ Here(st, a.when) = a.is
      Next(s, m, x) == Body(s, k, id, n + 1, m, x)
  IN IF ~on THEN Next(st, mine, acc)
     ELSE
     CASE a.t = "read" -> Next(st, mine, Append(acc, Here(st, a.a)))
       [] a.t = "ext" ->
            Next(Log(st, [ e |-> "ext", id |-> id, srcs |-> <<a.a>>, dsts |-> <<>> ]),
                 Add(mine, [ Nothing EXCEPT !.xs = {a.a} ]), acc)
       [] a.t = "extdst" ->
            Next(Log(st, [ e |-> "ext", id |-> id, srcs |-> <<>>, dsts |-> <<a.a>> ]),
                 Add(mine, [ Nothing EXCEPT !.xd = {a.a} ]), acc)
       [] a.t = "write" ->
            Next([ Log(st, [ e |-> "edit", f |-> a.a, c |-> "written" ]) EXCEPT !.files = Put(@, a.a, "written") ], mine, acc)
       [] a.t = "failif" ->
            IF Here(st, a.a) \in {ABSENT, "bad"}
              THEN [ st EXCEPT !.out = [ ok |-> FALSE, res |-> "planned", up |-> Nothing ], !.mine = mine ]
              ELSE Next(st, mine, acc)
       [] a.t \in {"call", "try"} ->
            LET s == Do(st, a.a, id)
                m == Add(mine, s.out.up)
            IN IF s.out.ok THEN Next(s, m, Append(acc, s.out.res))
               ELSE IF a.t = "try" THEN Next(s, m, Append(acc, "failed"))
               (* the same exception goes on *)
               ELSE [ s EXCEPT !.out = [ ok |-> FALSE, res |-> "planned", up |-> Nothing ], !.mine = m ]

RECURSIVE Main(_, _)
Main(st, ks) == IF ks = << >> THEN st ELSE Main(Do(st, Head(ks), 0), Tail(ks))

Begin == [ db |-> db, files |-> files, ev |-> << >>, nid |-> nid,
           out |-> [ ok |-> TRUE, res |-> "", up |-> Nothing ], mine |-> Nothing ]

(***************************************************************************)
(* What the user does                                                      *)
(***************************************************************************)
Emit == PrintT("EDGE " \o ToJson([ h |-> hist', ev |-> ev' ]))

(* Nothing is gained from two edits of the same thing in a row. *)
Fresh(kind, what) ==
  IF hist = << >> THEN TRUE ELSE ~(Last(hist)[1] = kind /\ Last(hist)[2] = what)

Edit ==
  \E n \in 1..Len(P.edits) :
    LET f == P.edits[n][1] c == P.edits[n][2] IN
    /\ At(files, f, ABSENT) # c
    /\ Fresh("edit", f)
    /\ files' = IF c = ABSENT THEN Without(files, {f}) ELSE Put(files, f, c)
    /\ hist' = Append(hist, << "edit", f, c >>)
    /\ ev' = Append(ev, [ e |-> "edit", f |-> f, c |-> c ])
    /\ UNCHANGED << code, db, nid >>

Code ==
  \E n \in 1..Len(P.codes) :
    LET fn == P.codes[n] IN
    /\ Fresh("code", fn)
    /\ code' = [ code EXCEPT ![fn] = 3 - @ ]
    /\ hist' = Append(hist, << "code", fn, ToString(3 - code[fn]) >>)
    /\ ev' = Append(ev, [ e |-> "code", fn |-> fn, v |-> 3 - code[fn] ])
    /\ UNCHANGED << files, db, nid >>

RunEv(kind) == [ e |-> "run", kind |-> kind, save |-> TRUE ]
EndEv(kind, arg, status) == [ e |-> "end", status |-> status, kind |-> kind, arg |-> arg, bdir |-> TRUE ]

Build ==
  \E n \in 1..Len(P.mains) :
    LET st == Main(Begin, P.mains[n]) IN
    /\ files' = st.files /\ db' = st.db /\ nid' = st.nid
    /\ hist' = Append(hist, << "run", ToString(n) >>)
    /\ ev' = ev \o << RunEv("run") >> \o st.ev \o << [ e |-> "main", how |-> "ok" ], EndEv("run", "", "0") >>
    /\ UNCHANGED code
    /\ Emit

DeleteFunction ==
  \E n \in 1..Len(P.delfns) :
    LET fn == P.delfns[n] IN
    /\ db' = DelFun(db, fn)
    /\ hist' = Append(hist, << "delfn", fn >>)
    /\ ev' = ev \o << RunEv("delfn"), EndEv("delfn", fn, IF fn \in DOMAIN db.fun THEN "0" ELSE "1") >>
    /\ UNCHANGED << files, code, nid >>
    /\ Emit

DeleteFile ==
  \E n \in 1..Len(P.delfiles) :
    LET f == P.delfiles[n] IN
    /\ db' = DelFile(db, f)
    /\ hist' = Append(hist, << "delfile", f >>)
    /\ ev' = ev \o << RunEv("delfile"), EndEv("delfile", f, IF f \in DOMAIN db.file THEN "0" ELSE "1") >>
    /\ UNCHANGED << files, code, nid >>
    /\ Emit

Next == Len(hist) < P.depth /\ (Edit \/ Code \/ Build \/ DeleteFunction \/ DeleteFile)

(* The ways that lead to the same state are the same. *)
View == << files, code, db >>

(* What is stored is complete, and belongs to functions that are known. *)
Consistent ==
  /\ \A k \in DOMAIN db.res : /\ k \in DOMAIN db.xs /\ k \in DOMAIN db.xd
                              /\ FnOf(k) \in DOMAIN db.fun
  /\ \A p \in DOMAIN db.cf : p[2] \in DOMAIN db.res /\ p[1] \in DOMAIN db.file
  /\ \A k \in DOMAIN db.xs : k \in DOMAIN db.res
=============================================================================
