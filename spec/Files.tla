------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* What the builders of files and texts write.  The state is the files,    *)
(* from paths to contents, and the directories; paths and contents are     *)
(* sequences of code points.  A case is a history of edits and builds;     *)
(* each build calls builders, and is seen by their answers and by all      *)
(* files afterwards.                                                       *)
(***************************************************************************)
EXTENDS Pattern, Integers, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, m, what) == [ clause |-> clause, n |-> n, m |-> m, what |-> what ]

AT == 64   NL == 10   HASH == 35   SPACE == 32   ZERO == 48

Word(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ (c >= 48 /\ c <= 57) \/ c = 95

At(t, i, lit) == i + Len(lit) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(lit) - 1) = lit

(* ------------------------------------------------------------ values *)

(* Values of substitutions are [t, v, items]. *)
RECURSIVE JoinBy(_, _)
JoinBy(parts, sep) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o JoinBy(Tail(parts), sep)

Shown(val) == IF val.t = "list" THEN JoinBy(val.items, <<SPACE>>) ELSE val.v

Known(pats, key) == \E k \in 1..Len(pats) : pats[k].key = key
Val(pats, key) == pats[CHOOSE k \in 1..Len(pats) : pats[k].key = key].val

(* ----------------------------------------------------- substitutions *)
(* All give [ok, t]. *)
Ok(t) == [ ok |-> TRUE, t |-> t ]
Failed == [ ok |-> FALSE, t |-> <<>> ]
Then(t, r) == IF r.ok THEN Ok(t \o r.t) ELSE r

RECURSIVE Replace(_, _, _, _)
Replace(t, i, lit, new) ==
  IF i > Len(t) THEN <<>>
  ELSE IF At(t, i, lit) THEN new \o Replace(t, i + Len(lit), lit, new)
  ELSE <<t[i]>> \o Replace(t, i + 1, lit, new)

RECURSIVE Subst(_, _)
Subst(t, pats) ==
  IF pats = <<>> THEN Ok(t)
  ELSE Subst(Replace(t, 1, Head(pats).key, Head(pats).val.v), Tail(pats))

(* Expressions are a literal, perhaps at the begin or the end of lines (m) *)
(* or of the whole text, perhaps of any case (i).                          *)
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LineStart(t, i) == i = 1 \/ t[i - 1] = NL
LineEnd(t, j) == j = Len(t) + 1 \/ t[j] = NL
TextEnd(t, j) == j = Len(t) + 1 \/ (j = Len(t) /\ t[j] = NL)

ReAt(t, i, p) ==
  LET n == Len(p.lit) IN
  /\ i + n - 1 <= Len(t)
  /\ \A k \in 1..n : IF p.i THEN Lower(t[i + k - 1]) = Lower(p.lit[k]) ELSE t[i + k - 1] = p.lit[k]
  /\ p.start => IF p.m THEN LineStart(t, i) ELSE i = 1
  /\ p.end => IF p.m THEN LineEnd(t, i + n) ELSE TextEnd(t, i + n)

RECURSIVE ReScan(_, _, _)
ReScan(t, i, p) ==
  IF i > Len(t) THEN <<>>
  ELSE IF ReAt(t, i, p)
    THEN p.before \o (IF p.keep THEN SubSeq(t, i, i + Len(p.lit) - 1) ELSE <<>>) \o p.after \o ReScan(t, i + Len(p.lit), p)
  ELSE <<t[i]>> \o ReScan(t, i + 1, p)

RECURSIVE Regex(_, _)
Regex(t, pats) == IF pats = <<>> THEN Ok(t) ELSE Regex(ReScan(t, 1, Head(pats)), Tail(pats))

RECURSIVE Format(_, _, _)
Format(t, i, pats) ==
  IF i > Len(t) THEN Ok(<<>>)
  ELSE IF t[i] = LBRACE THEN
    IF Is(t, i + 1, LBRACE) THEN Then(<<LBRACE>>, Format(t, i + 2, pats))
    ELSE LET e == Find(t, i + 1, RBRACE) IN
         IF e = 0 \/ ~Known(pats, SubSeq(t, i + 1, e - 1)) THEN Failed
         ELSE Then(Shown(Val(pats, SubSeq(t, i + 1, e - 1))), Format(t, e + 1, pats))
  ELSE IF t[i] = RBRACE THEN
    IF Is(t, i + 1, RBRACE) THEN Then(<<RBRACE>>, Format(t, i + 2, pats)) ELSE Failed
  ELSE Then(<<t[i]>>, Format(t, i + 1, pats))

(* The end of the word that starts at i. *)
WordEnd(t, i) ==
  LET S == { k \in i..(Len(t) + 1) : k = Len(t) + 1 \/ ~Word(t[k]) } IN CHOOSE k \in S : \A l \in S : k <= l

RECURSIVE Conf(_, _, _)
Conf(t, i, pats) ==
  IF i > Len(t) THEN Ok(<<>>)
  ELSE IF t[i] = AT /\ i < Len(t) /\ WordEnd(t, i + 1) > i + 1 /\ Is(t, WordEnd(t, i + 1), AT) THEN
    LET e == WordEnd(t, i + 1)
        w == SubSeq(t, i + 1, e - 1)
    IN IF ~Known(pats, w) THEN Failed ELSE Then(Shown(Val(pats, w)), Conf(t, e + 1, pats))
  ELSE Then(<<t[i]>>, Conf(t, i + 1, pats))

UNDEF == << 35, 117, 110, 100, 101, 102 >>      \* #undef
DEFINED == << 35, 100, 101, 102, 105, 110, 101, 32 >>

(* The word of the #undef at i, as [from, to); from = 0 without one. *)
UndefAt(t, i) ==
  LET j == i + Len(UNDEF)
      S == { k \in j..Len(t) : \A l \in j..k : t[l] = SPACE }
      from == j + Cardinality(S)
  IN IF LineStart(t, i) /\ At(t, i, UNDEF) /\ S # {} /\ from <= Len(t) /\ WordEnd(t, from) > from /\ LineEnd(t, WordEnd(t, from))
       THEN [ from |-> from, to |-> WordEnd(t, from) ] ELSE [ from |-> 0, to |-> 0 ]

(* What is defined, nothing if it is not. *)
Definition(val) ==
  CASE val.t = "true" -> << 49 >>
    [] val.t \in { "false", "none" } -> <<>>
    [] val.t = "int" /\ val.v = << ZERO >> -> <<>>
    [] OTHER -> Shown(val)

RECURSIVE Header(_, _, _)
Header(t, i, pats) ==
  IF i > Len(t) THEN Ok(<<>>)
  ELSE LET u == UndefAt(t, i) IN
    IF u.from # 0 THEN
      LET w == SubSeq(t, u.from, u.to - 1) IN
      IF ~Known(pats, w) THEN Failed
      ELSE LET d == Definition(Val(pats, w)) IN
           Then(IF d = <<>> THEN << 47, 42, SPACE >> \o UNDEF \o <<SPACE>> \o w \o << SPACE, 42, 47 >>
                ELSE DEFINED \o w \o <<SPACE>> \o d,
                Header(t, u.to, pats))
    ELSE IF t[i] = AT /\ i < Len(t) /\ WordEnd(t, i + 1) > i + 1 /\ Is(t, WordEnd(t, i + 1), AT) THEN
      LET e == WordEnd(t, i + 1)
          w == SubSeq(t, i + 1, e - 1)
      IN IF ~Known(pats, w) THEN Failed ELSE Then(Shown(Val(pats, w)), Header(t, e + 1, pats))
    ELSE Then(<<t[i]>>, Header(t, i + 1, pats))

Text(call, t) ==
  CASE call.kind = "subst" -> Subst(t, call.pats)
    [] call.kind = "regex" -> Regex(t, call.res)
    [] call.kind = "format" -> Format(t, 1, call.pats)
    [] call.kind = "conf" -> Conf(t, 1, call.pats)
    [] call.kind = "header" -> Header(t, 1, call.pats)
    [] OTHER -> Ok(t)

(* ------------------------------------------------------------- files *)

Name(p) == Last(SplitParts(p))
RECURSIVE Dirs(_)
Dirs(p) == LET parts == SplitParts(p) IN { JoinBy(SubSeq(parts, 1, n), <<SLASH>>) : n \in 1..(Len(parts) - 1) }

Put(st, p, t) ==
  [ files |-> [ q \in DOMAIN st.files \cup {p} |-> IF q = p THEN t ELSE st.files[q] ], dirs |-> st.dirs \cup Dirs(p) ]
Drop(st, p) == [ st EXCEPT !.files = [ q \in DOMAIN st.files \ {p} |-> st.files[q] ] ]

BUILD == << 98, 117, 105, 108, 100 >>
Below(p) == IF SplitParts(p)[1] = BUILD THEN p ELSE BUILD \o <<SLASH>> \o p

Place(st, call) ==
  LET p == Below(call.dst) IN
  IF call.kind \in { "copy", "move" } /\ (call.slash \/ p \in st.dirs) THEN p \o <<SLASH>> \o Name(call.src) ELSE p

(* An answer is [error, ret], ret a sequence of paths. *)
No == [ error |-> TRUE, ret |-> <<>> ]
Yes(p) == [ error |-> FALSE, ret |-> <<p>> ]

(* Pattern copies: the names of all files below a directory that end, or   *)
(* begin, with something get something else in its place.                  *)
EndsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
HasIn(t, s) == \E i \in 1..Len(t) : At(t, i, s)
Renamed(call, rel) ==
  CASE call.how = "end" -> IF EndsWith(rel, call.from) THEN <<SubSeq(rel, 1, Len(rel) - Len(call.from)) \o call.to>> ELSE <<>>
    [] call.how = "begin" -> IF At(rel, 1, call.from) THEN <<call.to \o SubSeq(rel, Len(call.from) + 1, Len(rel))>> ELSE <<>>
    [] call.how = "group" -> IF EndsWith(rel, call.from)
                             THEN <<call.to \o SubSeq(rel, 1, Len(rel) - Len(call.from)) \o call.from>> ELSE <<>>
Chosen(st, call) ==
  { p \in DOMAIN st.files :
      /\ At(p, 1, call.src \o <<SLASH>>)
      /\ call.excl = <<>> \/ ~HasIn(p, call.excl)
      /\ Renamed(call, SubSeq(p, Len(call.src) + 2, Len(p))) # <<>> }
Goal(call, p) == Below(call.dst) \o <<SLASH>> \o Renamed(call, SubSeq(p, Len(call.src) + 2, Len(p)))[1]

RECURSIVE PutAll(_, _, _)
PutAll(st, call, S) ==
  IF S = {} THEN st ELSE LET p == CHOOSE p \in S : TRUE IN PutAll(Put(st, Goal(call, p), st.files[p]), call, S \ {p})

(* What one call does: [st, ans]. *)
Does(st, call) ==
  CASE call.kind = "copyre" ->
         LET S == Chosen(st, call) IN
         [ st |-> PutAll(st, call, S), ans |-> [ error |-> FALSE, ret |-> SetToSeq({ Goal(call, p) : p \in S }) ] ]
    [] call.kind = "move" ->
         LET p == Place(st, call) IN
         IF call.src \in DOMAIN st.files THEN [ st |-> Drop(Put(st, p, st.files[call.src]), call.src), ans |-> Yes(p) ]
         ELSE [ st |-> st, ans |-> IF p \in DOMAIN st.files THEN Yes(p) ELSE No ]
    [] OTHER ->
         LET p == Place(st, call) IN
         IF call.src \notin DOMAIN st.files THEN [ st |-> st, ans |-> No ]
         ELSE LET r == Text(call, st.files[call.src]) IN
              IF r.ok THEN [ st |-> Put(st, p, r.t), ans |-> Yes(p) ] ELSE [ st |-> st, ans |-> No ]

RECURSIVE Calls(_, _)
Calls(st, calls) ==
  IF calls = <<>> THEN [ st |-> st, ans |-> <<>> ]
  ELSE LET d == Does(st, Head(calls))
           r == Calls(d.st, Tail(calls))
       IN [ st |-> r.st, ans |-> <<d.ans>> \o r.ans ]

AsFun(list) == [ p \in { list[k].p : k \in 1..Len(list) } |-> list[CHOOSE k \in 1..Len(list) : list[k].p = p].t ]

JudgeBuild(step, n, st, r) ==
  LET got == AsFun(step.got)
      good == r.st.files
  IN UNION { LET a == r.ans[m]
                 o == step.ans[m]
             IN (IF a.error # o.error THEN { V(IF o.error THEN "failed" ELSE "accepted", n, m, <<>>) } ELSE {})
                \cup (IF ~a.error /\ ~o.error /\ (ToSet(a.ret) # ToSet(o.ret) \/ Len(a.ret) # Len(o.ret))
                        THEN { V("returned", n, m, <<>>) } ELSE {})
           : m \in 1..Len(r.ans) }
     \cup { V("missing", n, 0, p) : p \in DOMAIN good \ DOMAIN got }
     \cup { V("extra", n, 0, p) : p \in DOMAIN got \ DOMAIN good }
     \cup { V("contents", n, 0, p) : p \in { p \in DOMAIN good \cap DOMAIN got : good[p] # got[p] } }

RECURSIVE Walk(_, _, _)
Walk(c, n, st) ==
  IF n > Len(c.steps) THEN {}
  ELSE LET s == c.steps[n] IN
    CASE s.op = "write" -> Walk(c, n + 1, Put(st, s.p, s.t))
      [] s.op = "delete" -> Walk(c, n + 1, Drop(st, s.p))
      [] s.op = "build" ->
           LET r == Calls(st, s.calls)
               v == JudgeBuild(s, n, st, r)
           IN IF v # {} THEN v ELSE Walk(c, n + 1, r.st)

Judge(c) == Walk(c, 1, [ files |-> <<>>, dirs |-> {} ])

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
