-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* Executing commands.  A command is a program that reports how it was     *)
(* started (arguments, environment, directory, input) and then follows a   *)
(* script: it writes, reads, closes, exits or is killed by a signal.       *)
(* Texts are hexadecimal, data are sequences of runs [c, n].               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n, what) == [ clause |-> clause, n |-> n, what |-> what ]

(* -------------------------------------------------------------------- data *)

Add(data, r) ==
  IF r.n = 0 THEN data
  ELSE IF data # <<>> /\ Last(data).c = r.c THEN Append(Front(data), [ c |-> r.c, n |-> Last(data).n + r.n ])
  ELSE Append(data, r)
RECURSIVE Normal(_)
Normal(data) == IF data = <<>> THEN <<>> ELSE Add(Normal(Front(data)), Last(data))
RECURSIVE Prefix(_, _)
Prefix(data, n) ==
  IF data = <<>> \/ n = 0 THEN <<>>
  ELSE IF Head(data).n >= n THEN << [ c |-> Head(data).c, n |-> n ] >>
  ELSE <<Head(data)>> \o Prefix(Tail(data), n - Head(data).n)

(* ------------------------------------------------------------- environment *)

AsFun(list) == [ k \in { list[j].k : j \in 1..Len(list) } |-> list[CHOOSE j \in 1..Len(list) : list[j].k = k].v ]
Over(f, g) == [ k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k] ]
One(k, v) == [ x \in {k} |-> v ]

COLON == "3a"
RECURSIVE Joined(_)
Joined(libs) == IF Len(libs) = 1 THEN libs[1] ELSE libs[1] \o COLON \o Joined(Tail(libs))

Environment(c, x, o) ==
  LET e == Over(Over(AsFun(c.base), AsFun(x.env)), One("50524f4245", o.script)) IN
  IF x.libs = <<>> THEN e
  ELSE Over(e, One(c.libvar, IF c.libvar \in DOMAIN e THEN e[c.libvar] \o COLON \o Joined(x.libs) ELSE Joined(x.libs)))

(* ------------------------------------------------------------------ script *)

Run0(x) == [ out |-> <<>>, err |-> <<>>, seen |-> <<>>, input |-> Normal(x.input), code |-> 0, sig |-> 0, on |-> TRUE ]

Act(s, x, a) ==
  CASE a.op = "o" -> [ s EXCEPT !.out = IF x.out = "null" THEN @ ELSE Add(@, [ c |-> a.b, n |-> a.a ]) ]
    [] a.op = "e" ->
         IF x.err = "stdout" THEN [ s EXCEPT !.out = IF x.out = "null" THEN @ ELSE Add(@, [ c |-> a.b, n |-> a.a ]) ]
         ELSE [ s EXCEPT !.err = IF x.err = "null" THEN @ ELSE Add(@, [ c |-> a.b, n |-> a.a ]) ]
    [] a.op = "i" -> [ s EXCEPT !.seen = s.input ]
    [] a.op = "r" -> [ s EXCEPT !.seen = Prefix(s.input, a.a) ]
    [] a.op = "x" -> [ s EXCEPT !.code = a.a, !.on = FALSE ]
    [] a.op = "k" -> [ s EXCEPT !.sig = a.a, !.on = FALSE ]
    [] OTHER -> s

RECURSIVE Acts(_, _, _)
Acts(s, x, acts) == IF acts = <<>> \/ ~s.on THEN s ELSE Acts(Act(s, x, Head(acts)), x, Tail(acts))

Starts(x) == x.how \in { "list", "string", "shell" }

Kind(x, s) ==
  CASE ~Starts(x) -> "os"
    [] s.sig = 2 -> "interrupt"
    [] (s.code # 0 \/ s.sig # 0) /\ ~x.ignore -> "error"
    [] OTHER -> "ok"

Piped(x) == (IF x.out = "pipe" THEN "o" ELSE "") \o (IF x.err = "pipe" THEN "e" ELSE "")

JudgeItem(c, n) ==
  LET x == c.items[n]
      o == c.got[n]
      s == Acts(Run0(x), x, x.acts)
      kind == Kind(x, s)
      env == Environment(c, x, o)
      seen == AsFun(o.env)
      argv == <<o.exe>> \o (IF x.how = "string" THEN <<>> ELSE x.args)
  IN (IF o.kind # kind THEN { V("outcome", n, o.kind) } ELSE {})
     \cup (IF o.ran # Starts(x) THEN { V("started", n, "") } ELSE {})
     \cup (IF ~Starts(x) \/ ~o.ran THEN {}
           ELSE (IF o.argv # argv THEN { V("arguments", n, "") } ELSE {})
                \cup { V("environment", n, k) : k \in { k \in DOMAIN env : k \notin DOMAIN seen \/ seen[k] # env[k] } }
                \cup (IF x.how # "shell" THEN { V("environment", n, k) : k \in DOMAIN seen \ DOMAIN env } ELSE {})
                \cup (IF o.cwd # (IF x.cwd THEN o.dir ELSE c.root) THEN { V("directory", n, "") } ELSE {})
                \cup (IF o.stdin # s.seen THEN { V("input", n, "") } ELSE {})
                \cup (IF o.pre # x.preexec THEN { V("preexec", n, "") } ELSE {})
                \cup (IF kind \in { "ok", "error" } /\ o.kind = kind
                        THEN (IF o.piped # Piped(x) THEN { V("piped", n, o.piped) } ELSE {})
                             \cup (IF o.out # s.out THEN { V("output", n, "") } ELSE {})
                             \cup (IF o.err # s.err THEN { V("errors", n, "") } ELSE {})
                        ELSE {})
                \cup (IF kind = "error" /\ o.kind = kind
                        THEN (IF o.code # (IF s.sig # 0 THEN -s.sig ELSE s.code) THEN { V("code", n, ToString(o.code)) } ELSE {})
                             \cup (IF ~o.same THEN { V("command", n, "") } ELSE {})
                        ELSE {}))

Judge(c) ==
  UNION { JudgeItem(c, n) : n \in 1..Len(c.items) }
  \cup (IF c.left > 0 THEN { V("threads", 0, ToString(c.left)) } ELSE {})
  \cup (IF c.zombies > 0 THEN { V("zombies", 0, ToString(c.zombies)) } ELSE {})

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
