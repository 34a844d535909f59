-------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* How arguments are bound to parameters.                                  *)
(* A signature is a sequence of parameters [n, k, d]: name, kind (po only  *)
(* by position, pk also by name, va the rest of the positions, ko only by  *)
(* name, vk the rest of the names), and whether it has a default.  Calls   *)
(* are [args, kws]: values, and [n, v].  The default of the parameter at   *)
(* place i is 1000 + i.  Calls are alike if they bind alike; a program of  *)
(* cached calls runs a call if no call like it was answered before.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, done

V(clause, n) == [ clause |-> clause, n |-> n ]

Positional(sig) == SelectSeq(sig, LAMBDA p : p.k \in {"po", "pk"})
Has(sig, kind) == \E k \in 1..Len(sig) : sig[k].k = kind
ByName(sig, n) == { k \in 1..Len(sig) : sig[k].n = n /\ sig[k].k \in {"pk", "ko"} }
Place(sig, n) == CHOOSE k \in 1..Len(sig) : sig[k].n = n
Kws(call) == { call.kws[k].n : k \in 1..Len(call.kws) }
Kw(call, n) == call.kws[CHOOSE k \in 1..Len(call.kws) : call.kws[k].n = n].v

(* The position of the parameter at place k. *)
Pos(sig, k) == Cardinality({ j \in 1..k : sig[j].k \in {"po", "pk"} })

ByPosition(sig, call, k) == sig[k].k \in {"po", "pk"} /\ Pos(sig, k) <= Len(call.args)
ByKeyword(sig, call, k) == sig[k].k \in {"pk", "ko"} /\ sig[k].n \in Kws(call)

Rejected(sig, call) ==
  \/ Len(call.args) > Len(Positional(sig)) /\ ~Has(sig, "va")
  \/ \E n \in Kws(call) : ByName(sig, n) = {} /\ ~Has(sig, "vk")
  \/ \E k \in 1..Len(sig) : ByPosition(sig, call, k) /\ ByKeyword(sig, call, k)
  \/ \E k \in 1..Len(sig) : /\ sig[k].k \in {"po", "pk", "ko"} /\ ~sig[k].d
                            /\ ~ByPosition(sig, call, k) /\ ~ByKeyword(sig, call, k)

(* What a parameter gets: [v], or [vs] for the rest of the positions, or   *)
(* [m], the pairs of name and value, for the rest of the names.            *)
Value(sig, call, k) ==
  CASE sig[k].k = "va" -> [ vs |-> SubSeq(call.args, Len(Positional(sig)) + 1, Len(call.args)) ]
    [] sig[k].k = "vk" -> [ m |-> { << n, Kw(call, n) >> : n \in { n \in Kws(call) : ByName(sig, n) = {} } } ]
    [] ByPosition(sig, call, k) -> [ v |-> call.args[Pos(sig, k)] ]
    [] ByKeyword(sig, call, k) -> [ v |-> Kw(call, sig[k].n) ]
    [] OTHER -> [ v |-> 1000 + k ]

Bound(sig, call) == [ k \in 1..Len(sig) |-> Value(sig, call, k) ]

(* What was seen: rejected, or the values at the places of the signature. *)
Seen(sig, got) ==
  [ k \in 1..Len(sig) |->
      CASE sig[k].k = "va" -> [ vs |-> got[k] ]
        [] sig[k].k = "vk" -> [ m |-> { got[k][j] : j \in 1..Len(got[k]) } ]
        [] OTHER -> [ v |-> got[k] ] ]

Same(sig, call, o) ==
  IF Rejected(sig, call) THEN o.rejected ELSE ~o.rejected /\ Seen(sig, o.got) = Bound(sig, call)

(* Whether the nth call of a program has to run. *)
Runs(sig, calls, n) ==
  ~ \E m \in 1..(n - 1) : ~Rejected(sig, calls[m]) /\ Bound(sig, calls[m]) = Bound(sig, calls[n])

JudgeCall(c, n) ==
  LET sig == c.sig
      call == c.calls[n]
  IN (* First, what Python itself does with the call. *)
     (IF ~Same(sig, call, c.python[n]) THEN { V("model", n) } ELSE {})
     \cup (IF Same(sig, call, c.bound[n]) THEN {}
           ELSE { V(IF Rejected(sig, call) THEN "accepted" ELSE IF c.bound[n].rejected THEN "rejected" ELSE "bound", n) })
     \cup (IF c.cached = <<>> THEN {}
           ELSE LET o == c.cached[n] IN
             IF Rejected(sig, call) THEN (IF o.rejected /\ ~o.ran THEN {} ELSE { V("cachedaccepted", n) })
             ELSE IF o.rejected THEN { V("cachedrejected", n) }
             ELSE (IF Seen(sig, o.got) # Bound(sig, call) THEN { V("answer", n) } ELSE {})
                  \cup (IF o.ran /\ ~Runs(sig, c.calls, n) THEN { V("reran", n) } ELSE {})
                  \cup (IF ~o.ran /\ Runs(sig, c.calls, n) THEN { V("notran", n) } ELSE {}))

Judge(c) == UNION { JudgeCall(c, n) : n \in 1..Len(c.calls) }

Init == ti \in 1..Len(Cases) /\ done = FALSE
Step ==
  /\ ~done /\ done' = TRUE /\ ti' = ti
  /\ LET v == Judge(Cases[ti]) IN
     v # {} => PrintT("RESULT " \o ToJson([ id |-> Cases[ti].id, viol |-> SetToSeq(v) ]))
=============================================================================
