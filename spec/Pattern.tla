------------------------------- MODULE Pattern -------------------------------
(***************************************************************************)
(* What file patterns mean.  Patterns and names are sequences of code      *)
(* points.                                                                 *)
(*   *  any text       ?  any character      [seq] [!seq]  a character      *)
(*   {pat1,pat2}  one of the patterns                                      *)
(* Without their other half, [ and { stand for themselves.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

STAR == 42   QUEST == 63   OPEN == 91   CLOSE == 93   NOT == 33   DASH == 45
LBRACE == 123   RBRACE == 125   COMMA == 44   DOT == 46   SLASH == 47

Is(p, i, c) == i <= Len(p) /\ p[i] = c

(* The first place from i on where p has c; 0 if there is none. *)
Find(p, i, c) ==
  LET S == { k \in i..Len(p) : p[k] = c } IN
  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A l \in S : k <= l

(* ------------------------------------------------------------- sets *)

(* A bracket as the first character of a set does not end it. *)
SetEnd(p, i) ==       \* i is after the opening bracket
  LET a == IF Is(p, i, NOT) THEN i + 1 ELSE i
      b == IF Is(p, a, CLOSE) THEN a + 1 ELSE a
  IN Find(p, b, CLOSE)

RECURSIVE Ranges(_)
Ranges(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Len(s) >= 3 /\ s[2] = DASH THEN << <<s[1], s[3]>> >> \o Ranges(SubSeq(s, 4, Len(s)))
  ELSE << <<s[1], s[1]>> >> \o Ranges(Tail(s))

TheSet(p, i, e) ==
  LET neg == Is(p, i, NOT)
  IN [ k |-> "set", neg |-> neg, r |-> Ranges(SubSeq(p, IF neg THEN i + 1 ELSE i, e - 1)) ]

(* ---------------------------------------------------------- patterns *)

(* Parse(p, i, inner): the items from i up to the end of the pattern, or,   *)
(* within braces, up to a comma or the closing brace; and where that is.    *)
RECURSIVE Parse(_, _, _, _)
RECURSIVE Group(_, _, _)
Parse(p, i, inner, acc) ==
  IF i > Len(p) \/ (inner /\ p[i] \in {COMMA, RBRACE}) THEN [ items |-> acc, at |-> i ]
  ELSE LET c == p[i] IN
    CASE c = STAR -> Parse(p, i + 1, inner, Append(acc, [ k |-> "star" ]))
      [] c = QUEST -> Parse(p, i + 1, inner, Append(acc, [ k |-> "any" ]))
      [] c = OPEN /\ SetEnd(p, i + 1) # 0 ->
           Parse(p, SetEnd(p, i + 1) + 1, inner, Append(acc, TheSet(p, i + 1, SetEnd(p, i + 1))))
      [] c = LBRACE ->
           LET g == Group(p, i + 1, <<>>) IN
           IF g.at # 0 THEN Parse(p, g.at, inner, Append(acc, [ k |-> "alt", alts |-> g.alts ]))
           ELSE Parse(p, i + 1, FALSE, Append(acc, [ k |-> "chr", c |-> c ]))
      [] OTHER -> Parse(p, i + 1, inner, Append(acc, [ k |-> "chr", c |-> c ]))

Group(p, i, alts) ==
  LET r == Parse(p, i, TRUE, <<>>) IN
  IF r.at > Len(p) THEN [ alts |-> <<>>, at |-> 0 ]
  ELSE IF p[r.at] = COMMA THEN Group(p, r.at + 1, Append(alts, r.items))
  ELSE [ alts |-> Append(alts, r.items), at |-> r.at + 1 ]

Items(p) == Parse(p, 1, FALSE, <<>>).items

(* A range from a later to an earlier character has no meaning. *)
RECURSIVE Sound(_)
Sound(items) == \A k \in 1..Len(items) :
  /\ items[k].k = "set" => \A r \in 1..Len(items[k].r) : items[k].r[r][1] <= items[k].r[r][2]
  /\ items[k].k = "alt" => \A a \in 1..Len(items[k].alts) : Sound(items[k].alts[a])

(* ---------------------------------------------------------- matching *)

One(it, c) ==
  CASE it.k = "any" -> TRUE
    [] it.k = "chr" -> it.c = c
    [] it.k = "set" -> it.neg # (\E r \in 1..Len(it.r) : it.r[r][1] <= c /\ c <= it.r[r][2])

(* Where the items can end in the name if they begin at the positions S. *)
RECURSIVE Ends(_, _, _, _)
Ends(items, k, S, name) ==
  IF k > Len(items) \/ S = {} THEN S
  ELSE LET it == items[k]
           T == CASE it.k = "star" -> { q \in 1..(Len(name) + 1) : \E s \in S : s <= q }
                  [] it.k = "alt" -> UNION { Ends(it.alts[a], 1, S, name) : a \in 1..Len(it.alts) }
                  [] OTHER -> { s + 1 : s \in { q \in S : q <= Len(name) /\ One(it, name[q]) } }
       IN Ends(items, k + 1, T, name)

(* The parts between the slashes. *)
RECURSIVE SplitParts(_)
SplitParts(t) ==
  LET k == Find(t, 1, SLASH) IN
  IF k = 0 THEN << t >> ELSE << SubSeq(t, 1, k - 1) >> \o SplitParts(SubSeq(t, k + 1, Len(t)))

MatchItems(items, name) == (Len(name) + 1) \in Ends(items, 1, {1}, name)
Match(name, p) == MatchItems(Items(p), name)
=============================================================================
