------------------------------- MODULE Loc -------------------------------
(***************************************************************************)
(* Source locations and their order.  A location is in a file or in the    *)
(* output of an eval (`k` and `o` say which), at a line and a character,   *)
(* or nowhere in particular ("synthetic").                                 *)
(***************************************************************************)
EXTENDS Txt, Json, CSV, IOUtils

CONSTANTS Lines, Columns, Origins
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Emit(rec) == CSVWrite("%1$s", << ToJson(rec) >>, IOEnv.OUT)

Location == [k : {"source", "eval"}, o : Origins, l : Lines, c : Columns] \cup [k : {"synthetic"}, o : {1}, l : {1}, c : {1}]
SameOrigin(a, b) == a.k = b.k /\ a.o = b.o

(* -1: before, 0: equal, 1: after, 9: not comparable *)
Order(a, b) ==
  IF ~SameOrigin(a, b) THEN 9
  ELSE IF a.l < b.l THEN -1 ELSE IF a.l > b.l THEN 1
  ELSE IF a.c < b.c THEN -1 ELSE IF a.c > b.c THEN 1 ELSE 0
Le(a, b) == Order(a, b) \in {-1, 0}

(* Where the i-th character of a text is that starts at a *)
Texts == << << 97, 10, 98 >>, << 128, 129, 130 >>, << 10, 10, 97 >>, << 98, 13, 10, 128, 10 >>, << 130, 10, 129, 97 >>, << 9, 131, 12, 11 >> >>
Next1(l, x) == IF l.k = "synthetic" THEN l ELSE IF x = LF THEN [l EXCEPT !.l = @ + 1, !.c = 1] ELSE [l EXCEPT !.c = @ + 1]
RECURSIVE Places(_, _)
Places(l, t) == IF t = << >> THEN << >> ELSE << l >> \o Places(Next1(l, t[1]), Tail(t))
Big == 2000000000        \* TLC's numbers end soon after

VARIABLES a, done
Init == a \in Location /\ ((a.l % 8) + (a.c % 8) * 3 + a.o) % Shards = Shard /\ done = FALSE
(* One case: a location and its order to every other one *)
Others == SetToSeq(Location)
Next == /\ ~done /\ done' = TRUE /\ a' = a
        /\ Emit([c |-> [a |-> a, b |-> Others, texts |-> Texts],
                 o |-> [st |-> "ok", r |-> [i \in 1..Len(Others) |-> Order(a, Others[i])],
                        at |-> IF a.l > Big \/ a.c > Big THEN << >> ELSE [i \in 1..Len(Texts) |-> Places(a, Texts[i])]]])
Spec == Init /\ [][Next]_<< a, done >>

PartialOrder ==
  /\ Order(a, a) = 0
  /\ \A b \in Location : /\ (Le(a, b) /\ Le(b, a)) <=> a = b
                         /\ Order(b, a) = IF Order(a, b) = 9 THEN 9 ELSE -Order(a, b)
                         /\ Order(a, b) = 9 <=> ~SameOrigin(a, b)
(* Reading on is going on *)
Forward == (a.l <= Big /\ a.c <= Big) => \A i \in 1..Len(Texts) : LET ps == Places(a, Texts[i]) IN
  \A j, k \in 1..Len(ps) : SameOrigin(ps[j], ps[k]) /\ Order(ps[j], ps[k]) = (IF a.k = "synthetic" \/ j = k THEN 0 ELSE IF j < k THEN -1 ELSE 1)
Transitive == \A b \in Location : Le(a, b) => \A c \in Location : Le(b, c) => Le(a, c)
==========================================================================
