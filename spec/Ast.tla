------------------------------ MODULE Ast ------------------------------
(***************************************************************************)
(* Expressions: the unexpanded form in which values and commands are       *)
(* stored.  An expression is a sequence of items [k, t, l, a, s]:          *)
(*   k = "t"      text t                                                   *)
(*   k = "p"      text t that was expanded earlier, sensitive to s         *)
(*   k = "r"      a reference whose name is the expression a[1]            *)
(*   k = "e"      $(eval a[1])                                             *)
(*   k = "strip", "words", "word"   calls with arguments a                 *)
(* l is the tag of the $ that starts a reference or call.                  *)
(***************************************************************************)
EXTENDS Txt

Item(k, t, l, a, s) == [k |-> k, t |-> t, l |-> l, a |-> a, s |-> s]
AddT(acc, t) ==
  IF t = << >> THEN acc
  ELSE IF acc # << >> /\ acc[Len(acc)].k = "t"
       THEN [acc EXCEPT ![Len(acc)].t = @ \o t]
       ELSE Append(acc, Item("t", t, 0, << >>, {}))
TextAst(t) == AddT(<< >>, t)
CatAst(a, b) == IF b = << >> THEN a
                ELSE IF b[1].k = "t" THEN AddT(a, b[1].t) \o Tail(b)
                ELSE a \o b

POk(a) == [ok |-> TRUE, a |-> a, e |-> ""]
PErr(e) == [ok |-> FALSE, a |-> << >>, e |-> e]
UNTERM == "UnternimatedVariable"

(* The bracket that closes a reference whose inside starts at i, or 0 *)
RECURSIVE Closer(_, _, _, _, _)
Closer(t, i, o, c, depth) ==
  IF i > Len(t) THEN 0
  ELSE LET x == t[i] % 256 IN
       IF x = c THEN IF depth = 1 THEN i ELSE Closer(t, i + 1, o, c, depth - 1)
       ELSE Closer(t, i + 1, o, c, IF x = o THEN depth + 1 ELSE depth)

(* The end of the function argument that starts at i: the position of the  *)
(* comma after it or Len(t)+1, or 0 if brackets do not match               *)
RECURSIVE ArgEnd(_, _, _, _)
ArgEnd(t, i, p, b) ==
  IF i > Len(t) THEN i
  ELSE LET x == t[i] % 256 IN
       CASE x = LP -> ArgEnd(t, i + 1, p + 1, b)
         [] x = RP -> IF p = 0 THEN 0 ELSE ArgEnd(t, i + 1, p - 1, b)
         [] x = LB -> ArgEnd(t, i + 1, p, b + 1)
         [] x = RB -> IF b = 0 THEN 0 ELSE ArgEnd(t, i + 1, p, b - 1)
         [] x = COMMA /\ p = 0 /\ b = 0 -> i
         [] OTHER -> ArgEnd(t, i + 1, p, b)

CallAt(t, w) == LitAt(t, 1, w) /\ Blank(At(t, Len(w) + 1))

RECURSIVE ParseR(_, _, _)
Parse(t) == ParseR(t, 1, << >>)

OneArg(t, l, k) ==      \* $(strip x), $(words x)
  LET e == ArgEnd(t, 1, 0, 0) IN
  IF e = 0 THEN PErr(UNTERM)
  ELSE IF e <= Len(t) THEN PErr("ExtraArguments:" \o k)
  ELSE LET r == Parse(t) IN
       IF ~r.ok THEN r ELSE POk(<< Item(k, << >>, l, << r.a >>, {}) >>)

TwoArgs(t, l, k) ==     \* $(word n,x)
  LET e == ArgEnd(t, 1, 0, 0) IN
  IF e = 0 THEN PErr(UNTERM)
  ELSE IF e > Len(t) THEN PErr("InsufficientArguments:" \o k)
  ELSE LET r1 == Parse(Upto(t, e - 1))
           t2 == From(t, SkipBlanks(t, e + 1))
           e2 == ArgEnd(t2, 1, 0, 0)
       IN  IF ~r1.ok THEN r1
           ELSE IF e2 = 0 THEN PErr(UNTERM)
           ELSE IF e2 <= Len(t2) THEN PErr("ExtraArguments:" \o k)
           ELSE LET r2 == Parse(t2) IN
                IF ~r2.ok THEN r2 ELSE POk(<< Item(k, << >>, l, << r1.a, r2.a >>, {}) >>)

(* What is between the brackets of $(...) *)
ParseCall(t, l) ==
  LET args(w) == From(t, SkipBlanks(t, Len(w) + 1)) IN
  CASE CallAt(t, K_eval) ->
         LET r == Parse(args(K_eval)) IN
         IF ~r.ok THEN r ELSE POk(<< Item("e", << >>, l, << r.a >>, {}) >>)
    [] CallAt(t, K_strip) -> OneArg(args(K_strip), l, "strip")
    [] CallAt(t, K_words) -> OneArg(args(K_words), l, "words")
    [] CallAt(t, K_word)  -> TwoArgs(args(K_word), l, "word")
    [] OTHER ->
         LET r == Parse(t) IN
         IF ~r.ok THEN r ELSE POk(<< Item("r", << >>, l, << r.a >>, {}) >>)

ParseR(t, i, acc) ==
  LET d    == Find(t, i, {DOLLAR})
      acc1 == AddT(acc, SubSeq(t, i, d - 1))
      c    == At(t, d + 1)
  IN  IF d > Len(t) THEN POk(acc1)
      ELSE IF d = Len(t) THEN POk(AddT(acc1, << t[d] >>))
      ELSE IF c = DOLLAR THEN ParseR(t, d + 2, AddT(acc1, << t[d + 1] >>))
      ELSE IF c = LP \/ c = LB THEN
        LET e == Closer(t, d + 2, c, IF c = LP THEN RP ELSE RB, 1) IN
        IF e = 0 THEN PErr(UNTERM)
        ELSE LET r == ParseCall(SubSeq(t, d + 2, e - 1), TAG(t[d])) IN
             IF ~r.ok THEN r ELSE ParseR(t, e + 1, acc1 \o r.a)
      ELSE ParseR(t, d + 2, Append(acc1, Item("r", << >>, TAG(t[d]), << TextAst(<< t[d + 1] >>) >>, {})))

(* Does an expression contain an item of one of the kinds K, at any depth? *)
RECURSIVE HasKind(_, _)
HasKind(a, K) == \E i \in 1..Len(a) : a[i].k \in K \/ \E j \in 1..Len(a[i].a) : HasKind(a[i].a[j], K)
========================================================================
