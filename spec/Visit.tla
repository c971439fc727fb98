------------------------------ MODULE Visit ------------------------------
(***************************************************************************)
(* Visiting expressions.  A tree is [k, n, a]: its kind, its number and    *)
(* its parts, in source order.  A walk keeps the nodes it still has to     *)
(* reach on a stack; reaching one, it is shown the node as such ("ast")    *)
(* and then as a node of its kind, and goes on with the parts.             *)
(*                                                                         *)
(* A visitor may override the method for one kind without going on, which  *)
(* leaves out the parts of such nodes only; a mutable one may edit what it *)
(* is shown.                                                               *)
(***************************************************************************)
EXTENDS Txt, Json, CSV, IOUtils

CONSTANTS Deep        \* how deep the enumerated trees are
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Emit(rec) == CSVWrite("%1$s", << ToJson(rec) >>, IOEnv.OUT)
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)

Leaves == << "empty", "constant", "preevaluated" >>
Unary  == << "variable_reference", "eval", "strip", "words" >>
Kinds  == {"empty", "constant", "preevaluated", "variable_reference", "eval", "strip", "words", "word", "concat"}
Tree(k, a) == [k |-> k, a |-> a]

RECURSIVE Trees(_)
Trees(d) ==
  IF d = 0 THEN {Tree(k, << >>) : k \in Range(Leaves)}
  ELSE LET S == Trees(d - 1) IN
       S \cup {Tree(k, << x >>) : k \in Range(Unary) \cup {"concat"}, x \in S}
         \cup {Tree("word", << x, y >>) : x \in S, y \in S}
         \cup {Tree("concat", << x, y >>) : x \in S, y \in S} \cup {Tree("concat", << >>)}
Enumerated == SetToSeq(Trees(Deep))

(* Give every node its number in source order *)
RECURSIVE Size(_), Number(_, _), NumberAll(_, _)
Size(t) == 1 + FoldLeft(LAMBDA s, x : s + Size(x), 0, t.a)
NumberAll(ts, n) == IF ts = << >> THEN << >> ELSE << Number(ts[1], n) >> \o NumberAll(Tail(ts), n + Size(ts[1]))
Number(t, n) == [k |-> t.k, n |-> IF t.k = "empty" THEN 0 ELSE n, a |-> NumberAll(t.a, n + 1)]

(* What a visitor is shown: the node; then the node as one of its kind, with the numbers of its parts *)
AsNode(t) == << "ast", t.n, << >> >>
AsKind(t) == << t.k, t.n, [i \in 1..Len(t.a) |-> t.a[i].n] >>

VARIABLES tree, stop, todo, shown, done
vars == << tree, stop, todo, shown, done >>

Input(i) == IF i <= Len(Enumerated) THEN Enumerated[i] ELSE Scripts[i - Len(Enumerated)]
Init == /\ \E i \in 1..(Len(Enumerated) + Len(Scripts)) : i % Shards = Shard /\ tree = Number(Input(i), 1)
        /\ stop \in {"none"} \cup (Kinds \ Range(Leaves))
        /\ todo = << tree >>
        /\ shown = << >>
        /\ done = FALSE

Reach == /\ ~done /\ todo # << >>
         /\ LET t == todo[1] IN
            /\ shown' = shown \o << AsNode(t), AsKind(t) >>
            /\ todo' = (IF t.k = stop THEN << >> ELSE t.a) \o Tail(todo)
         /\ UNCHANGED << tree, stop, done >>

(* Edits through the mutable visitor: by kind of node, after which it goes on into the new parts *)
RECURSIVE Edit(_, _)
Edit(t, e) ==
  LET a == IF e = t.k /\ e \in {"word", "concat"} THEN Reverse(t.a)
           ELSE IF e = t.k /\ e \in Range(Unary) THEN << [k |-> "constant", n |-> 7000, a |-> << >>] >>
           ELSE t.a
      n == IF e = t.k /\ e \in {"constant", "preevaluated"} THEN t.n + 5000 ELSE t.n
  IN  [k |-> t.k, n |-> n, a |-> [i \in 1..Len(a) |-> Edit(a[i], e)]]
Edits == << "word", "concat", "variable_reference", "eval", "strip", "words", "constant", "preevaluated" >>

End == /\ ~done /\ todo = << >>
       /\ done' = TRUE
       /\ Emit([c |-> [tree |-> tree, stop |-> stop],
                o |-> [st |-> "ok", shown |-> shown,
                       edits |-> IF stop # "none" THEN << >> ELSE [i \in 1..Len(Edits) |-> << Edits[i], Edit(tree, Edits[i]) >>]]])
       /\ UNCHANGED << tree, stop, todo, shown >>
Next == Reach \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
RECURSIVE All(_), Shown(_)
All(t) == << t >> \o FoldLeft(LAMBDA s, x : s \o All(x), << >>, t.a)
Shown(t) == << AsNode(t), AsKind(t) >> \o FoldLeft(LAMBDA s, x : s \o Shown(x), << >>, IF t.k = stop THEN << >> ELSE t.a)
(* Everything is reached once, parents before their parts, in source order *)
Complete == (done /\ stop = "none") =>
   /\ Len(shown) = 2 * Size(tree)
   /\ \A i \in 1..(Len(shown) \div 2) : shown[2 * i] = AsKind(All(tree)[i]) /\ shown[2 * i - 1] = AsNode(All(tree)[i])
SourceOrder == \A i, j \in 1..Len(shown) : (i < j /\ shown[i][2] > 0 /\ shown[j][2] > 0) => shown[i][2] <= shown[j][2]
WalkIsRecursion == done => shown = Shown(tree)
OnlyParts == done => \A i \in 1..Len(Edits) : Edits[i] \in {x.k : x \in Range(All(tree))} \/ Edit(tree, Edits[i]) = tree
==========================================================================
