------------------------------ MODULE Rope ------------------------------
(***************************************************************************)
(* Blocks of text.  A block is nothing but the text it stands for: a       *)
(* sequence of characters with their provenance (see Txt).  A pool of      *)
(* blocks is built by a history of operations; every operation adds one    *)
(* block to the pool or replaces one, and touches no other.                *)
(*                                                                         *)
(* At the end of a history everything that can be asked of the spans of    *)
(* one of the blocks is written out, together with all texts after each    *)
(* operation, to be compared with the implementation.                      *)
(***************************************************************************)
EXTENDS Txt, Json, CSV, IOUtils

CONSTANTS Texts,      \* of constants
          Needles,    \* texts to compare with and to search for
          Depth,      \* length of the histories
          Targets,    \* which blocks may be added to
          MaxBlocks, MaxChars

Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Emit(rec) == CSVWrite("%1$s", << ToJson(rec) >>, IOEnv.OUT)

Bytes(c) == CASE c % 256 = 128 -> 2 [] c % 256 = 129 -> 3 [] c % 256 = 130 -> 4 [] c % 256 = 131 -> 3 [] OTHER -> 1
(* The number of bytes before each position 1..Len(t)+1 *)
Off(t) == FoldLeft(LAMBDA o, c : o \o << o[Len(o)] + Bytes(c) >>, << 0 >>, t)
ByteLen(t) == LET o == Off(t) IN o[Len(o)]

(* A constant, the step-th thing to be written, starts at line 1, column 1 of its own file *)
RECURSIVE Mark(_, _, _, _, _)
Mark(f, t, i, line, col) ==
  IF i > Len(t) THEN << >>
  ELSE << ((f * 100 + line) * 1000 + col) * 256 + t[i] >>
       \o IF t[i] = LF THEN Mark(f, t, i + 1, line + 1, 1) ELSE Mark(f, t, i + 1, line, col + 1)
Const(f, t) == Mark(f, t, 1, 1, 1)

(* Besides all histories of length Depth, some longer ones are given: the numbers in their     *)
(* operations are taken modulo what is possible                                                  *)
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
Ops(i) == Scripts[i].ops

VARIABLES script,  \* 0: any operation may come next; otherwise the number of a given history
          pool,    \* the texts of the blocks
          hist,    \* the operations so far
          seen,    \* the pool after each of them
          done
vars == << script, pool, hist, seen, done >>

(* One constant, a constant and a block in a block, nothing *)
Init == /\ script \in {i \in 0..Len(Scripts) : i = 0 \/ i % Shards = Shard}
        /\ pool = << Const(1, << 97, 128 >>), Const(2, << 120 >>) \o Const(3, << 129, 10, 98 >>), << >> >>
        /\ hist = << >>
        /\ seen = << >>
        /\ done = FALSE

Blocks == 1..Len(pool)
Sub(t, a, b) == SubSeq(t, a + 1, b)       \* characters a .. b-1, counted from 0
Cuts(t) == {ab \in (0..Len(t)) \X (0..Len(t)) : ab[1] <= ab[2]}

(* The histories are shared among several processes by their first operation *)
Mine(o) == LET g(k) == IF k \in DOMAIN o THEN o[k] ELSE 0 IN
           (g("i") * 7 + g("j") * 5 + g("a") * 3 + g("b") + g("c") + (IF "t" \in DOMAIN o THEN Len(o.t) ELSE 0)) % Shards = Shard
Op(o, new) ==
  /\ (hist = << >> /\ script = 0) => Mine(o)
  /\ pool' = new
  /\ hist' = Append(hist, o)
  /\ seen' = Append(seen, new)
  /\ UNCHANGED << script, done >>
Fits(t) == Len(t) <= IF script = 0 THEN MaxChars ELSE Scripts[script].chars
Room == Len(pool) < IF script = 0 THEN MaxBlocks ELSE Scripts[script].blocks
Add(i, t) == [pool EXCEPT ![i] = @ \o t]

(* Push a constant *)
PushConst(i, t) == Op([o |-> "pushc", i |-> i, f |-> Len(hist) + 10, t |-> t], Add(i, Const(Len(hist) + 10, t)))
(* Push a space, a line break or a semicolon that is written nowhere *)
PushSyn(i, c) == Op([o |-> "syn", i |-> i, c |-> c], Add(i, << c >>))
(* Push a reference to another block (or a copy of the block itself), in some kind of node *)
PushBlock(i, j, n) == Op([o |-> "pushb", i |-> i, j |-> j, n |-> n], Add(i, pool[j]))
(* Push the contents of a span *)
PushSpan(i, j, ab) == Op([o |-> "pushs", i |-> i, j |-> j, a |-> ab[1], b |-> ab[2]], Add(i, Sub(pool[j], ab[1], ab[2])))
(* Push a reference to a copy of a span *)
PushRef(i, j, ab) == Op([o |-> "pushr", i |-> i, j |-> j, a |-> ab[1], b |-> ab[2]], Add(i, Sub(pool[j], ab[1], ab[2])))
(* Push a reference to a part of a node *)
PushPart(i, j, ab) == Op([o |-> "pushp", i |-> i, j |-> j, a |-> ab[1], b |-> ab[2]], Add(i, Sub(pool[j], ab[1], ab[2])))
(* A new block: empty, a copy, a copy of a span *)
NewEmpty == Op([o |-> "new"], Append(pool, << >>))
NewCopy(j) == Op([o |-> "copy", j |-> j], Append(pool, pool[j]))
NewSpan(j, ab) == Op([o |-> "span", j |-> j, a |-> ab[1], b |-> ab[2]], Append(pool, Sub(pool[j], ab[1], ab[2])))

Node == {"concat", "variable", "substitution", "evaluated"}
Explore ==
  /\ script = 0 /\ ~done /\ Len(hist) < Depth
  /\ \/ \E i \in Blocks \cap Targets :
           \/ \E t \in Texts : PushConst(i, t)
           \/ PushSyn(i, SP)
           \/ \E j \in Blocks : /\ Fits(pool[i] \o pool[j])
                                /\ \/ \E n \in Node : PushBlock(i, j, n)
                                   \/ \E ab \in Cuts(pool[j]) :
                                         PushSpan(i, j, ab) \/ PushRef(i, j, ab) \/ (ab[1] < Len(pool[j]) /\ PushPart(i, j, ab))
     \/ Room /\ (NewEmpty \/ \E j \in Blocks : NewCopy(j) \/ \E ab \in Cuts(pool[j]) : NewSpan(j, ab))

(* The next operation of a given history; one that is not possible is left out *)
Nodes == << "concat", "variable", "substitution", "evaluated" >>
TextSeq == SetToSeq(Texts)
Follow ==
  /\ script > 0 /\ ~done /\ Len(hist) < Len(Ops(script))
  /\ LET r == Ops(script)[Len(hist) + 1]
         i == 1 + (r.i % Len(pool))
         j == 1 + (r.j % Len(pool))
         n == Len(pool[j])
         x == r.a % (n + 1)
         y == r.b % (n + 1)
         ab == IF x <= y THEN << x, y >> ELSE << y, x >>
         fits == Fits(pool[i] \o Sub(pool[j], ab[1], ab[2]))
     IN  CASE r.o = "pushc" /\ Fits(pool[i]) -> PushConst(i, TextSeq[1 + (r.a % Len(TextSeq))])
           [] r.o = "syn" /\ Fits(pool[i]) -> PushSyn(i, << SP, LF, SEMI >>[1 + (r.a % 3)])
           [] r.o = "pushb" /\ Fits(pool[i] \o pool[j]) -> PushBlock(i, j, Nodes[1 + (r.a % 4)])
           [] r.o = "pushs" /\ fits -> PushSpan(i, j, ab)
           [] r.o = "pushr" /\ fits -> PushRef(i, j, ab)
           [] r.o = "pushp" /\ fits /\ ab[1] < n -> PushPart(i, j, ab)
           [] r.o = "new" /\ Room -> NewEmpty
           [] r.o = "copy" /\ Room -> NewCopy(j)
           [] r.o = "span" /\ Room -> NewSpan(j, ab)
           [] OTHER -> Op([o |-> "none", i |-> i], pool)

---------------------------------------------------------------------------
(* What can be asked of a span with text t *)
Least(S, none) == IF S = {} THEN none ELSE CHOOSE x \in S : \A y \in S : x <= y
SameAt(t, n, k) == (t[k] % 256) = (n[k] % 256)
Compare(t, n, f(_)) ==
  LET l == IF Len(t) < Len(n) THEN Len(t) ELSE Len(n) IN
  IF \E i \in 1..l : f(t[i] % 256) # f(n[i] % 256) THEN 2          \* differs
  ELSE IF Len(t) >= Len(n) THEN 0 ELSE 1                           \* starts with it; is too short
Same(c) == c
(* Positions are of characters, counted from 0; -1: none *)
FindSub(t, n) == Least({i \in 0..(Len(t) - Len(n)) : \A k \in 1..Len(n) : (t[i + k] % 256) = n[k]}, -1)
Preds == << {LF}, {97, 98}, {128, 129, 130} , {SP, SEMI} >>
Position(t, S) == SelectInSeq(t, LAMBDA c : (c % 256) \in S) - 1
SpanObs(t, off, a, b) ==
  LET s == Sub(t, a, b)
      byte(i) == IF i < 0 THEN -1 ELSE off[a + i + 1] - off[a + 1]
  IN
  << [i \in 1..Len(Needles) |-> Compare(s, Needles[i], Same)],
     [i \in 1..Len(Needles) |-> Compare(s, Needles[i], Lower)],
     [i \in 1..Len(Needles) |-> byte(FindSub(s, Needles[i]))],
     [i \in 1..Len(Preds) |-> byte(Position(s, Preds[i]))] >>

QueryObs(t) == LET off == Off(t) IN
               [t |-> t, off |-> off,
                q |-> [a \in 1..(Len(t) + 1) |-> [d \in 1..(Len(t) + 2 - a) |-> SpanObs(t, off, a - 1, a + d - 2)]]]

LastTouched == LET o == hist[Len(hist)] IN IF "i" \in DOMAIN o THEN o.i ELSE Len(pool)

End == /\ ~done /\ Len(hist) = IF script = 0 THEN Depth ELSE Len(Ops(script))
       /\ done' = TRUE
       /\ Emit([c |-> [ops |-> hist, q |-> LastTouched, needles |-> Needles],
                o |-> [st |-> "ok", seen |-> seen, q |-> QueryObs(pool[LastTouched])]])
       /\ UNCHANGED << script, pool, hist, seen >>
Next == Explore \/ Follow \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)
(* An operation extends one block, or adds one, and leaves all others alone *)
OneAtATime ==
  [][hist' # hist =>
       \/ /\ Len(pool') = Len(pool) + 1
          /\ \A j \in Blocks : pool'[j] = pool[j]
       \/ /\ Len(pool') = Len(pool)
          /\ LET o == hist'[Len(hist')] IN
             /\ \A j \in Blocks \ {o.i} : pool'[j] = pool[j]
             /\ Upto(pool'[o.i], Len(pool[o.i])) = pool[o.i]]_vars
(* What is asked of spans, stated differently *)
QueriesMeanThat ==
  (done /\ script = 0) => LET t == pool[LastTouched] IN
    \A ab \in Cuts(t) : LET s == Codes(Sub(t, ab[1], ab[2])) IN
      /\ \A n \in Range(Needles) :
           /\ (Compare(s, n, Same) = 0) <=> IsPrefix(n, s)
           /\ (Compare(s, n, Same) = 1) <=> IsStrictPrefix(s, n)
           /\ (FindSub(s, n) >= 0) <=> \E i \in 0..Len(s) : IsPrefix(n, SubSeq(s, i + 1, Len(s)))
           /\ (Compare(s, n, Same) = 0 => Compare(s, n, Lower) = 0)
           /\ (FindSub(s, n) = 0) <=> (Compare(s, n, Same) = 0)
      /\ \A i \in 1..Len(Preds) :
           (Position(s, Preds[i]) = -1) <=> \A k \in 1..Len(s) : s[k] \notin Preds[i]
(* Every character keeps the place where it was written: all of one constant are consecutive positions of one file *)
Marked ==
  \A j \in Blocks : \A k \in 1..Len(pool[j]) :
     LET c == pool[j][k] IN
     \/ TAG(c) = 0
     \/ \E d \in 1..Len(hist) : hist[d].o = "pushc" /\ c \in Range(Const(hist[d].f, hist[d].t))
     \/ c \in Range(Const(1, << 97, 128 >>)) \cup Range(Const(2, << 120 >>)) \cup Range(Const(3, << 129, 10, 98 >>))
=========================================================================
