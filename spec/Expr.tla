----------------------------- MODULE Expr -----------------------------
(***************************************************************************)
(* Expressions that are put together from parts instead of being written.  *)
(* A tree is [k, n, t, a]: its kind, its number, its text and its parts.   *)
(* It is evaluated, twice, in an engine that has read a makefile.          *)
(***************************************************************************)
EXTENDS Obs

CONSTANTS Texts, Preludes, Wide
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)

Tree(k, t, a) == [k |-> k, t |-> t, a |-> a]
Leaves == {Tree("empty", << >>, << >>)} \cup {Tree(k, t, << >>) : k \in {"constant", "preevaluated"}, t \in Texts}
Over(S, T) == {Tree(k, << >>, << x >>) : k \in {"variable_reference", "eval", "concat", "join"}, x \in S}
              \cup {Tree(k, << >>, << x, y >>) : k \in {"concat", "join"}, x \in S, y \in T}
              \cup {Tree(k, << >>, << y, x >>) : k \in {"concat", "join"}, x \in S, y \in T}
One == Over(Leaves, Leaves)
Enumerated == SetToSeq({Tree("concat", << >>, << >>), Tree("join", << >>, << >>)} \cup Leaves \cup One
                       \cup Over(One, IF Wide THEN Leaves ELSE {Tree("constant", t, << >>) : t \in Texts}))

(* Numbers in source order; the characters of number n are written in line n *)
RECURSIVE Size(_), Number(_, _), NumberAll(_, _)
Size(t) == 1 + FoldLeft(LAMBDA z, x : z + Size(x), 0, t.a)
NumberAll(ts, n) == IF ts = << >> THEN << >> ELSE << Number(ts[1], n) >> \o NumberAll(Tail(ts), n + Size(ts[1]))
TagAt(n, c) == (2000 + n) * 1000 + c
Number(t, n) == [k |-> t.k, n |-> n, a |-> NumberAll(t.a, n + 1),
                 t |-> FoldLeft(TagStep, [f |-> 2, l |-> n, c |-> 1, t |-> << >>], t.t).t]

(* The same expression may occur in several places, as one from nowhere else *)
RECURSIVE Alike(_)
Alike(t) == [Number([t EXCEPT !.a = << >>], 1) EXCEPT !.a = [i \in 1..Len(t.a) |-> Alike(t.a[i])]]

(* As an expression: items one after another *)
RECURSIVE Flat(_), FlatAll(_)
FlatAll(ts) == IF ts = << >> THEN << >> ELSE CatAst(Flat(ts[1]), FlatAll(Tail(ts)))
Flat(t) ==
  CASE t.k = "empty" -> << >>
    [] t.k = "constant" -> TextAst(t.t)
    [] t.k = "preevaluated" -> << Item("p", t.t, 0, << >>, {}) >>
    [] t.k = "variable_reference" -> << Item("r", << >>, TagAt(t.n, 1), << Flat(t.a[1]) >>, {}) >>
    [] t.k = "eval" -> << Item("e", << >>, TagAt(t.n, 1), << Flat(t.a[1]) >>, {}) >>
    [] OTHER -> FlatAll(t.a)

VARIABLES tree, pre, E, out, done
vars == << tree, pre, E, out, done >>

N == Len(Enumerated) * Len(Preludes)
Given(i) == IF i <= N THEN [tree |-> Enumerated[1 + ((i - 1) \div Len(Preludes))], pre |-> Preludes[1 + ((i - 1) % Len(Preludes))], same |-> i % 5 = 0]
            ELSE Scripts[i - N]
Init == \E i \in 1..(N + Len(Scripts)) :
          /\ i % Shards = Shard
          /\ tree = IF Given(i).same THEN Alike(Given(i).tree) ELSE Number(Given(i).tree, 1)
          /\ pre = Given(i).pre
          /\ E = ProcBlock(Tagged(1, pre), Engine(EmptyFn, 9), MaxFuel)
          /\ out = << >> /\ done = FALSE

Evaluate == /\ Ok(E) /\ Len(out) < 2
            /\ LET x == ExpandA(Flat(tree), E, MaxFuel) IN
               /\ E' = IF Ok(x.E) THEN x.E ELSE [x.E EXCEPT !.st = Unspec]
               /\ out' = Append(out, [t |-> x.t, s |-> Sens(x.s)])
            /\ UNCHANGED << tree, pre, done >>
Conclude == /\ ~done /\ (Len(out) = 2 \/ ~Ok(E))
          /\ done' = TRUE
          /\ Emit([c |-> [tree |-> tree, pre |-> pre],
                   o |-> [st |-> IF Ok(E) /\ ~E.lr THEN "ok" ELSE Unspec, out |-> out, a |-> AstObs(Flat(tree)),
                          e |-> IF Ok(E) THEN << EngineObs(E) >> ELSE << >>]])
          /\ UNCHANGED << tree, pre, E, out >>
Next == Evaluate \/ Conclude
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What a tree means, without expressions: its parts one after another, each in the engine the one before left *)
RECURSIVE Means(_, _), MeansAll(_, _, _, _)
MeansAll(ts, F, t, s) == IF ts = << >> \/ ~Ok(F) THEN Res(t, s, F)
                         ELSE LET x == Means(ts[1], F) IN MeansAll(Tail(ts), x.E, t \o x.t, s \cup x.s)
Var(n, F) == IF n \in DOMAIN F.v THEN ExpandA(F.v[n].a, F, MaxFuel - 1) ELSE Res(<< >>, {}, F)
Means(t, F) ==
  CASE t.k \in {"empty", "constant", "preevaluated"} -> Res(t.t, {}, F)
    [] t.k = "variable_reference" ->
         LET n == Means(t.a[1], F)  p == SplitRef(n.t)  v == Var(Codes(p.n), n.E) IN
         IF ~Ok(n.E) THEN n
         ELSE Res(IF p.sub /\ Codes(p.n) \in DOMAIN n.E.v THEN Subst(v.t, p.key, p.rep) ELSE v.t, n.s \cup v.s \cup {Codes(p.n)}, v.E)
    [] t.k = "eval" -> LET x == Means(t.a[1], F) IN IF ~Ok(x.E) THEN x ELSE Res(<< >>, x.s, ProcBlock(x.t, x.E, MaxFuel - 1))
    [] OTHER -> MeansAll(t.a, F, << >>, {})
Denotes == [][(out' # out /\ Ok(E')) => LET x == Means(tree, E) IN
                out'[Len(out')] = [t |-> x.t, s |-> Sens(x.s)] /\ x.E.v = E'.v /\ x.E.r = E'.r]_vars

(* The makefile text for a tree, if there is one *)
RECURSIVE Writable(_), Write(_), WriteAll(_)
Special == {LP, RP, LB, RB, DOLLAR}
CallText(t) == Len(t) >= 4 /\ \E w \in {K_eval, K_strip, K_words, K_word} : CallAt(t, w)
Writable(t) == /\ \A i \in 1..Len(t.t) : (t.t[i] % 256) \notin Special
               /\ \A i \in 1..Len(t.a) : Writable(t.a[i])
               /\ t.k = "variable_reference" => ~CallText(Write(t.a[1]))
               /\ t.k = "eval" => ~Blank(At(Write(t.a[1]), 1))
WriteAll(ts) == IF ts = << >> THEN << >> ELSE Write(ts[1]) \o WriteAll(Tail(ts))
Write(t) == CASE t.k = "variable_reference" -> << DOLLAR, LP >> \o Write(t.a[1]) \o << RP >>
              [] t.k = "eval" -> << DOLLAR, LB >> \o K_eval \o << 32 >> \o Write(t.a[1]) \o << RB >>
              [] OTHER -> t.t \o WriteAll(t.a)
LikeWritten == Len(out) = 1 /\ Ok(E) /\ Writable(tree) =>
                 LET p == Parse(Write(tree))
                     x == ExpandA(p.a, ProcBlock(Tagged(1, pre), Engine(EmptyFn, 9), MaxFuel), MaxFuel)
                 IN  p.ok /\ x.t = out[1].t /\ Sens(x.s) = out[1].s /\ x.E.v = E.v /\ x.E.r = E.r

(* Nothing changes without an eval *)
Pure == [][(out' # out /\ Ok(E') /\ ~(MayEval(Flat(tree)) \/ \E n \in DOMAIN E.v : MayEval(E.v[n].a))) => E'.v = E.v /\ E'.r = E.r]_vars
========================================================================
