------------------------------ MODULE Make ------------------------------
(***************************************************************************)
(* Reading makefiles: the state of the engine, the state of the reader,    *)
(* and what each kind of line does to them.                                *)
(*                                                                         *)
(* Engine state   E = [v, r, st, lr, fs, cc]                               *)
(*   v: variable name -> [f, a]        flavor (S simple, R recursive,      *)
(*                                     C from ?=) and expression           *)
(*   r: target name -> [t, d, m, g]    target block, prerequisite blocks,  *)
(*                                     commands, "S"/"D" colon type        *)
(*   st: "ok", the kind of the parse error that stopped reading, or        *)
(*       "unspec": this specification says nothing about the input         *)
(*   lr: reading stopped inside a rule (which is not recorded)             *)
(*   act: the variables whose values are being expanded, with these values *)
(*   inc: the files being included, innermost last                         *)
(*   fs: file name -> text, the files that exist (never changes)           *)
(*   cc: the command character (never changes)                             *)
(* A block is [t, s, u]: text, the variables it must at least / may at     *)
(* most be sensitive to.                                                   *)
(*                                                                         *)
(* Reader state   P = [c, r, d, g]                                         *)
(*   c: stack of conditionals [x: branch selected, e: else seen]           *)
(*   r: << >> or << the rule being read >> (targets ts, deps, commands)    *)
(*   d: << >> or << [n: variable, op: operator, k: nesting,                *)
(*                   x: body so far] >>, the define being read             *)
(*   g: depth of the defines passed over in unselected text                *)
(***************************************************************************)
EXTENDS Ast

Unspec == "unspec"
MaxFuel == 50
MaxLen == 2000

EmptyFn == [x \in {} |-> 0]
Engine(fs, cc) == [v |-> EmptyFn, r |-> EmptyFn, st |-> "ok", lr |-> FALSE, act |-> {}, inc |-> << >>, fs |-> fs, cc |-> cc]
P0 == [c |-> << >>, r |-> << >>, d |-> << >>, g |-> 0]

Fail(E, k) == IF E.st = "ok" THEN [E EXCEPT !.st = k] ELSE E
FailIn(P, E, k) == IF E.st = "ok" THEN [E EXCEPT !.st = k, !.lr = P.r # << >>] ELSE E
Ok(E) == E.st = "ok"
Defined(E, n) == n \in DOMAIN E.v
SetVar(E, n, f, a) == [E EXCEPT !.v = (n :> [f |-> f, a |-> a]) @@ @]

Ignoring(P) == \E i \in 1..Len(P.c) : ~P.c[i].x

(***************************************************************************)
(* Rules                                                                   *)
(***************************************************************************)
RECURSIVE PutRule(_, _, _)
PutRule(R, rl, i) ==
  IF i > Len(rl.ts) THEN R
  ELSE LET b == rl.ts[i]
           n == Codes(b.t)
           new == [t |-> b, d |-> rl.d, m |-> rl.m, g |-> rl.g]
           R1 == IF rl.m # << >> \/ n \notin DOMAIN R
                 THEN (n :> new) @@ R
                 ELSE [R EXCEPT ![n].d = @ \o rl.d]
       IN  PutRule(R1, rl, i + 1)
CloseRule(P, E) == IF P.r = << >> THEN E ELSE [E EXCEPT !.r = PutRule(@, P.r[1], 1)]

(***************************************************************************)
(* Substitution references                                                 *)
(***************************************************************************)
StartsWith(w, p) == Len(w) >= Len(p) /\ \A i \in 1..Len(p) : w[i] % 256 = p[i] % 256
EndsWith(w, p) == Len(w) >= Len(p) /\ \A i \in 1..Len(p) : w[Len(w) - Len(p) + i] % 256 = p[i] % 256
Matches(w, pre, post) == Len(w) >= Len(pre) + Len(post) /\ StartsWith(w, pre) /\ EndsWith(w, post)

SubstWord(w, key, rep) ==
  LET k == TakeUnq(key, {PERCENT})
      r == TakeUnq(rep, {PERCENT})
      pre  == IF k.found THEN k.pre ELSE << >>
      post == IF k.found THEN k.post ELSE k.pre
      stem == SubSeq(w, Len(pre) + 1, Len(w) - Len(post))
  IN  IF ~Matches(w, pre, post) THEN w
      ELSE IF ~k.found THEN stem \o rep
      ELSE IF r.found THEN r.pre \o stem \o r.post
      ELSE r.pre
Subst(v, key, rep) ==
  LET ws == Words(v) IN JoinSp([i \in 1..Len(ws) |-> SubstWord(ws[i], key, rep)])

(* The parts of the expanded text in the brackets: [sub, n, key, rep] *)
SplitRef(t) ==
  LET c == Find(t, 1, {COLON})
      q == RFind(t, Len(t), {EQ})
  IN  IF c < q THEN [sub |-> TRUE, n |-> Upto(t, c - 1), key |-> SubSeq(t, c + 1, q - 1), rep |-> From(t, q + 1)]
      ELSE [sub |-> FALSE, n |-> t, key |-> << >>, rep |-> << >>]

(***************************************************************************)
(* Expansion.  ExpandA(a, E, fuel) = [t, s, E]: the text, the variables it *)
(* is sensitive to, and the engine afterwards (eval may change it).        *)
(***************************************************************************)
RECURSIVE ExpandR(_, _, _, _, _, _), ProcLoop(_, _, _, _), IncludeAll(_, _, _, _, _)

Res(t, s, E) == [t |-> t, s |-> s, E |-> E]
ExpandA(a, E, fuel) == ExpandR(a, 1, << >>, {}, E, fuel)

ProcBlock(t, E, fuel) ==       \* a makefile of its own
  ProcLoop(IF At(t, 1) = BOM THEN Tail(t) ELSE t, P0, E, fuel)

ExpandItem(it, E, fuel) ==
  CASE it.k = "t" -> Res(it.t, {}, E)
    [] it.k = "p" -> Res(it.t, it.s, E)
    [] it.k = "r" ->
         LET n == ExpandA(it.a[1], E, fuel)
             p == SplitRef(n.t)
             name == Codes(p.n)
         IN  IF ~Ok(n.E) THEN n
             ELSE IF name \notin DOMAIN n.E.v THEN Res(<< >>, n.s \cup {name}, n.E)
             ELSE IF fuel = 0 THEN Res(<< >>, {}, Fail(n.E, Unspec))
             ELSE LET a == n.E.v[name].a
                      v == ExpandA(a, [n.E EXCEPT !.act = @ \cup {<< name, a >>}], fuel - 1)
                      x == IF p.sub THEN Subst(v.t, p.key, p.rep) ELSE v.t
                  IN  \* a value that is expanded in order to expand itself has no meaning
                      IF << name, a >> \in n.E.act THEN Res(<< >>, {}, Fail(n.E, Unspec))
                      ELSE Res(x, n.s \cup {name} \cup v.s, [v.E EXCEPT !.act = n.E.act])
    [] it.k = "e" ->
         LET x == ExpandA(it.a[1], E, fuel) IN
         IF ~Ok(x.E) THEN x
         ELSE IF fuel = 0 THEN Res(<< >>, {}, Fail(x.E, Unspec))
         ELSE LET E1 == ProcBlock(x.t, x.E, fuel - 1) IN
              Res(<< >>, x.s, IF Ok(E1) THEN E1 ELSE [E1 EXCEPT !.st = Unspec])
    [] OTHER -> Res(<< >>, {}, Fail(E, Unspec))

ExpandR(a, i, t, s, E, fuel) ==
  IF i > Len(a) \/ ~Ok(E) THEN Res(t, s, E)
  ELSE IF Len(t) > MaxLen THEN Res(t, s, Fail(E, Unspec))
  ELSE LET x == ExpandItem(a[i], E, fuel) IN ExpandR(a, i + 1, t \o x.t, s \cup x.s, x.E, fuel)

(***************************************************************************)
(* Conditional lines                                                       *)
(***************************************************************************)
CondKws == << K_ifdef, K_ifndef, K_ifeq, K_ifneq, K_else, K_endif >>
CondKw(x, i) == IF \E k \in 1..6 : KwAtNC(x, i, CondKws[k])
                THEN CHOOSE k \in 1..6 : KwAtNC(x, i, CondKws[k]) ELSE 0
IsCond(x) == CondKw(x, SkipBlanks(x, 1)) # 0

(* the , or ) that ends an argument in brackets; 0 if there is none *)
RECURSIVE IfArgEnd(_, _, _, _)
IfArgEnd(x, i, term, n) ==
  IF i > Len(x) THEN 0
  ELSE LET c == x[i] % 256 IN
       IF c = LP THEN IfArgEnd(x, i + 1, term, n + 1)
       ELSE IF c = RP THEN IF term = RP /\ n - 1 < 0 THEN i ELSE IfArgEnd(x, i + 1, term, n - 1)
       ELSE IF c = term /\ n <= 0 THEN i
       ELSE IfArgEnd(x, i + 1, term, n)

(* the two arguments; [ok, a, b] *)
IfEqArgs(x) ==
  LET bad == [ok |-> FALSE, a |-> << >>, b |-> << >>]
      q == At(x, 1)
      both(t1, t2) == LET a == Parse(t1) b == Parse(t2) IN
                      IF a.ok /\ b.ok THEN [ok |-> TRUE, a |-> a.a, b |-> b.a] ELSE bad
  IN  CASE q = LP ->
             LET e1 == IfArgEnd(x, 2, COMMA, 0) IN
             IF e1 = 0 THEN bad
             ELSE LET b2 == SkipBlanks(x, e1 + 1)
                      e2 == IfArgEnd(x, b2, RP, 0)
                  IN  IF e2 = 0 THEN bad ELSE both(SubSeq(x, 2, e1 - 1), SubSeq(x, b2, e2 - 1))
        [] q = DQ \/ q = SQ ->
             LET e1 == Find(x, 2, {q})
                 b2 == SkipBlanks(x, e1 + 1)
                 q2 == At(x, b2)
                 e2 == Find(x, b2 + 1, {q2})
             IN  IF e1 > Len(x) \/ ~(q2 = DQ \/ q2 = SQ) \/ e2 > Len(x) THEN bad
                 ELSE both(SubSeq(x, 2, e1 - 1), SubSeq(x, b2 + 1, e2 - 1))
        [] OTHER -> bad

SameText(a, b) == Codes(Trim(a)) = Codes(Trim(b))

(* a conditional line: [P, E] *)
DoCond(x0, P, E, fuel) ==
  LET i == SkipBlanks(x0, 1)
      k == CondKw(x0, i)
      kw == CondKws[k]
      x == AfterKw(x0, i, kw)
      n == Len(P.c)
      out(p, e) == [P |-> p, E |-> e]
      err(s) == out(P, FailIn(P, E, s))
  IN  CASE ~LitAt(x0, i, kw) \/ k \in {1, 2} -> err(Unspec)
        [] k \in {3, 4} ->
             LET q == IfEqArgs(x) IN
             IF ~q.ok THEN err(IF Ignoring(P) THEN Unspec ELSE "MalformedIfEq")
             ELSE IF Ignoring(P) THEN out([P EXCEPT !.c = Append(@, [x |-> FALSE, e |-> FALSE])], E)
             ELSE LET a == ExpandA(q.a, E, fuel)
                      b == ExpandA(q.b, a.E, fuel)
                      sel == IF k = 3 THEN SameText(a.t, b.t) ELSE ~SameText(a.t, b.t)
                  IN  IF ~Ok(b.E) THEN out(P, b.E)
                      ELSE out([P EXCEPT !.c = Append(@, [x |-> sel, e |-> FALSE])], b.E)
        [] k = 5 /\ x # << >> -> err(IF CondKw(x, 1) # 0 THEN Unspec ELSE "ExtraTokensAfter:else")
        [] k = 5 -> IF n = 0 THEN err("UnattachedElse")
                    ELSE IF P.c[n].e THEN err("TooManyElses")
                    ELSE out([P EXCEPT !.c[n] = [x |-> ~P.c[n].x, e |-> TRUE]], E)
        [] OTHER -> IF x # << >> THEN err("ExtraTokensAfter:endif")
                    ELSE IF n = 0 THEN err("UnattachedEndIf")
                    ELSE out([P EXCEPT !.c = SubSeq(@, 1, n - 1)], E)

(***************************************************************************)
(* Assignments                                                             *)
(***************************************************************************)
(* where the variable name at i ends: the first separator outside of references *)
RECURSIVE NameEnd(_, _)
NameEnd(x, i) ==
  LET j == Find(x, i, {DOLLAR, COLON, EQ, BANG, QM, PLUS} \cup SPACES)
      c == At(x, j + 1)
  IN  IF j > Len(x) \/ (x[j] % 256) # DOLLAR THEN j
      ELSE IF c = LP \/ c = LB
           THEN LET e == Closer(x, j + 2, c, IF c = LP THEN RP ELSE RB, 1) IN
                IF e = 0 THEN Len(x) + 1 ELSE NameEnd(x, e + 1)
           ELSE NameEnd(x, j + 2)

(* [k, n, v, op]: k = is there an operator; name text, what follows the operator *)
SplitAssign(x0) ==
  LET x == From(x0, SkipBlanks(x0, 1))
      e == NameEnd(x, 1)
      o == SkipBlanks(x, e)
      c == At(x, o)  c2 == At(x, o + 1)  c3 == At(x, o + 2)
      op == IF c = EQ THEN "=" ELSE IF c = COLON /\ c2 = COLON /\ c3 = EQ THEN "::="
            ELSE IF c = COLON /\ c2 = EQ THEN ":=" ELSE IF c = QM /\ c2 = EQ THEN "?="
            ELSE IF c = BANG /\ c2 = EQ THEN "!=" ELSE IF c = PLUS /\ c2 = EQ THEN "+=" ELSE ""
  IN  [op |-> op, n |-> Upto(x, e - 1),
       v |-> IF op = "" THEN << >> ELSE From(x, SkipBlanks(x, o + Len(op)))]

(* Assignment of expression a to variable n with operator op *)
DoAssign(n, op, a, E, fuel) ==
  LET now == op \in {":=", "::="} \/ (op = "+=" /\ Defined(E, n) /\ E.v[n].f = "S")
      x == IF now THEN ExpandA(a, E, fuel) ELSE Res(<< >>, {}, E)
      val == IF now THEN << Item("p", x.t, 0, << >>, x.s) >> ELSE a
      E1 == x.E
  IN  IF ~Ok(E1) THEN E1
      ELSE CASE op = "=" -> SetVar(E1, n, "R", val)
             [] op = "?=" -> IF Defined(E1, n) THEN E1 ELSE SetVar(E1, n, "C", val)
             [] op = "+=" -> IF Defined(E1, n)
                             THEN SetVar(E1, n, E1.v[n].f, CatAst(CatAst(E1.v[n].a, TextAst(SynSp)), val))
                             ELSE SetVar(E1, n, "R", val)
             [] OTHER -> SetVar(E1, n, "S", val)

Modifiers == << K_export, K_override, K_private, K_undefine >>

(* the first line of a define, without the keyword; [P, E] *)
DoDefine(x, P, E, fuel) ==
  LET q == SplitAssign(x)
      a == Parse(q.n)
      r == ExpandA(a.a, E, fuel)
      err(s) == [P |-> P, E |-> Fail(E, s)]
      open(n, op, E1) == IF n = << >> THEN err(Unspec)
                         ELSE [P |-> [P EXCEPT !.d = << [n |-> n, op |-> op, k |-> 1, x |-> << >>] >>], E |-> E1]
  IN  IF q.op = "" THEN IF HasChar(x, DOLLAR) THEN err(Unspec) ELSE open(Codes(Trim(x)), "=", E)
      ELSE IF q.v # << >> \/ q.op = "!=" \/ ~a.ok THEN err(Unspec)
      ELSE IF ~Ok(r.E) THEN [P |-> P, E |-> r.E]
      ELSE open(Codes(Trim(r.t)), q.op, r.E)

(* What a line (with its line break) says to the define it is in: [k, extra] *)
DefineWord(x, cc) ==
  LET i == SkipBlanks(x, 1)
      r == FindNot(x, i + 5, SPACES)
      k == IF KwAt(x, i, K_define) THEN "define" ELSE IF KwAt(x, i, K_endef) THEN "endef" ELSE "text"
  IN  [k |-> IF k # "text" /\ At(x, 1) = cc THEN Unspec ELSE k,
       extra |-> k = "endef" /\ r <= Len(x) /\ (x[r] % 256) # HASH]

(* a line x (with its line break) inside a define.  The lines are kept until the end of the define, *)
(* where they become the value of the variable as the operator says                                 *)
DoDefineLine(x, P, E, fuel) ==
  LET w == DefineWord(x, E.cc)
      d == P.d[1]
      a == Parse(d.x)
      add(n) == [P |-> [P EXCEPT !.d[1].k = n, !.d[1].x = @ \o x], E |-> E]
      out(p, e) == [P |-> p, E |-> e]
  IN  CASE w.k = Unspec -> out(P, Fail(E, Unspec))
        [] w.k = "define" -> add(d.k + 1)
        [] w.k = "endef" -> IF w.extra THEN out(P, Fail(E, "ExtraTokensAfter:endef"))
                            ELSE IF d.k > 1 THEN add(d.k - 1)
                            ELSE IF ~a.ok THEN out([P EXCEPT !.d = << >>], Fail(E, a.e))
                            ELSE out([P EXCEPT !.d = << >>], DoAssign(d.n, d.op, a.a, E, fuel))
        [] OTHER -> add(d.k)

(* a line of unselected text: does it start a define?  "yes", "no" or unspec *)
RECURSIVE StartsDefine(_)
StartsDefine(x0) ==
  LET x == From(x0, SkipBlanks(x0, 1))
      m == CHOOSE i \in 1..3 : KwAtNC(x, 1, Modifiers[i])
  IN  IF SplitAssign(x).op # "" THEN "no"
      ELSE IF KwAtNC(x, 1, K_define) THEN IF KwAt(x, 1, K_define) /\ AfterKw(x, 1, K_define) # << >> THEN "yes" ELSE Unspec
      ELSE IF \E i \in 1..3 : KwAtNC(x, 1, Modifiers[i]) THEN StartsDefine(AfterKw(x, 1, Modifiers[m]))
      ELSE "no"

(***************************************************************************)
(* Target lines                                                            *)
(***************************************************************************)
(* The end (last position) of the word of a target line that starts at i *)
RECURSIVE WordEnd(_, _, _)
WordEnd(t, i, prev) ==
  IF i > Len(t) THEN Len(t)
  ELSE LET c == t[i] % 256  n == At(t, i + 1) IN
       CASE c = SP \/ c = TAB \/ c = EQ -> i - 1
         [] c = COLON -> IF n = BSL /\ Alpha(prev) THEN WordEnd(t, i + 1, prev) ELSE i
         [] c = DOLLAR ->
              IF i = Len(t) THEN i
              ELSE IF n = LP \/ n = LB THEN
                     LET cl == IF n = LP THEN RP ELSE RB
                         e == Closer(t, i + 2, n, cl, 1)
                     IN  IF e = 0 THEN Len(t) ELSE WordEnd(t, e + 1, cl)
              ELSE WordEnd(t, i + 2, n)
         [] c = BSL -> IF n \in {COLON, SEMI, EQ, BSL} THEN WordEnd(t, i + 2, n) ELSE WordEnd(t, i + 1, BSL)
         [] (c = QM \/ c = PLUS) /\ n = EQ -> i - 1
         [] OTHER -> WordEnd(t, i + 1, c)

(* [eol, colon, w, rest] *)
NextWord(t0) ==
  LET t == From(t0, SkipBlanks(t0, 1))
      lit(w) == LitAt(t, 1, w)
      len == IF lit(<< SEMI >>) THEN 1 ELSE IF lit(<< EQ >>) THEN 1 ELSE IF lit(<< COLON, EQ >>) THEN 2
             ELSE IF lit(<< COLON, COLON, EQ >>) THEN 3 ELSE IF lit(<< COLON, COLON >>) THEN 2
             ELSE IF lit(<< COLON >>) THEN 1 ELSE IF lit(<< PLUS, EQ >>) THEN 2
             ELSE IF lit(<< QM, EQ >>) THEN 2 ELSE IF lit(<< BANG, EQ >>) THEN 2
             ELSE WordEnd(t, 1, 0)
      colon == lit(<< COLON >>) /\ ~lit(<< COLON, EQ >>) /\ ~lit(<< COLON, COLON, EQ >>)
  IN  [eol |-> t = << >>, colon |-> t # << >> /\ colon, w |-> Upto(t, len), rest |-> From(t, len + 1)]

(* The first unescaped colon that is not part of a drive letter. [found, pre, post] *)
RECURSIVE ColonR(_, _)
ColonR(t, acc) ==
  LET r == TakeUnq(t, {COLON})
      n == Len(r.pre)
      p == At(r.post, 1)
      drive == /\ p \in {SLASH, BSL}
               /\ n >= 1 /\ Alpha(r.pre[n] % 256)
               /\ n = 1 \/ Space(r.pre[n - 1] % 256) \/ (r.pre[n - 1] % 256) = LP
  IN  IF ~r.found THEN [found |-> FALSE, pre |-> acc \o r.pre, post |-> << >>]
      ELSE IF ~drive THEN [found |-> TRUE, pre |-> acc \o r.pre, post |-> r.post]
      ELSE LET colon == t[Len(t) - Len(r.post)] IN ColonR(r.post, acc \o r.pre \o << colon >>)
SplitColon(t) == ColonR(t, << >>)

(* Does the text after the colon look like a target specific assignment? *)
RECURSIVE LooksAssign(_)
LooksAssign(x0) ==
  LET x == From(x0, SkipBlanks(x0, 1)) IN
  IF x = << >> THEN FALSE
  ELSE IF SplitAssign(x).op # "" THEN TRUE
  ELSE IF KwAtNC(x, 1, K_define) \/ KwAtNC(x, 1, K_undefine) THEN TRUE
  ELSE IF KwAtNC(x, 1, K_export) THEN LooksAssign(AfterKw(x, 1, K_export))
  ELSE IF KwAtNC(x, 1, K_override) THEN LooksAssign(AfterKw(x, 1, K_override))
  ELSE IF KwAtNC(x, 1, K_private) THEN LooksAssign(AfterKw(x, 1, K_private))
  ELSE FALSE

(* A separator in the middle of a reference that was cut in two *)
CutsRef(t) == LET r == Parse(t) IN ~r.ok /\ r.e = UNTERM

Unescaped(t, c) == \E i \in 1..Len(t) : (t[i] % 256) = c /\ ~Odd(Slashes(t, 1, i))
EscapedIn(t, c) == \E i \in 2..Len(t) : (t[i] % 256) = c /\ (t[i - 1] % 256) = BSL

(* The words of the line up to the one with the colon.                     *)
(* W = [k, buf, bs, bu, after, as, rest, semi, E]                          *)
(*  k: "colon", "eol" or the error                                         *)
RECURSIVE ReadTargets(_, _, _, _, _, _, _)
ReadTargets(w, buf, bs, bu, semi, E, fuel) ==
  LET bad(k, E1) == [k |-> k, buf |-> buf, bs |-> bs, bu |-> bu, after |-> << >>, asens |-> {}, rest |-> << >>, semi |-> semi, E |-> E1]
      a == Parse(w.w)
      x == ExpandA(a.a, E, fuel)
      s == TakeUnq(x.t, {SEMI})
      cut == semi = << >> /\ s.found
      ra == Parse(w.rest)
      rx == ExpandA(ra.a, x.E, fuel)
      semi1 == IF cut THEN << s.post \o rx.t >> ELSE semi
      E1 == IF cut THEN rx.E ELSE x.E
      word == IF cut THEN s.pre ELSE x.t
      rest == IF cut THEN << >> ELSE w.rest
      c == SplitColon(word)
      buf1 == (IF buf # << >> THEN buf \o SynSp ELSE buf) \o c.pre
      bs1 == IF c.pre = << >> THEN bs ELSE bs \cup x.s
      bu1 == bu \cup x.s \cup (IF cut THEN rx.s ELSE {})
      nw == NextWord(rest)
  IN  IF ~a.ok THEN bad(a.e, E)
      ELSE IF ~Ok(x.E) THEN bad(x.E.st, x.E)
      ELSE IF cut /\ ~ra.ok THEN bad(ra.e, x.E)
      ELSE IF ~Ok(E1) THEN bad(E1.st, E1)
      ELSE IF Len(x.t) > MaxLen THEN bad(Unspec, E1)
      ELSE IF c.found THEN [k |-> "colon", buf |-> buf1, bs |-> bs1, bu |-> bu1, after |-> c.post,
                            asens |-> IF c.post = << >> THEN {} ELSE x.s, rest |-> rest, semi |-> semi1, E |-> E1]
      ELSE IF nw.eol THEN [k |-> "eol", buf |-> buf1, bs |-> bs1, bu |-> bu1, after |-> << >>, asens |-> {},
                           rest |-> << >>, semi |-> semi1, E |-> E1]
      ELSE ReadTargets(nw, buf1, bs1, bu1, semi1, E1, fuel)

(* a target line; [P, E] *)
DoTarget(x, P, E, fuel) ==
  LET s0 == TakeUnq(x, {SEMI})
      line == s0.pre
      semi0 == IF s0.found THEN << s0.post >> ELSE << >>
      w0 == NextWord(line)
      out(p, e) == [P |-> p, E |-> e]
      err(e, k) == out(P, Fail(e, k))
      W == ReadTargets(w0, << >>, {}, {}, semi0, E, fuel)
      targets == FileSeq(W.buf, {})
      post0 == W.after \o W.rest
      dbl == At(post0, 1) = COLON
      post == IF dbl THEN Tail(post0) ELSE post0
      all == IF W.semi = << >> THEN post ELSE post \o SynSemi \o W.semi[1]
      pa == Parse(post)
      px == ExpandA(pa.a, W.E, fuel)
      ps == TakeUnq(px.t, {SEMI})
      dtext == IF W.semi # << >> THEN px.t ELSE ps.pre
      cmd == IF W.semi # << >> THEN W.semi ELSE IF ps.found THEN << ps.post >> ELSE << >>
      ca == Parse(cmd[1])
      deps == FileSeq(dtext, {COLON})
      ds == px.s \cup W.asens
      du == px.s \cup W.bu
      tsB == [i \in 1..Len(targets) |-> [t |-> targets[i], s |-> W.bs, u |-> W.bu]]
      dsB == [i \in 1..Len(deps) |-> [t |-> deps[i], s |-> ds, u |-> du]]
      rule == [ts |-> tsB, d |-> dsB, m |-> IF cmd = << >> THEN << >> ELSE << ca.a >>, g |-> IF dbl THEN "D" ELSE "S"]
  IN  IF EscapedIn(x, SEMI) \/ (s0.found /\ HasChar(x, HASH)) THEN err(E, Unspec)
      ELSE IF w0.eol THEN IF s0.found THEN err(E, "NoRuleRecipe") ELSE out(P, E)
      ELSE IF w0.colon THEN out(P, E)
      ELSE IF s0.found /\ CutsRef(line) THEN err(E, Unspec)
      ELSE IF W.k = "eol"
           THEN IF SkipBlanks(W.buf, 1) > Len(W.buf) THEN out(P, W.E) ELSE err(W.E, "MissingSeparator")
      ELSE IF W.k # "colon" THEN err(W.E, W.k)
      ELSE IF LooksAssign(all) THEN err(W.E, Unspec)
      ELSE IF ~pa.ok THEN err(W.E, pa.e)
      ELSE IF ~Ok(px.E) THEN out(P, px.E)
      ELSE IF cmd # << >> /\ ~ca.ok THEN err(px.E, ca.e)
      ELSE IF Unescaped(dtext, COLON) \/ (\E i \in 1..Len(deps) : Codes(deps[i]) = << BAR >>) THEN err(px.E, Unspec)
      ELSE out([P EXCEPT !.r = << rule >>], px.E)

(***************************************************************************)
(* Directives                                                              *)
(***************************************************************************)
OtherDirectives == << K_export, K_unexport, K_vpath, K_load, K_dash_load >>
Includes == << K_include, K_sinclude, K_dash_include >>
KwIn(x, ks) == \E i \in 1..Len(ks) : KwAtNC(x, 1, ks[i])
WhichKw(x, ks) == CHOOSE i \in 1..Len(ks) : KwAtNC(x, 1, ks[i])

(* Files that cannot be read as text contain the code 0 *)
Unreadable(t) == HasChar(t, 0)

(* A relative path without its empty and . parts.  [ok, n] *)
RECURSIVE PathR(_, _, _)
PathR(n, i, acc) ==
  LET e == Find(n, i, {SLASH})
      part == SubSeq(n, i, e - 1)
      dot == << 46 >>
      acc1 == IF part = dot \/ part = << >> THEN acc ELSE IF acc = << >> THEN part ELSE acc \o << SLASH >> \o part
  IN  IF part = dot \o dot \/ (e > Len(n) /\ (part = << >> \/ part = dot)) THEN [ok |-> FALSE, n |-> << >>]
      ELSE IF e > Len(n) THEN [ok |-> TRUE, n |-> acc1]
      ELSE PathR(n, e + 1, acc1)
Path(n) == IF At(n, 1) = SLASH \/ n = << >> THEN [ok |-> FALSE, n |-> << >>] ELSE PathR(n, 1, << >>)
(* Is n the name of a directory in which there are files? *)
IsDir(n, E) == \E f \in DOMAIN E.fs : Len(f) > Len(n) /\ f[Len(n) + 1] = SLASH /\ SubSeq(f, 1, Len(n)) = n

Times(n, ns) == Cardinality({ j \in 1..Len(ns) : ns[j] = n })
IncludeAll(names, i, soft, E, fuel) ==
  IF i > Len(names) \/ ~Ok(E) THEN E
  ELSE LET n == Codes(names[i])
           f == Path(n)
           failure(why) == Fail(E, "IncludeFailure:" \o why \o ":" \o ToString(n))
       IN
       IF ~f.ok \/ IsDir(f.n, E) THEN Fail(E, Unspec)
       ELSE IF f.n \notin DOMAIN E.fs THEN IF soft THEN IncludeAll(names, i + 1, soft, E, fuel) ELSE failure("missing")
       ELSE IF Unreadable(E.fs[f.n]) THEN IF soft THEN Fail(E, Unspec) ELSE failure("not text")
       \* a file that keeps on including itself has no meaning, and neither have two that include each other
       ELSE IF fuel = 0 \/ Times(f.n, E.inc) > 11 THEN Fail(E, Unspec)
       ELSE LET F == ProcBlock(E.fs[f.n], [E EXCEPT !.inc = Append(@, f.n)], fuel - 1)
            IN  IncludeAll(names, i + 1, soft, [F EXCEPT !.inc = E.inc], fuel)

DoInclude(x, E, fuel) ==
  LET k == WhichKw(x, Includes)
      a == Parse(AfterKw(x, 1, Includes[k]))
      r == ExpandA(a.a, E, fuel)
  IN  IF ~LitAt(x, 1, Includes[k]) THEN Fail(E, Unspec)
      ELSE IF ~a.ok THEN Fail(E, a.e)
      ELSE IF ~Ok(r.E) THEN r.E
      ELSE IncludeAll(FileSeq(r.t, {}), 1, k # 1, r.E, fuel)

(***************************************************************************)
(* What kind of line stands at the start of t, for a reader in state P     *)
(***************************************************************************)
Kind(t, P, cc) ==
  LET c == At(t, SkipBlanks(t, 1))
      l == LogicalLine(t, 1)
      x == l.x
      q == SplitAssign(x)
      na == Parse(q.n)  va == Parse(q.v)
  IN  IF P.d # << >> THEN "define-body"
      ELSE IF P.g > 0 THEN "ignored-define"
      ELSE IF c = HASH THEN "comment"
      ELSE IF P.r # << >> /\ At(t, 1) = cc THEN "recipe"
      ELSE IF x = << >> THEN "blank"
      ELSE IF IsCond(x) THEN "conditional"
      ELSE IF Ignoring(P) THEN "ignored"
      ELSE IF q.op # "" /\ ((~na.ok /\ na.e = UNTERM) \/ (na.ok /\ ~va.ok /\ va.e = UNTERM)) THEN "bad-assignment"
      ELSE IF q.op # "" /\ na.ok /\ va.ok THEN "assignment"
      ELSE IF KwAtNC(x, SkipBlanks(x, 1), K_define) THEN "define"
      ELSE IF \E i \in 1..4 : KwAtNC(x, SkipBlanks(x, 1), Modifiers[i]) THEN "unspec"
      ELSE IF KwIn(x, OtherDirectives) THEN "unspec"
      ELSE IF KwIn(x, Includes) THEN "include"
      ELSE IF At(t, 1) = cc THEN "stray-recipe"
      ELSE "target"

(* One line, of the given kind: [P, E, rest] *)
ProcLine(kind, t, P, E, fuel) ==
  LET l == LogicalLine(t, 1)
      x == l.x
      \* a comment that ends the line belongs to it
      rest == From(t, IF l.why = "comment" THEN CommentEnd(t, l.n) ELSE l.n)
      Pc == [P EXCEPT !.r = << >>]
      Ec == CloseRule(P, E)
      step(p, e, r) == [P |-> p, E |-> e, rest |-> r]
  IN  CASE kind = "comment" -> step(P, E, From(t, CommentEnd(t, SkipBlanks(t, 1))))
        [] kind = "recipe" ->
             LET r == RecipeLine(t, 1, E.cc)
                 a == Parse(r.x)
             IN  IF r.esc THEN step(P, Fail(E, Unspec), << >>)
                 ELSE IF ~a.ok THEN step(P, FailIn(P, E, IF Ignoring(P) THEN Unspec ELSE a.e), << >>)
                 ELSE step(IF Ignoring(P) THEN P ELSE [P EXCEPT !.r[1].m = Append(@, a.a)], E, From(t, r.n))
        [] kind = "define-body" ->
             LET r == RawLine(t, 1)
                 o == DoDefineLine(r.x, P, E, fuel)
             IN  step(o.P, o.E, From(t, r.n))
        [] kind = "unspec" -> step(P, Fail(E, Unspec), << >>)
        [] kind = "blank" -> step(P, E, rest)
        [] kind = "conditional" -> LET o == DoCond(x, P, E, fuel) IN step(o.P, o.E, rest)
        [] kind = "ignored" ->
             LET d == StartsDefine(x) IN
             step([P EXCEPT !.g = IF d = "yes" THEN 1 ELSE 0], IF d = Unspec THEN Fail(E, Unspec) ELSE E, rest)
        [] kind = "ignored-define" ->
             LET r == RawLine(t, 1)
                 w == DefineWord(r.x, E.cc)
             IN  step([P EXCEPT !.g = IF w.k = "define" THEN @ + 1 ELSE IF w.k = "endef" THEN @ - 1 ELSE @],
                      IF w.k = Unspec \/ w.extra THEN Fail(E, Unspec) ELSE E, From(t, r.n))
        [] kind = "bad-assignment" -> step(Pc, Fail(Ec, UNTERM), rest)
        [] kind = "assignment" ->
             LET q == SplitAssign(x)
                 nx == ExpandA(Parse(q.n).a, Ec, fuel)
                 n == Codes(Trim(nx.t))
             IN  step(Pc, IF ~Ok(nx.E) THEN nx.E
                          ELSE IF n = << >> \/ q.op = "!=" THEN Fail(nx.E, Unspec)
                          ELSE DoAssign(n, q.op, Parse(q.v).a, nx.E, fuel), rest)
        [] kind = "define" ->
             LET i == SkipBlanks(x, 1)
                 o == IF KwAt(x, i, K_define) THEN DoDefine(AfterKw(x, i, K_define), Pc, Ec, fuel)
                      ELSE [P |-> Pc, E |-> Fail(Ec, Unspec)]
             IN  step(o.P, o.E, rest)
        [] kind = "include" -> step(Pc, DoInclude(x, Ec, fuel), rest)
        [] kind = "stray-recipe" -> step(Pc, Fail(Ec, "RecipeExpected"), rest)
        [] OTHER -> LET o == DoTarget(x, Pc, Ec, fuel) IN step(o.P, o.E, rest)

(* the end of a makefile *)
Finish(P, E) == IF ~Ok(E) THEN E
                ELSE IF P.d # << >> THEN Fail(E, Unspec)     \* a define without endef
                ELSE CloseRule(P, E)

ProcLoop(t, P, E, fuel) ==
  IF ~Ok(E) THEN E
  ELSE IF t = << >> THEN Finish(P, E)
  ELSE LET o == ProcLine(Kind(t, P, E.cc), t, P, E, fuel) IN ProcLoop(o.rest, o.P, o.E, fuel)
========================================================================
