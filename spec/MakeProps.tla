--------------------------- MODULE MakeProps ---------------------------
(***************************************************************************)
(* What the specification of the reader guarantees, stated independently   *)
(* of how it is defined: action properties of single lines, and relations  *)
(* between whole programs.                                                 *)
(***************************************************************************)
EXTENDS MakeRun

Good(e) == e.st = "ok"
(* evals, and text that would be one if it was read again *)
HasEval(e) == \/ \E n \in DOMAIN e.v : MayEval(e.v[n].a)
              \/ \E n \in DOMAIN e.r : \E i \in 1..Len(e.r[n].m) : HasKind(e.r[n].m[i], {"e"})
LineText == LogicalLine(src, 1).x
LineHasEval == \E i \in 1..Len(src) : LitAt(src, i, K_eval)
Quiet == ~HasEval(E) /\ ~LineHasEval /\ (P.d # << >> => ~MayEval(TextAst(P.d[1].x)))

(***************************************************************************)
(* Single lines                                                            *)
(***************************************************************************)
SameDb(e1, e2) == e1.v = e2.v /\ e1.r = e2.r

(* C04: lines that are not selected do nothing, whatever they say *)
IgnoredStep == (k \in {"ignored", "ignored-define"} \/ (k \in {"conditional", "recipe"} /\ Ignoring(P))) /\ ~done' =>
                 SameDb(E, E') /\ P'.r = P.r
(* C08: comments and blank lines do nothing at all *)
NeutralStep == k \in {"comment", "blank"} /\ ~done' => E' = E /\ P' = P
(* C07: a recipe line becomes the last command of the open rule *)
RecipeStep == k = "recipe" /\ ~done' /\ Ok(E') /\ ~Ignoring(P) =>
                /\ E' = E
                /\ Front(P'.r[1].m) = P.r[1].m
                /\ P'.r[1].ts = P.r[1].ts /\ P'.r[1].d = P.r[1].d
(* C01: an assignment changes one variable; ?= leaves a defined one alone; the flavor follows the operator *)
AssignStep == k = "assignment" /\ ~done' /\ Quiet /\ Ok(E') =>
  LET q == SplitAssign(LineText)
      n == Codes(Trim(ExpandA(Parse(q.n).a, E, MaxFuel).t))
      was == n \in DOMAIN E.v
  IN  /\ DOMAIN E'.v = DOMAIN E.v \cup {n}
      /\ \A w \in DOMAIN E.v \ {n} : E'.v[w] = E.v[w]
      /\ q.op = "?=" /\ was => E'.v[n] = E.v[n]
      /\ q.op \in {":=", "::="} => E'.v[n].f = "S" /\ ~HasKind(E'.v[n].a, {"r"})
      /\ q.op = "=" => E'.v[n].f = "R"
      /\ q.op = "+=" /\ was => E'.v[n].f = E.v[n].f
      /\ q.op = "+=" /\ was =>     \* the expansion is the old one, a space, and what the new text expands to now
           LET new == ExpandA(Parse(q.v).a, E, MaxFuel)
               old == ExpandA(E.v[n].a, E, MaxFuel)
               now == ExpandA(E'.v[n].a, E, MaxFuel)
           IN  Ok(new.E) /\ Ok(old.E) /\ Ok(now.E) => Codes(now.t) = Codes(old.t) \o << SP >> \o Codes(new.t)
(* nothing is ever forgotten *)
Monotone == m' = m /\ Ok(E') /\ m > 0 =>
              DOMAIN E.v \subseteq DOMAIN E'.v /\ DOMAIN E.r \subseteq DOMAIN E'.r
(* C06: what is known of a target grows, or is replaced by a rule with a recipe *)
RuleStep == m' = m /\ m > 0 =>
  \A n \in DOMAIN E.r :
    \/ E'.r[n].m = E.r[n].m /\ IsPrefix(E.r[n].d, E'.r[n].d) /\ E'.r[n].g = E.r[n].g
    \/ E'.r[n].m # << >>
(* C06: a rule that was open is closed into the database or still open *)
NoRuleLost == m > 0 /\ m' = m /\ P.r # << >> /\ Ok(E') =>
  \/ P'.r # << >> /\ P'.r[1].ts = P.r[1].ts
  \/ \A i \in 1..Len(P.r[1].ts) : Codes(P.r[1].ts[i].t) \in DOMAIN E'.r
(* C17: an error keeps what was there *)
ErrorStep == m > 0 /\ Ok(E) /\ ~Ok(E') /\ ~done' /\ Quiet /\ k # "include" =>
               /\ E'.v = E.v
               /\ E'.r = E.r \/ E'.r = CloseRule(P, E).r
(* C05: the lines of a define are kept as they are until it ends; then it is an assignment *)
DefineStep == k = "define-body" /\ ~done' /\ Ok(E') =>
  LET n == P.d[1].n IN
  /\ P'.d # << >> => E' = E /\ P'.d[1].x = P.d[1].x \o RawLine(src, 1).x /\ P'.d[1].n = n /\ P'.d[1].op = P.d[1].op
  /\ P'.d = << >> =>
       /\ P.d[1].k = 1
       /\ ~HasEval(E) /\ ~MayEval(TextAst(P.d[1].x)) => E'.r = E.r /\ \A w \in DOMAIN E.v \ {n} : E'.v[w] = E.v[w]
       /\ n \in DOMAIN E'.v
       /\ P.d[1].op = "=" => E'.v[n].a = Parse(P.d[1].x).a /\ E'.v[n].f = "R"
       /\ P.d[1].op \in {":=", "::="} => E'.v[n].f = "S" /\ ~HasKind(E'.v[n].a, {"r"})
       /\ P.d[1].op = "?=" /\ n \in DOMAIN E.v => E' = E
(* C10, C11: the conditionals and rules of other texts do not matter to this one *)
ScopeStep == k \in {"assignment", "include"} /\ ~done' => P'.c = P.c /\ P'.r = << >>

Steps == [][/\ IgnoredStep /\ NeutralStep /\ RecipeStep /\ AssignStep /\ Monotone /\ RuleStep
            /\ NoRuleLost /\ ErrorStep /\ DefineStep /\ ScopeStep]_vars

(***************************************************************************)
(* Whole programs                                                          *)
(***************************************************************************)
Text0 == FileText(Prog(p), Prog(p).main[1])
Read(t) == ProcBlock(t, Engine(E.fs, E.cc), MaxFuel)
One == Len(Prog(p).main) = 1 /\ ~Unreadable(Text0)
Alone == done /\ One

(* reading line by line is reading *)
Compositional == Alone => Read(Text0) = E

(* C04: leaving out everything that is not selected changes nothing *)
SelectedOnly == Alone /\ Len(Text0) < 1000 /\ Good(E) /\ ~HasEval(E) /\ (\A i \in 1..Len(Text0) : ~LitAt(Text0, i, K_eval)) =>
                  LET e == Read(kept) IN Good(e) => SameDb(e, E)

(* C08: comments around it, a byte order mark and the last line break do not matter *)
Lf == << LF >>
Pad(t) == << HASH, SP, DOLLAR, LP >> \o Lf \o Lf \o t \o << LF, HASH, 97, EQ, 49 >>
Padded == Alone /\ At(Text0, 1) # BOM /\ At(Text0, Len(Text0)) # CR /\ ~Odd(TrailingSlashes(Text0)) /\ Good(E) =>
            SameDb(Read(Pad(Text0)), E)
WithBom == Alone /\ At(Text0, 1) # BOM => Read(<< BOM >> \o Text0) = E

(* C08: carriage returns before line breaks do not matter outside of defines *)
NoCr(t) == LET bad(i) == (t[i] % 256) = CR /\ At(t, i + 1) = LF
           IN  FoldLeft(LAMBDA a, i : IF bad(i) THEN a ELSE Append(a, t[i]), << >>, [i \in 1..Len(t) |-> i])
LineEnds == Alone /\ Len(Text0) < 1000 /\ Good(E) /\ ks \cap {"define-body", "define"} = {} /\ (\A i \in 1..Len(Text0) : At(Text0, i) # CR \/ At(Text0, i+1) = LF)
            /\ (\A i \in 1..Len(Text0) : ~LitAt(Text0, i, K_include)) =>
              LET e == Read(NoCr(Text0)) IN e.st = Unspec \/ SameDb(e, E)

(* C11: including a file is reading it *)
IncName == << 122, 122 >>
Included == Alone /\ E.st # Unspec =>
  LET e == ProcBlock(K_include \o << SP >> \o IncName \o Lf,
                     Engine((IncName :> Text0) @@ E.fs, E.cc), MaxFuel + 1)
  IN  e.st = Unspec \/ ((Good(E) => SameDb(e, E)) /\ e.st = E.st)

(* C10: evaluating the text of a makefile is reading it *)
EscDollars(t) == FoldLeft(LAMBDA a, c : IF c % 256 = DOLLAR THEN a \o << c, c >> ELSE Append(a, c), << >>, t)
EvName == << 122, 118 >>
Evaluated == Alone /\ Good(E) /\ At(Text0, 1) # BOM /\ ks \cap {"define", "define-body"} = {} =>
  LET body == EscDollars(Text0) \o (IF At(Text0, Len(Text0)) = LF THEN << >> ELSE Lf)
      t == K_define \o << SP >> \o EvName \o Lf \o body \o K_endef \o Lf
           \o << DOLLAR, LP >> \o K_eval \o << SP, DOLLAR, LP >> \o EvName \o << RP, RP, LF >>
      e == ProcBlock(t, Engine(E.fs, E.cc), MaxFuel + 2)
      v == [n \in DOMAIN e.v \ {EvName} |-> e.v[n]]
  IN  (Good(e) /\ EvName \notin DOMAIN E.v) =>
        \* the same up to the doubled dollars being one character
        Plain([e EXCEPT !.v = v]) = Plain(E)

(* C12: what a text is not sensitive to does not matter to it *)
NonInterference == done =>
  \A n \in DOMAIN E.v :
    LET e0 == [E EXCEPT !.st = "ok"]
        x == ExpandA(E.v[n].a, e0, MaxFuel)
    IN  Ok(x.E) /\ ~HasEval(E) =>
        \A w \in DOMAIN E.v \ ({n} \cup x.s) :
          Codes(ExpandA(E.v[n].a, SetVar(e0, w, "R", TextAst(<< 81, 81 >>)), MaxFuel).t) = Codes(x.t)

(* C13: every character is where it says it is, or is one that nobody wrote *)
CharAt(f, l, c) ==      \* the code at a position of a file, 0 if there is none
  LET x == Prog(p).fs[f].x
      nl == << 0 >> \o SelectSeq([i \in 1..Len(x) |-> IF x[i] = LF THEN i ELSE 0], LAMBDA i : i > 0)
      i == nl[l] + c
  IN  IF l <= Len(nl) /\ i <= Len(x) THEN x[i] ELSE 0
Located(t) == \A i \in 1..Len(t) :
  LET g == TAG(t[i]) c == CODE(t[i]) IN
  IF g = 0 THEN c \in {SP, LF} ELSE CharAt(g \div 1000000, (g \div 1000) % 1000, g % 1000) = c
RECURSIVE LocatedAst(_)
LocatedAst(a) == \A i \in 1..Len(a) :
  /\ Located(a[i].t)
  /\ a[i].k \notin {"t", "p"} => CharAt(a[i].l \div 1000000, (a[i].l \div 1000) % 1000, a[i].l % 1000) = DOLLAR
  /\ \A j \in 1..Len(a[i].a) : LocatedAst(a[i].a[j])
Provenance == done =>
  /\ \A n \in DOMAIN E.v : LocatedAst(E.v[n].a)
  /\ \A n \in DOMAIN E.r : /\ Located(E.r[n].t.t)
                           /\ \A i \in 1..Len(E.r[n].d) : Located(E.r[n].d[i].t)
                           /\ \A i \in 1..Len(E.r[n].m) : LocatedAst(E.r[n].m[i])

(* C09: names have no blanks unless escaped ones, and are never empty *)
Names == \A n \in DOMAIN E.r : /\ n # << >> /\ Codes(E.r[n].t.t) = n
                               /\ \A i \in 1..Len(E.r[n].d) : E.r[n].d[i].t # << >>

(* C02: the expansion of a sequence is the sequence of the expansions *)
Splits == done => \A n \in DOMAIN E.v : \A i \in 1..Len(E.v[n].a) :
  LET a == E.v[n].a
      e0 == [E EXCEPT !.st = "ok"]
      w == ExpandA(a, e0, MaxFuel)
      l == ExpandA(Upto(a, i - 1), e0, MaxFuel)
      r == ExpandA(From(a, i), e0, MaxFuel)
  IN  Ok(w.E) /\ ~HasEval(E) => w.t = l.t \o r.t /\ w.s = l.s \cup r.s /\ w.E = e0

(* C03: a substitution reference has as many words as the value, and words that do not match are the same *)
RECURSIVE SubstItems(_)
SubstItems(a) == UNION {IF a[i].k # "r" THEN {} ELSE
                         LET n == ExpandA(a[i].a[1], [E EXCEPT !.st = "ok"], MaxFuel)
                             q == SplitRef(n.t)
                         IN  (IF Ok(n.E) /\ q.sub /\ Codes(q.n) \in DOMAIN E.v THEN {q} ELSE {}) \cup SubstItems(a[i].a[1])
                        : i \in 1..Len(a)}
SubstWords == done /\ ~HasEval(E) =>
  \A n \in DOMAIN E.v : \A q \in SubstItems(E.v[n].a) :
    LET e0 == [E EXCEPT !.st = "ok"]
        v == ExpandA(E.v[Codes(q.n)].a, e0, MaxFuel)
        ws == Words(v.t)
        r == Subst(v.t, q.key, q.rep)
        key == Codes(q.key) rep == Codes(q.rep)
        plainKey == ~HasChar(q.key, PERCENT) /\ ~HasChar(q.key, BSL) /\ ~HasChar(q.rep, PERCENT) /\ ~HasChar(q.rep, BSL) /\ Words(q.rep) = << q.rep >>
    IN  Ok(v.E) =>
        /\ plainKey => Len(Words(r)) = Len(ws)
        /\ plainKey => \A i \in 1..Len(ws) :
             LET w == Codes(ws[i]) x == Codes(Words(r)[i]) IN
             \* declaratively: there is a stem with w = stem.key and x = stem.rep, or key is no suffix and nothing changes
             IF \E j \in 0..Len(w) : SubSeq(w, j + 1, Len(w)) = key
             THEN \E j \in 0..Len(w) : SubSeq(w, j + 1, Len(w)) = key /\ x = SubSeq(w, 1, j) \o rep
             ELSE x = w
        /\ key = << PERCENT >> /\ rep = << PERCENT >> => Codes(r) = Codes(JoinSp(ws))

(* C05: what is kept of a define is what stands before the line that comes next *)
DefineVerbatim == k = "define-body" =>
  LET t == FileText(Prog(p), Prog(p).main[m])
      x == P.d[1].x \o src
  IN  x = From(t, Len(t) - Len(x) + 1)

(* C17: nothing happens after an error *)
ErrorsStop == ~Ok(E) /\ ~done => k = "none"

(* C20: writing an expression down again gives the text it was parsed from, up to the *)
(* choice of brackets, doubled dollars and blanks before arguments                    *)
RECURSIVE Unparse(_)
Arg(a) == Unparse(a)
Unparse(a) == FoldLeft(LAMBDA acc, it : acc \o
   (CASE it.k \in {"t", "p"} -> EscDollars(it.t)
      [] it.k = "r" -> << DOLLAR, LP >> \o Arg(it.a[1]) \o << RP >>
      [] it.k = "e" -> << DOLLAR, LP >> \o K_eval \o << SP >> \o Arg(it.a[1]) \o << RP >>
      [] it.k = "strip" -> << DOLLAR, LP >> \o K_strip \o << SP >> \o Arg(it.a[1]) \o << RP >>
      [] it.k = "words" -> << DOLLAR, LP >> \o K_words \o << SP >> \o Arg(it.a[1]) \o << RP >>
      [] OTHER -> << DOLLAR, LP >> \o K_word \o << SP >> \o Arg(it.a[1]) \o << COMMA >> \o Arg(it.a[2]) \o << RP >>),
   << >>, a)
RECURSIVE Balanced(_)
Balanced(a) == \A i \in 1..Len(a) :
  /\ a[i].k \in {"t", "p"} => ~HasChar(a[i].t, LP) /\ ~HasChar(a[i].t, RP) /\ ~HasChar(a[i].t, LB) /\ ~HasChar(a[i].t, RB)
  /\ \A j \in 1..Len(a[i].a) : Balanced(a[i].a[j])
AstMirrors == done =>
  \A n \in DOMAIN E.v :
    LET a == E.v[n].a IN
    Balanced(a) /\ ~HasKind(a, {"p"}) =>
      LET r == Parse(Unparse(a)) IN r.ok /\ AstCodes(r.a) = AstCodes(a)
========================================================================
