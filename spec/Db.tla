------------------------------- MODULE Db -------------------------------
(***************************************************************************)
(* Databases are values.  Every operation takes one of the databases known *)
(* so far and gives a new one; all earlier ones stay what they were.       *)
(*   database: [v: global variables, t: variables of targets, r: rules]    *)
(*   variable: [f: flavor, a: what it consists of]; its parts are texts    *)
(*             and references to the variable Z, whose values are plain    *)
(*   rule:     [d: prerequisites, m: number of commands]                   *)
(***************************************************************************)
EXTENDS Txt, Json, CSV, IOUtils

CONSTANTS Depth
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Emit(rec) == CSVWrite("%1$s", << ToJson(rec) >>, IOEnv.OUT)
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)

Vars    == {"X", "Y", "Z"}
Targets == {"a", "b"}
Flavors == {"simple", "recursive"}
(* Parts of values; R stands for a reference to Z *)
R == << 0 >>
Values == << << 112 >>, << 128, 113 >>, << >>, R >>
Plain == << 1, 2, 3 >>
RuleValues == << [d |-> << >>, m |-> 0], [d |-> << << 120 >> >>, m |-> 0], [d |-> << << 121 >>, << 122 >> >>, m |-> 1],
                 [d |-> << << 121 >> >>, m |-> 2] >>
None == [none |-> TRUE]

Empty == [v |-> [n \in Vars |-> None], t |-> [g \in Targets |-> [n \in Vars |-> None]], r |-> [g \in Targets |-> None]]

VARIABLES script, dbs, hist, done
vars == << script, dbs, hist, done >>
Init == /\ script \in {i \in 0..Len(Scripts) : i = 0 \/ i % Shards = Shard}
        /\ dbs = << Empty >> /\ hist = << >> /\ done = FALSE

Mark(f, t) == [i \in 1..Len(t) |-> IF t = R THEN 0 ELSE ((f * 100 + 1) * 1000 + i) * 256 + t[i]]
File == Len(hist) + 1
Value(k) == << Mark(File, Values[k]) >>

Mine(o) == (o.k * 5 + (IF "n" \in DOMAIN o THEN IF o.n = "X" THEN 1 ELSE 0 ELSE 0)
            + (IF "g" \in DOMAIN o THEN 2 ELSE 0) + (IF "s" \in DOMAIN o THEN 4 ELSE 0)) % Shards = Shard
Op(o, d) == /\ (hist = << >> /\ script = 0) => Mine(o)
            /\ dbs' = Append(dbs, d)
            /\ hist' = Append(hist, o)
            /\ UNCHANGED << script, done >>

Allowed(n, k) == n # "Z" \/ k < 4
SetVar(i, n, k, f) ==
  Op([o |-> "set", i |-> i, n |-> n, k |-> k, f |-> f, file |-> File], [dbs[i] EXCEPT !.v[n] = [f |-> f, a |-> Value(k)]])
(* An appended value comes after the old one, after one space if so requested; the flavor stays *)
AppendVar(i, n, k, f, s) ==
  Op([o |-> "append", i |-> i, n |-> n, k |-> k, f |-> f, s |-> s, file |-> File],
     [dbs[i] EXCEPT !.v[n] = IF @ = None THEN [f |-> f, a |-> Value(k)]
                             ELSE [f |-> @.f, a |-> @.a \o (IF s THEN << SynSp >> ELSE << >>) \o Value(k)]])
SetTarget(i, g, n, k, f) ==
  Op([o |-> "target", i |-> i, g |-> g, n |-> n, k |-> k, f |-> f, file |-> File],
     [dbs[i] EXCEPT !.t[g][n] = [f |-> f, a |-> Value(k)]])
AddRule(i, g, k) ==
  Op([o |-> "rule", i |-> i, g |-> g, k |-> k], [dbs[i] EXCEPT !.r[g] = RuleValues[k]])
(* An engine that has a database reads `X=w` or `a: w` *)
ReadVar(i, n) ==
  Op([o |-> "readvar", i |-> i, n |-> n, k |-> 0, file |-> File],
     [dbs[i] EXCEPT !.v[n] = [f |-> "recursive", a |-> << << ((File * 100 + 1) * 1000 + 3) * 256 + 119 >> >>]])
ReadRule(i, g) ==
  Op([o |-> "readrule", i |-> i, g |-> g, k |-> 0],
     [dbs[i] EXCEPT !.r[g] = IF @ = None THEN [d |-> << << 119 >> >>, m |-> 0] ELSE [@ EXCEPT !.d = Append(@, << 119 >>)]])

Explore ==
  /\ script = 0 /\ ~done /\ Len(hist) < Depth
  /\ \E i \in 1..Len(dbs) :
       \/ \E n \in Vars : \/ \E k \in 1..4 : Allowed(n, k) /\ n # "Y" /\
                               \/ SetVar(i, n, k, "simple")
                               \/ \E f \in Flavors, s \in BOOLEAN : AppendVar(i, n, k, f, s)
                               \/ k = 1 /\ \E g \in Targets : SetTarget(i, g, n, k, "recursive")
                          \/ n = "X" /\ ReadVar(i, n)
       \/ \E g \in Targets : ReadRule(i, g) \/ \E k \in {2, 3} : AddRule(i, g, k)
Pick(s, x) == s[1 + (x % Len(s))]
Follow ==
  /\ script > 0 /\ ~done /\ Len(hist) < Len(Scripts[script])
  /\ LET r == Scripts[script][Len(hist) + 1]
         i == 1 + (r.i % Len(dbs))
         n == Pick(<< "X", "Y", "Z" >>, r.j)
         g == Pick(<< "a", "b" >>, r.b)
         k == 1 + (r.a % (IF n = "Z" THEN 3 ELSE 4))
         f == Pick(<< "simple", "recursive" >>, r.c)
         s == (r.c \div 2) % 2 = 0
     IN  CASE r.o = "set" -> SetVar(i, n, k, f)
           [] r.o = "append" -> AppendVar(i, n, k, f, s)
           [] r.o = "target" -> SetTarget(i, g, n, k, f)
           [] r.o = "rule" -> AddRule(i, g, 1 + (r.a % 4))
           [] r.o = "readvar" -> ReadVar(i, n)
           [] OTHER -> ReadRule(i, g)

(* The text of a variable in a database *)
TextOf(d, a) == FoldLeft(LAMBDA t, p : t \o IF p = R
                                            THEN IF d.v["Z"] = None THEN << >> ELSE FoldLeft(LAMBDA u, q : u \o q, << >>, d.v["Z"].a)
                                            ELSE p, << >>, a)
VarObs(d, x) == IF x = None THEN << >> ELSE << [f |-> x.f, t |-> TextOf(d, x.a)] >>
DbObs(d) == [v |-> [n \in Vars |-> VarObs(d, d.v[n])],
             t |-> [g \in Targets |-> [n \in Vars |-> VarObs(d, d.t[g][n])]],
             r |-> [g \in Targets |-> IF d.r[g] = None THEN << >> ELSE << d.r[g] >>]]
End == /\ ~done /\ Len(hist) = IF script = 0 THEN Depth ELSE Len(Scripts[script])
       /\ done' = TRUE
       /\ Emit([c |-> [ops |-> hist], o |-> [st |-> "ok", dbs |-> [i \in 1..Len(dbs) |-> DbObs(dbs[i])]]])
       /\ UNCHANGED << script, dbs, hist >>
Next == Explore \/ Follow \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Earlier databases stay, and the new one differs from the one it came from in one entry only *)
Persistent == [][hist' # hist => SubSeq(dbs', 1, Len(dbs)) = dbs]_vars
OneEntry ==
  [][hist' # hist =>
       LET o == hist'[Len(hist')]  old == dbs[o.i]  new == dbs'[Len(dbs')]
       IN  /\ \A n \in Vars : new.v[n] # old.v[n] => (o.o \in {"set", "append", "readvar"} /\ o.n = n)
           /\ \A g \in Targets : new.r[g] # old.r[g] => (o.o \in {"rule", "readrule"} /\ o.g = g)
           /\ \A g \in Targets, n \in Vars : new.t[g][n] # old.t[g][n] => (o.o = "target" /\ o.g = g /\ o.n = n)]_vars
KeepsOld ==
  [][hist' # hist =>
       LET o == hist'[Len(hist')] IN
       (o.o = "append" /\ dbs[o.i].v[o.n] # None) =>
          LET x == dbs[o.i].v[o.n]  y == dbs'[Len(dbs')].v[o.n] IN
          y.f = x.f /\ SubSeq(y.a, 1, Len(x.a)) = x.a]_vars
=========================================================================
