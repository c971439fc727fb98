------------------------------ MODULE Names ------------------------------
(***************************************************************************)
(* Interned names.  A cache maps texts to names, separately for files and  *)
(* for variables.  Names are numbered in the order they are created, over  *)
(* all caches; a clone knows the names known to the original at that time. *)
(* A cache can also be dropped, which must not disturb its clones.         *)
(* Texts are numbered here; a script says which (different) texts the      *)
(* numbers stand for, the enumerated histories use DefaultTexts.           *)
(***************************************************************************)
EXTENDS Txt, Json, CSV, IOUtils

CONSTANTS DefaultTexts, Depth, MaxCaches,
          Few     \* the histories that are enumerated use this many of the texts

Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
Emit(rec) == CSVWrite("%1$s", << ToJson(rec) >>, IOEnv.OUT)
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
TextsOf(i) == IF i = 0 THEN DefaultTexts ELSE Scripts[i].texts
Ops(i) == Scripts[i].ops
ASSUME \A i \in 0..Len(Scripts) : LET x == TextsOf(i) IN
         \A m, n \in 1..Len(x) : m < n => x[m] # x[n]
Kinds == {"file", "variable"}

VARIABLES script, caches, alive, fresh, hist, seen, done
vars == << script, caches, alive, fresh, hist, seen, done >>

Texts == 1..Len(TextsOf(script))
Nothing == [k \in Kinds |-> [t \in Texts |-> 0]]
Init == /\ script \in {i \in 0..Len(Scripts) : i = 0 \/ i % Shards = Shard}
        /\ caches = << Nothing >>
        /\ alive = << TRUE >>
        /\ fresh = 1
        /\ hist = << >> /\ seen = << >> /\ done = FALSE

(* What the caches answer, for every text; and the text of every name they gave out *)
CacheObs(c) == [f |-> c["file"],
                v |-> c["variable"]]
Obs(cs, al) == [i \in 1..Len(cs) |-> IF al[i] THEN << CacheObs(cs[i]) >> ELSE << >>]

Mine(o) == (o.i * 7 + (IF "t" \in DOMAIN o THEN o.t ELSE 0) * 3 + (IF "k" \in DOMAIN o /\ o.k = "file" THEN 1 ELSE 0)) % Shards = Shard
Op(o, cs, al) ==
  /\ (hist = << >> /\ script = 0) => Mine(o)
  /\ caches' = cs /\ alive' = al
  /\ hist' = Append(hist, o)
  /\ seen' = Append(seen, Obs(cs, al))
  /\ UNCHANGED << script, done >>

Live == {i \in 1..Len(caches) : alive[i]}
(* Interning a text gives its name, which is a new one exactly if the cache did not know the text *)
Intern(i, k, n) ==
  LET t == n IN
  IF caches[i][k][t] # 0
  THEN Op([o |-> "intern", i |-> i, k |-> k, t |-> n, name |-> caches[i][k][t]], caches, alive) /\ UNCHANGED fresh
  ELSE /\ Op([o |-> "intern", i |-> i, k |-> k, t |-> n, name |-> fresh], [caches EXCEPT ![i][k][t] = fresh], alive)
       /\ fresh' = fresh + 1
(* Looking a text up tells whether it was interned, and interns nothing *)
Lookup(i, k, n) == /\ Op([o |-> "lookup", i |-> i, k |-> k, t |-> n, name |-> caches[i][k][n]], caches, alive)
                   /\ UNCHANGED fresh
Copy(i) == Len(caches) < MaxCaches /\ Op([o |-> "clone", i |-> i], Append(caches, caches[i]), Append(alive, TRUE)) /\ UNCHANGED fresh
Drop(i) == Cardinality(Live) > 1 /\ Op([o |-> "drop", i |-> i], caches, [alive EXCEPT ![i] = FALSE]) /\ UNCHANGED fresh
Skip == Op([o |-> "none", i |-> 1], caches, alive) /\ UNCHANGED fresh

Explore == /\ script = 0 /\ ~done /\ Len(hist) < Depth
           /\ \E i \in Live : \/ \E k \in Kinds, n \in 1..Few : Intern(i, k, n) \/ Lookup(i, k, n)
                              \/ Copy(i) \/ Drop(i)
Follow ==
  /\ script > 0 /\ ~done /\ Len(hist) < Len(Ops(script))
  /\ LET r == Ops(script)[Len(hist) + 1]
         ls == SetToSortSeq(Live, <)
         i == ls[1 + (r.i % Len(ls))]
         k == IF r.j % 2 = 0 THEN "file" ELSE "variable"
         n == 1 + (r.a % Cardinality(Texts))
     IN  CASE r.o = "intern" -> Intern(i, k, n)
           [] r.o = "lookup" -> Lookup(i, k, n)
           [] r.o = "clone" /\ Len(caches) < MaxCaches -> Copy(i)
           [] r.o = "drop" /\ Cardinality(Live) > 1 -> Drop(i)
           [] OTHER -> Skip
End == /\ ~done /\ Len(hist) = IF script = 0 THEN Depth ELSE Len(Ops(script))
       /\ done' = TRUE
       /\ Emit([c |-> [ops |-> hist, texts |-> TextsOf(script)], o |-> [st |-> "ok", seen |-> seen]])
       /\ UNCHANGED << script, caches, alive, fresh, hist, seen >>
Next == Explore \/ Follow \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Within one cache, and one kind, different texts have different names; and a name never stands for *)
(* two texts anywhere                                                                                 *)
Unique == done => \A i, j \in 1..Len(caches) : \A k, l \in Kinds : \A s, t \in Texts :
            (caches[i][k][s] = caches[j][l][t] /\ caches[i][k][s] # 0) => (s = t /\ k = l)
(* Names are never forgotten or changed *)
Stable == [][hist' # hist => \A i \in 1..Len(caches) : \A k \in Kinds, t \in Texts :
               caches[i][k][t] # 0 => caches'[i][k][t] = caches[i][k][t]]_vars
(* Only interning changes what a cache answers, for one text of one kind of one cache *)
OnlyIntern == [][hist' # hist => \A i \in 1..Len(caches) : \A k \in Kinds, t \in Texts :
                   caches'[i][k][t] # caches[i][k][t] =>
                     LET o == hist'[Len(hist')] IN o.o = "intern" /\ o.i = i /\ o.k = k /\ o.t = t]_vars
==========================================================================
