------------------------------ MODULE Obs ------------------------------
(***************************************************************************)
(* What can be observed of an engine from outside, as plain data that is   *)
(* compared with what the implementation shows.                            *)
(***************************************************************************)
EXTENDS Make, Json, CSV, IOUtils

Sens(S) == SetToSeq(S)
RECURSIVE AstObs(_)
AstObs(a) == [i \in 1..Len(a) |->
                [k |-> a[i].k, t |-> a[i].t, l |-> a[i].l, s |-> Sens(a[i].s),
                 a |-> [j \in 1..Len(a[i].a) |-> AstObs(a[i].a[j])]]]
BlockObs(b) == [t |-> b.t, s |-> Sens(b.s), u |-> Sens(b.u)]

VarObs(E, n) ==
  LET x == ExpandA(E.v[n].a, [E EXCEPT !.st = "ok"], MaxFuel) IN
  [n |-> n, f |-> E.v[n].f, a |-> AstObs(E.v[n].a),
   x |-> IF Ok(x.E) THEN << [t |-> x.t, s |-> Sens(x.s)] >> ELSE << >>]

CmdObs(E, a) ==
  LET x == ExpandA(a, [E EXCEPT !.st = "ok"], MaxFuel) IN
  [a |-> AstObs(a), x |-> IF Ok(x.E) THEN << [t |-> x.t, s |-> Sens(x.s)] >> ELSE << >>]

RuleObs(E, n) ==
  LET r == E.r[n] IN
  [n |-> n, t |-> BlockObs(r.t), g |-> r.g,
   d |-> [i \in 1..Len(r.d) |-> BlockObs(r.d[i])],
   m |-> [i \in 1..Len(r.m) |-> CmdObs(E, r.m[i])]]

EngineObs(E) ==
  LET vs == SetToSeq(DOMAIN E.v)  rs == SetToSeq(DOMAIN E.r) IN
  [st |-> E.st, lr |-> E.lr,
   v |-> [i \in 1..Len(vs) |-> VarObs(E, vs[i])],
   r |-> [i \in 1..Len(rs) |-> RuleObs(E, rs[i])]]

(* Might expanding this evaluate something? *)
MayEval(a) == HasKind(a, {"e"}) \/ \E i \in 1..Len(a) : \E j \in 1..Len(a[i].t) : LitAt(a[i].t, j, K_eval)

(* The same without provenance, for comparing engines with one another *)
RECURSIVE AstCodes(_)
AstCodes(a) == [i \in 1..Len(a) |->
                 [k |-> a[i].k, t |-> Codes(a[i].t), s |-> a[i].s,
                  a |-> [j \in 1..Len(a[i].a) |-> AstCodes(a[i].a[j])]]]
Plain(E) ==
  [st |-> E.st,
   v |-> [n \in DOMAIN E.v |-> [f |-> E.v[n].f, a |-> AstCodes(E.v[n].a)]],
   r |-> [n \in DOMAIN E.r |->
           [d |-> [i \in 1..Len(E.r[n].d) |-> Codes(E.r[n].d[i].t)],
            m |-> [i \in 1..Len(E.r[n].m) |-> AstCodes(E.r[n].m[i])], g |-> E.r[n].g]]]

Emit(rec) == CSVWrite("%1$s", << ToJson(rec) >>, IOEnv.OUT)
========================================================================
