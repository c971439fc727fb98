---------------------------- MODULE Session ----------------------------
(***************************************************************************)
(* Two engines that are used in turn, over files that change in between.   *)
(* What an engine knows comes from what was done with it alone; nothing    *)
(* is carried over from one makefile to the next but variables and rules.  *)
(*   script: [texts, fs: <<[n, x]>>, pre: <<op>>, ops: <<op>>, depth]      *)
(* with depth > 0 all sequences of that many of its operations follow pre; *)
(* otherwise exactly its operations.  An operation is one of               *)
(*   read e x     engine e reads text x       use e n     expands a variable*)
(*   cc e c       its command character       run e n     expands a recipe  *)
(*   wd e d       its working directory       look e      is observed       *)
(*   copy e f     gets the database of f      write n x, remove n   a file  *)
(***************************************************************************)
EXTENDS Obs

Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

VARIABLES s,      \* which script
          E,      \* the engines
          wd,     \* their working directories (<< >> or a name that ends in a slash)
          disk,   \* file name -> text
          hist,   \* what was done
          res,    \* what came of it
          bad,    \* what comes next is not specified
          done
vars == << s, E, wd, disk, hist, res, bad, done >>

Engines == {1, 2}
Text(x) == Tagged(1, Scripts[s].texts[x])
Under(d) == {n \in DOMAIN disk : Len(n) > Len(d) /\ SubSeq(n, 1, Len(d)) = d}
View(d) == [n \in {From(n, Len(d) + 1) : n \in Under(d)} |-> disk[d \o n]]

Init == /\ s \in {i \in 1..Len(Scripts) : Scripts[i].depth > 0 \/ i % Shards = Shard}
        /\ E = [e \in Engines |-> Engine(EmptyFn, 9)]
        /\ wd = [e \in Engines |-> << >>]
        /\ disk = LET fs == Scripts[s].fs IN
                  [n \in {fs[i].n : i \in 1..Len(fs)} |-> Text(fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n].x)]
        /\ hist = << >> /\ res = << >> /\ bad = FALSE /\ done = FALSE

Result(st, t) == [st |-> st, t |-> t, o |-> << >>]
Quiet(F) == [F EXCEPT !.st = "ok", !.lr = FALSE, !.fs = EmptyFn]
Here(e) == [E[e] EXCEPT !.fs = View(wd[e])]

Becomes(o, r) == /\ hist' = Append(hist, o)
                 /\ res' = Append(res, r)
                 /\ UNCHANGED << s, done >>
(* The history ends before an operation whose effect is not specified *)
Change(o, F, r) == IF F.st = Unspec \/ F.lr THEN bad' = TRUE /\ UNCHANGED << s, E, wd, disk, hist, res, done >>
                   ELSE /\ Becomes(o, r)
                        /\ E' = [E EXCEPT ![o.e] = Quiet(F)]
                        /\ UNCHANGED << wd, disk, bad >>
Keep(o) == Becomes(o, Result("ok", << >>)) /\ UNCHANGED bad

ReadText(o) == /\ o.o = "read"
               /\ LET t == Text(o.x)
                      F == IF Unreadable(t) THEN Fail(Here(o.e), "IOError") ELSE ProcBlock(t, Here(o.e), MaxFuel)
                  IN  Change(o, F, Result(F.st, << >>))
UseVar(o) == /\ o.o = "use"
             /\ IF o.n \notin DOMAIN E[o.e].v THEN Change(o, E[o.e], Result("undefined", << >>))
                ELSE LET x == ExpandA(E[o.e].v[o.n].a, Here(o.e), MaxFuel) IN
                     Change(o, IF Ok(x.E) THEN x.E ELSE Fail([x.E EXCEPT !.st = "ok"], Unspec), Result("ok", x.t))
(* The commands of a rule, one after another, each with its own line break *)
RECURSIVE RunAll(_, _, _)
RunAll(ms, F, t) ==
  IF ms = << >> \/ ~Ok(F) THEN Res(t, {}, IF Ok(F) THEN F ELSE Fail([F EXCEPT !.st = "ok"], Unspec))
  ELSE LET x == ExpandA(Head(ms), F, MaxFuel) IN RunAll(Tail(ms), x.E, Append(t \o x.t, LF))
RunRule(o) == /\ o.o = "run"
              /\ IF o.n \notin DOMAIN E[o.e].r THEN Change(o, E[o.e], Result("undefined", << >>))
                 ELSE LET x == RunAll(E[o.e].r[o.n].m, Here(o.e), << >>) IN Change(o, x.E, Result("ok", x.t))
Look(o) == /\ o.o = "look"
           /\ Becomes(o, [Result("ok", << >>) EXCEPT !.o = << EngineObs(Here(o.e)) >>])
           /\ UNCHANGED << E, wd, disk, bad >>
SetChar(o) == /\ o.o = "cc" /\ Keep(o) /\ E' = [E EXCEPT ![o.e].cc = o.c] /\ UNCHANGED << wd, disk >>
SetDir(o) == /\ o.o = "wd" /\ Keep(o) /\ wd' = [wd EXCEPT ![o.e] = o.d] /\ UNCHANGED << E, disk >>
Copy(o) == /\ o.o = "copy" /\ Keep(o) /\ E' = [E EXCEPT ![o.e].v = E[o.f].v, ![o.e].r = E[o.f].r] /\ UNCHANGED << wd, disk >>
WriteFile(o) == /\ o.o = "write" /\ Keep(o)
                /\ disk' = (o.n :> Text(o.x)) @@ disk
                /\ UNCHANGED << E, wd >>
RemoveFile(o) == /\ o.o = "remove" /\ Keep(o)
                 /\ disk' = [n \in DOMAIN disk \ {o.n} |-> disk[n]]
                 /\ UNCHANGED << E, wd >>

Do(o) == ReadText(o) \/ UseVar(o) \/ RunRule(o) \/ Look(o) \/ SetChar(o) \/ SetDir(o) \/ Copy(o) \/ WriteFile(o) \/ RemoveFile(o)

Size == Len(Scripts[s].pre) + (IF Scripts[s].depth > 0 THEN Scripts[s].depth ELSE Len(Scripts[s].ops))
Next ==
  /\ ~done
  /\ IF bad \/ Len(hist) = Size
     THEN /\ done' = TRUE
          /\ Emit([c |-> [texts |-> Scripts[s].texts, fs |-> Scripts[s].fs, ops |-> hist],
                   o |-> [st |-> "ok", res |-> res, e |-> << EngineObs(Here(1)), EngineObs(Here(2)) >>]])
          /\ UNCHANGED << s, E, wd, disk, hist, res, bad >>
     ELSE LET k == Len(hist) - Len(Scripts[s].pre) IN
          IF k < 0 THEN Do(Scripts[s].pre[Len(hist) + 1])
          ELSE IF Scripts[s].depth = 0 THEN Do(Scripts[s].ops[k + 1])
          ELSE \E i \in 1..Len(Scripts[s].ops) : (k = 0 => i % Shards = Shard) /\ Do(Scripts[s].ops[i])
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Latest == hist'[Len(hist')]
Acts == hist' # hist
(* An operation concerns the engine it is done with, and its database only if it is one of these *)
OthersKeep == [][Acts => \A e \in Engines :
                  /\ (Latest.o \in {"write", "remove"} \/ Latest.e # e) => E'[e] = E[e] /\ wd'[e] = wd[e]
                  /\ Latest.o \in {"cc", "wd", "look"} => E'[e].v = E[e].v /\ E'[e].r = E[e].r]_vars
(* A file is changed by writing it only *)
FilesKeep == [][disk' # disk => Latest.o \in {"write", "remove"} /\ \A n \in (DOMAIN disk \cap DOMAIN disk') \ {Latest.n} : disk'[n] = disk[n]]_vars
(* Expanding changes nothing unless there is an eval *)
CanEval(F, a) == MayEval(a) \/ \E n \in DOMAIN F.v : MayEval(F.v[n].a)
UseIsPure == [][Acts /\ Latest.o = "use" /\ Latest.n \in DOMAIN E[Latest.e].v
                   /\ ~CanEval(E[Latest.e], E[Latest.e].v[Latest.n].a) => E'[Latest.e].v = E[Latest.e].v /\ E'[Latest.e].r = E[Latest.e].r]_vars
(* After copying, both know the same *)
Copied == [][Acts /\ Latest.o = "copy" => E'[Latest.e].v = E'[Latest.f].v /\ E'[Latest.e].r = E'[Latest.f].r]_vars

(* An engine into which nothing was copied is as if the other one had not been used *)
RECURSIVE DiskAfter(_), WdAfter(_, _), CcAfter(_, _), DbAfter(_, _)
DiskAfter(h) ==
  IF h = << >> THEN LET fs == Scripts[s].fs IN
                    [n \in {fs[i].n : i \in 1..Len(fs)} |-> Text(fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n].x)]
  ELSE LET o == h[Len(h)]  d == DiskAfter(Front(h)) IN
       IF o.o = "write" THEN (o.n :> Text(o.x)) @@ d
       ELSE IF o.o = "remove" THEN [n \in DOMAIN d \ {o.n} |-> d[n]] ELSE d
WdAfter(h, e) == IF h = << >> THEN << >> ELSE LET o == h[Len(h)] IN
                 IF o.o = "wd" /\ o.e = e THEN o.d ELSE WdAfter(Front(h), e)
CcAfter(h, e) == IF h = << >> THEN 9 ELSE LET o == h[Len(h)] IN
                 IF o.o = "cc" /\ o.e = e THEN o.c ELSE CcAfter(Front(h), e)
(* A new engine, given the database, the command character and the directory, does the same *)
DbAfter(h, e) ==
  IF h = << >> THEN [v |-> EmptyFn, r |-> EmptyFn]
  ELSE LET o == h[Len(h)]  b == Front(h)  d == DbAfter(b, e)
           dk == DiskAfter(b)  w == WdAfter(b, e)
           fs == [n \in {From(n, Len(w) + 1) : n \in {x \in DOMAIN dk : Len(x) > Len(w) /\ SubSeq(x, 1, Len(w)) = w}} |-> dk[w \o n]]
           F == [Engine(fs, CcAfter(b, e)) EXCEPT !.v = d.v, !.r = d.r]
           of(G) == [v |-> G.v, r |-> G.r]
       IN  IF o.o \in {"write", "remove"} \/ o.e # e THEN d
           ELSE CASE o.o = "copy" -> DbAfter(b, o.f)
                  [] o.o = "read" -> IF Unreadable(Text(o.x)) THEN d ELSE of(ProcBlock(Text(o.x), F, MaxFuel))
                  [] o.o = "use" -> IF o.n \in DOMAIN d.v THEN of(ExpandA(d.v[o.n].a, F, MaxFuel).E) ELSE d
                  [] o.o = "run" -> IF o.n \in DOMAIN d.r THEN of(RunAll(d.r[o.n].m, F, << >>).E) ELSE d
                  [] OTHER -> d
OwnHistory == done => \A e \in Engines : DbAfter(hist, e) = [v |-> E[e].v, r |-> E[e].r]
========================================================================
