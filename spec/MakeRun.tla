---------------------------- MODULE MakeRun ----------------------------
(***************************************************************************)
(* The reader as a state machine: one step per line, one action per kind   *)
(* of line, started on each of a family of programs.  At the end of each   *)
(* program the expected observation is written out, to be compared with    *)
(* the implementation reading the same program.                            *)
(*   program: [id, cc, fs: <<[n, x]>>, main: <<file index>>]               *)
(* The family consists of all programs enumerated by some alphabets (all   *)
(* sequences of at most `depth` fragments, between a prefix and a suffix), *)
(* followed by given programs; both are read from files of JSON records.   *)
(***************************************************************************)
EXTENDS Obs

(* [base, size, frags, prefix, suffix, cc, n, fs, main]: the programs of an *)
(* alphabet have the numbers base+1 .. base+size                            *)
Alphabets == ndJsonDeserialize(IOEnv.ALPHABETS)
Given == ndJsonDeserialize(IOEnv.PROGS)
Shard  == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)

EnumSize == IF Alphabets = << >> THEN 0 ELSE LET a == Alphabets[Len(Alphabets)] IN a.base + a.size
Ids == {i \in 1..(EnumSize + Len(Given)) : i % Shards = Shard}

RECURSIVE Digits(_, _, _, _), DigitsOf(_, _, _, _)
Digits(n, b, d, acc) == IF d = 0 THEN acc ELSE Digits(n \div b, b, d - 1, acc \o << 1 + (n % b) >>)
DigitsOf(n, b, d, size) == IF n < size THEN Digits(n, b, d, << >>) ELSE DigitsOf(n - size, b, d + 1, size * b)
EnumProg(i) ==
  LET a == Alphabets[CHOOSE j \in 1..Len(Alphabets) : Alphabets[j].base < i /\ i <= Alphabets[j].base + Alphabets[j].size]
      ds == DigitsOf(i - a.base - 1, Len(a.frags), 0, 1)
      text == FoldLeft(LAMBDA t, d : t \o a.frags[d], a.prefix, ds) \o a.suffix
  IN  [id |-> i, cc |-> a.cc, main |-> a.main,
       fs |-> << [n |-> a.n, x |-> text] >> \o a.fs]
Prog(i) == IF i <= EnumSize THEN EnumProg(i) ELSE [Given[i - EnumSize] EXCEPT !.id = i]

VARIABLES p,      \* which program
          m,      \* which of its main files is being read
          src,    \* what is left of it
          k,      \* the kind of line that comes next
          P, E,
          sts,    \* how reading the earlier main files ended
          kept,   \* the lines that took effect, an empty line for each other
          ks,     \* the kinds of lines that occurred
          done
vars == << p, m, src, k, P, E, sts, kept, ks, done >>
NextKind == k' = IF Ok(E') /\ src' # << >> THEN Kind(src', P', E'.cc) ELSE "none"

FileText(q, i) == Tagged(i, q.fs[i].x)
FilesOf(q) == LET ix == 1..Len(q.fs) IN
              [n \in {q.fs[i].n : i \in ix} |-> FileText(q, CHOOSE i \in ix : q.fs[i].n = n)]
StripBom(t) == IF At(t, 1) = BOM THEN Tail(t) ELSE t

(* A main file that cannot be read has no effect *)
OpenMain(t, e) == IF Ok(e) /\ Unreadable(t) THEN Fail(e, "IOError") ELSE e

Init == /\ p \in Ids
        /\ m = 0 /\ src = << >> /\ P = P0 /\ E = Engine(EmptyFn, 9) /\ done = FALSE /\ k = "none"
        /\ kept = << >> /\ ks = {} /\ sts = << >>

Start == /\ m = 0
         /\ LET q == Prog(p) IN
            /\ src' = StripBom(FileText(q, q.main[1]))
            /\ E' = OpenMain(FileText(q, q.main[1]), Engine(FilesOf(q), q.cc))
         /\ m' = 1
         /\ P' = P0
         /\ NextKind
         /\ UNCHANGED << p, sts, kept, ks, done >>

Line(kind) ==
           /\ ~done /\ k = kind
           /\ LET o == ProcLine(k, src, P, E, MaxFuel) IN
              src' = o.rest /\ P' = o.P /\ E' = o.E
           /\ NextKind
           /\ kept' = IF kind = "conditional" \/ Ignoring(P) THEN Append(kept, LF)
                      ELSE kept \o SubSeq(src, 1, Len(src) - Len(src'))
           /\ ks' = ks \cup {kind}
           /\ UNCHANGED << p, m, sts, done >>

Comment     == Line("comment")
BlankLine   == Line("blank")
Recipe      == Line("recipe")
DefineBody  == Line("define-body")
Conditional == Line("conditional")
Ignored     == Line("ignored")
IgnoredDef  == Line("ignored-define")
BadAssign   == Line("bad-assignment")
Assignment  == Line("assignment")
Define      == Line("define")
Include     == Line("include")
StrayRecipe == Line("stray-recipe")
Target      == Line("target")
Unknown     == Line("unspec")

(* The end of a main file, or an error in it: the next one, or the end.  An error does not keep the   *)
(* engine from reading other files (unless it is open whether a rule that was being read is there)     *)
Goes(e) == Ok(e) \/ (e.st # Unspec /\ ~e.lr)
EndOfFile ==
  /\ ~done /\ m > 0 /\ (Ok(E) => src = << >>) /\ Goes(E)
  /\ m < Len(Prog(p).main)
  /\ m' = m + 1
  /\ src' = StripBom(FileText(Prog(p), Prog(p).main[m + 1]))
  /\ P' = P0
  /\ LET F == Finish(P, E) IN
     /\ sts' = Append(sts, F.st)
     /\ E' = OpenMain(FileText(Prog(p), Prog(p).main[m + 1]), IF F.st = Unspec THEN F ELSE [F EXCEPT !.st = "ok"])
  /\ NextKind
  /\ kept' = << >>
  /\ UNCHANGED << p, ks, done >>
End ==
  /\ ~done /\ m > 0
  /\ Goes(E) => m = Len(Prog(p).main) /\ (Ok(E) => src = << >>)   \* one successor, written out once
  /\ E' = Finish(P, E)
  /\ P' = P0
  /\ done' = TRUE
  /\ Emit([id |-> p, ks |-> SetToSeq(ks), c |-> Prog(p),
           o |-> [sts |-> Append(sts, E'.st)] @@ EngineObs(E')])
  /\ UNCHANGED << p, m, sts, src, k, kept, ks >>

Next == \/ Start
        \/ Comment \/ BlankLine \/ Recipe \/ DefineBody \/ Conditional \/ Ignored \/ IgnoredDef \/ BadAssign
        \/ Assignment \/ Define \/ Include \/ StrayRecipe \/ Target \/ Unknown \/ EndOfFile \/ End
Spec == Init /\ [][Next]_vars
========================================================================
