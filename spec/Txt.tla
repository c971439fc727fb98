------------------------------ MODULE Txt ------------------------------
(***************************************************************************)
(* Makefile text.                                                          *)
(*                                                                         *)
(* A text is a sequence of numbers, one per character: tag*256 + code.     *)
(* The code is the ASCII code, or one of a few codes >= 128 that stand for *)
(* characters of two, three and four bytes and for the byte order mark.    *)
(* The tag says where the character was written:                           *)
(*     tag = (file*1000 + line)*1000 + column       0 = written nowhere    *)
(* (so at most 8 files of 999 lines of 999 columns).                       *)
(* so that every operator below transports provenance without mentioning   *)
(* it.  A name (of a variable, a target, a file) is a sequence of codes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions, Kw

CODE(c) == c % 256
TAG(c)  == c \div 256
Codes(t) == [i \in 1..Len(t) |-> t[i] % 256]

TAB == 9    LF == 10    CR == 13    SP == 32
BANG == 33  DQ == 34    HASH == 35  DOLLAR == 36   PERCENT == 37  SQ == 39
LP == 40    RP == 41    PLUS == 43  COMMA == 44    SLASH == 47    COLON == 58
SEMI == 59  EQ == 61    QM == 63    BSL == 92      LB == 123      RB == 125
BAR == 124  BOM == 131

(* Characters that no source contains *)
SynSp == << SP >>
SynLf == << LF >>
SynSemi == << SEMI >>

Blank(c) == c = SP \/ c = TAB
Space(c) == c = SP \/ (c >= 9 /\ c <= 13)      \* char::is_whitespace, on our alphabet
Alpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 128 \/ c = 129
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

At(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] % 256 ELSE 0
From(t, i) == IF i > Len(t) THEN << >> ELSE IF i <= 1 THEN t ELSE SubSeq(t, i, Len(t))
Upto(t, i) == IF i < 1 THEN << >> ELSE IF i >= Len(t) THEN t ELSE SubSeq(t, 1, i)

(* The first position >= i whose character is in S / not in S, or Len(t)+1 *)
Find(t, i, S) ==
  IF i > Len(t) THEN i
  ELSE LET j == SelectInSeq(SubSeq(t, i, Len(t)), LAMBDA c : (c % 256) \in S) IN
       IF j = 0 THEN Len(t) + 1 ELSE i + j - 1
FindNot(t, i, S) ==
  IF i > Len(t) THEN i
  ELSE LET j == SelectInSeq(SubSeq(t, i, Len(t)), LAMBDA c : (c % 256) \notin S) IN
       IF j = 0 THEN Len(t) + 1 ELSE i + j - 1

(* The last position <= i whose character is not in S / is in S, or 0 *)
RFindNot(t, i, S) == IF i < 1 THEN 0 ELSE SelectLastInSeq(SubSeq(t, 1, i), LAMBDA c : (c % 256) \notin S)
RFind(t, i, S) == IF i < 1 THEN 0 ELSE SelectLastInSeq(SubSeq(t, 1, i), LAMBDA c : (c % 256) \in S)

BLANKS == {SP, TAB}
SPACES == {9, 10, 11, 12, 13, 32}
SkipBlanks(t, i) == FindNot(t, i, BLANKS)
HasChar(t, c) == Find(t, 1, {c}) <= Len(t)

Trim(t) == LET b == FindNot(t, 1, SPACES)
               e == RFindNot(t, Len(t), SPACES)
           IN  IF b > e THEN << >> ELSE SubSeq(t, b, e)

(* Backslashes that end right before position i (exclusive) and start no earlier than position b *)
RECURSIVE Slashes(_, _, _)
Slashes(t, b, i) == IF i - 1 < b \/ (t[i - 1] % 256) # BSL THEN 0 ELSE 1 + Slashes(t, b, i - 1)

Odd(n) == n % 2 = 1

(* Does keyword / literal w stand at position i of t (exactly; ignoring case)? *)
LitAt(t, i, w) == /\ i + Len(w) - 1 <= Len(t)
                  /\ \A j \in 1..Len(w) : (t[i + j - 1] % 256) = w[j]
LitAtNC(t, i, w) == /\ i + Len(w) - 1 <= Len(t)
                    /\ \A j \in 1..Len(w) : Lower(t[i + j - 1] % 256) = w[j]
KwEnd(t, i) == i > Len(t) \/ (t[i] % 256) \in {SP, TAB, CR, LF}
KwAt(t, i, w) == LitAt(t, i, w) /\ KwEnd(t, i + Len(w))
KwAtNC(t, i, w) == LitAtNC(t, i, w) /\ KwEnd(t, i + Len(w))
(* what follows keyword w at i, without leading blanks *)
AfterKw(t, i, w) == From(t, SkipBlanks(t, i + Len(w)))

RECURSIVE JoinSp(_)
JoinSp(ws) == IF ws = << >> THEN << >>
              ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o SynSp \o JoinSp(Tail(ws))

(***************************************************************************)
(* Escapes.  TakeUnq(t, S, null): everything up to the first character of  *)
(* S that is not escaped.  A run of backslashes directly before a          *)
(* character of S stands for half as many; an odd one left over escapes    *)
(* it.  Other backslashes are untouched.  With null, the end of the text   *)
(* counts as such a character too.                                         *)
(* [pre, found, at, post]                                                  *)
(***************************************************************************)
RECURSIVE TakeUnqR(_, _, _, _, _, _, _)
TakeUnqR(t, S, null, i, nx, out, seen) ==
  LET j == Find(t, i, S) IN
  IF j <= Len(t) THEN
    LET k == Slashes(t, 1, j) IN
    IF Odd(k)
    THEN TakeUnqR(t, S, null, j + 1, j, out \o SubSeq(t, nx, j - 1 - (k \div 2) - 1), TRUE)
    ELSE [pre |-> out \o SubSeq(t, nx, j - 1 - (k \div 2)), found |-> TRUE, at |-> t[j] % 256,
          post |-> From(t, j + 1)]
  ELSE LET k == Slashes(t, 1, Len(t) + 1) IN
    IF null /\ ~Odd(k) THEN [pre |-> out \o SubSeq(t, nx, Len(t) - (k \div 2)), found |-> TRUE, at |-> 0, post |-> << >>]
    ELSE IF ~seen THEN [pre |-> t, found |-> FALSE, at |-> 0, post |-> << >>]
    ELSE IF null THEN [pre |-> out \o SubSeq(t, nx, Len(t) - (k \div 2)), found |-> FALSE, at |-> 0, post |-> << >>]
    ELSE [pre |-> out \o SubSeq(t, nx, Len(t)), found |-> FALSE, at |-> 0, post |-> << >>]

TakeUnq(t, S) == TakeUnqR(t, S, FALSE, 1, 1, << >>, FALSE)
TakeUnq0(t, S) == TakeUnqR(t, S, TRUE, 1, 1, << >>, FALSE)

(* The words of a list of file names *)
RECURSIVE FileSeqR(_, _, _)
FileSeqR(t, S, acc) ==
  IF t = << >> THEN acc
  ELSE LET r == TakeUnq0(t, S) IN
       FileSeqR(r.post, S, IF r.pre = << >> THEN acc ELSE Append(acc, r.pre))
FileSeq(t, extra) == FileSeqR(From(t, SkipBlanks(t, 1)), SPACES \cup extra, << >>)

(* The blank-separated words of a text *)
RECURSIVE WordsR(_, _, _)
WordsR(t, i, acc) ==
  LET b == FindNot(t, i, BLANKS) IN
  IF b > Len(t) THEN acc
  ELSE LET e == Find(t, b, BLANKS) IN WordsR(t, e, Append(acc, SubSeq(t, b, e - 1)))
Words(t) == WordsR(t, 1, << >>)

(***************************************************************************)
(* Physical and logical lines.                                             *)
(***************************************************************************)
(* From position i up to the first # or line break.  [x, n, why]: the text,*)
(* where to go on, and what ended it                                       *)
GrabLine(t, i) ==
  LET j == Find(t, i, {HASH, LF}) IN
  IF j > Len(t) THEN [x |-> From(t, i), n |-> j, why |-> "eof"]
  ELSE IF (t[j] % 256) = HASH THEN [x |-> SubSeq(t, i, j - 1), n |-> j, why |-> "comment"]
  ELSE [x |-> SubSeq(t, i, IF j - 1 >= i /\ (t[j - 1] % 256) = CR THEN j - 2 ELSE j - 1),
        n |-> j + 1, why |-> "eol"]

TrailingSlashes(x) == Slashes(x, 1, Len(x) + 1)

(* A physical line including its line break; [x, n] *)
RawLine(t, i) ==
  LET j == Find(t, i, {LF}) IN
  [x |-> SubSeq(t, i, IF j > Len(t) THEN Len(t) ELSE j), n |-> j + 1]

(* The position after the comment whose # is at i *)
RECURSIVE CommentEnd(_, _)
CommentEnd(t, i) ==
  LET j == Find(t, i, {LF})
      e == IF j <= Len(t) /\ j - 1 >= i /\ (t[j - 1] % 256) = CR THEN j - 1 ELSE j
  IN  IF j > Len(t) THEN j
      ELSE IF Odd(Slashes(t, i, e)) THEN CommentEnd(t, j + 1) ELSE j + 1

(* A line that is continued: without the backslash and the blanks before it. *)
CleanEnd(x) ==
  LET k == TrailingSlashes(x) IN
  IF k = 1 THEN Upto(x, RFindNot(x, Len(x) - 1, BLANKS))
  ELSE Upto(x, Len(x) - k + (k \div 2))

(* GrabLine, except that a # after an odd number of backslashes is literal. *)
(* Backslashes before a # stand for half as many, literal or not.           *)
RECURSIVE GrabUnqR(_, _, _, _)
GrabUnqR(t, i, s, acc) ==
  LET g == GrabLine(t, s)
      k == TrailingSlashes(g.x)
      x == acc \o SubSeq(t, i, s - 1) \o g.x
  IN  IF g.why # "comment" THEN [x |-> x, n |-> g.n, why |-> g.why]
      ELSE IF Odd(k) THEN GrabUnqR(t, g.n, g.n + 1, Upto(x, Len(x) - ((k + 1) \div 2)))
      ELSE [x |-> Upto(x, Len(x) - (k \div 2)), n |-> g.n, why |-> g.why]
GrabUnq(t, i) == GrabUnqR(t, i, i, << >>)

(* One logical line from position i. [x, n, why] *)
RECURSIVE LogicalR(_, _, _, _, _)
LogicalR(t, i, acc, strip, addsp) ==
  LET useSp == addsp /\ ~strip
      acc1  == IF useSp THEN acc \o SynSp ELSE acc
      addsp1 == IF useSp THEN addsp ELSE TRUE
      g == GrabUnq(t, SkipBlanks(t, i))
      c == CleanEnd(g.x)
  IN  IF g.why = "comment" \/ ~Odd(TrailingSlashes(g.x)) THEN [x |-> acc1 \o g.x, n |-> g.n, why |-> g.why]
      ELSE IF c = << >> THEN LogicalR(t, g.n, acc1, strip, FALSE)
      ELSE LogicalR(t, g.n, acc1 \o c, FALSE, addsp1)

LogicalLine(t, i) ==
  LET g == GrabUnq(t, SkipBlanks(t, i))
      c == CleanEnd(g.x)
  IN  IF g.why = "comment" \/ ~Odd(TrailingSlashes(g.x)) THEN [x |-> g.x, n |-> g.n, why |-> g.why]
      ELSE LogicalR(t, g.n, c, c = << >>, TRUE)

(* A recipe line from position i, where the command character cc is. [x, n, esc] *)
RECURSIVE RecipeR(_, _, _, _)
RecipeR(t, i, cc, acc) ==
  LET g == GrabLine(t, i + 1)
      x == acc \o g.x
  IN  IF g.why = "comment" THEN [x |-> x, n |-> g.n, esc |-> TrailingSlashes(g.x) > 0]
      ELSE IF ~Odd(TrailingSlashes(x)) THEN [x |-> x, n |-> g.n, esc |-> FALSE]
      ELSE IF At(t, g.n) # cc \/ g.n > Len(t) THEN [x |-> x \o SynLf, n |-> g.n, esc |-> FALSE]
      ELSE RecipeR(t, g.n, cc, x \o SynLf)
RecipeLine(t, i, cc) == RecipeR(t, i, cc, << >>)

(***************************************************************************)
(* Reading a file: give every character its tag                            *)
(***************************************************************************)
TagStep(z, c) == [f |-> z.f, l |-> IF c = LF THEN z.l + 1 ELSE z.l, c |-> IF c = LF THEN 1 ELSE z.c + 1,
                  t |-> Append(z.t, ((z.f * 1000 + z.l) * 1000 + z.c) * 256 + c)]
Tagged(f, codes) == FoldLeft(TagStep, [f |-> f, l |-> 1, c |-> 1, t |-> << >>], codes).t
========================================================================
