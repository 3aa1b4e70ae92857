------------------------------- MODULE TextIn -------------------------------
(* Reading text: a stream is a text (character codes), a position, whether  *)
(* it can still be read, and the caller's line counter.                     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES text, pos, good, line, obs
tvars == <<text, pos, good, line, obs>>

NL == 10
WS == {9, 10, 11, 12, 13, 32}
IsWs(c) == c \in WS
Digits == 48 .. 57

Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m

(* first index >= p where the character is / is not in C; Len + 1 if none   *)
NextIn(t, p, C)  == LET S == {i \in p .. Len(t) : t[i] \in C} IN IF S = {} THEN Len(t) + 1 ELSE MinOf(S)
NextOut(t, p, C) == LET S == {i \in p .. Len(t) : t[i] \notin C} IN IF S = {} THEN Len(t) + 1 ELSE MinOf(S)
NLs(t, a, b) == Cardinality({i \in a .. b : t[i] = NL})
End == Len(text) + 1

(* ---- tokens *)
(* the token at or after p: [a, b) ; a = Len + 1 when there is none         *)
TokA(t, p) == NextOut(t, p, WS)
TokB(t, p) == NextIn(t, TokA(t, p), WS)
Tok(t, p)  == Sub(t, TokA(t, p), TokB(t, p) - 1)
RECURSIVE Toks(_, _)
Toks(t, p) == IF TokA(t, p) > Len(t) THEN <<>> ELSE <<Tok(t, p)>> \o Toks(t, TokB(t, p))

(* all tokens partition the non-blank characters *)
TokThm(t) == LET ts == Toks(t, 1) IN
             /\ \A i \in 1 .. Len(ts) : ts[i] # <<>> /\ \A j \in 1 .. Len(ts[i]) : ts[i][j] \notin WS
             /\ LET F[i \in 0 .. Len(ts)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ts[i]
                IN F[Len(ts)] = SelectSeq(t, LAMBDA c : c \notin WS)

(* a word with quotation marks: "..." is one token without its marks        *)
Q == 34
RECURSIVE QToks(_, _)
QToks(t, p) ==
  LET a == NextOut(t, p, WS) IN
  IF a > Len(t) THEN <<>>
  ELSE IF t[a] = Q THEN LET b == NextIn(t, a + 1, {Q}) IN <<Sub(t, a + 1, b - 1)>> \o QToks(t, b + 1)
  ELSE LET b == NextIn(t, a, WS) IN <<Sub(t, a, b - 1)>> \o QToks(t, b)

(* ---- numbers *)
Unsigned(s) == s # <<>> /\ \A i \in 1 .. Len(s) : s[i] \in Digits
Body(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
IsInt(s) == Unsigned(Body(s))
IntVal(s) == LET b == Body(s)
                 V[i \in 0 .. Len(b)] == IF i = 0 THEN 0 ELSE 10 * V[i - 1] + b[i] - 48
             IN IF s[1] = 45 THEN 0 - V[Len(b)] ELSE V[Len(b)]
(* digits with at most one point among them, at least one digit *)
IsFix(s) == LET b == Body(s)  P == {i \in 1 .. Len(b) : b[i] = 46} IN
            /\ Cardinality(P) <= 1 /\ \E i \in 1 .. Len(b) : b[i] \in Digits
            /\ \A i \in 1 .. Len(b) : b[i] \in Digits \cup {46}
IsDec(s) == \/ IsFix(s)
            \/ \E k \in 2 .. Len(s) - 1 : s[k] \in {69, 101} /\ IsFix(Sub(s, 1, k - 1)) /\ IsInt(Sub(s, k + 1, Len(s)))
Fits(ty, s) == CASE ty = "s" -> TRUE [] ty = "i" -> IsInt(s) [] ty = "d" -> IsDec(s)

(* ---- operations *)
Same == UNCHANGED text
Obs(k, v) == obs' = [k |-> k, v |-> v]
AtEnd == pos' = End /\ good' = FALSE

(* skip blanks counting lines, then the token; the blank after it is left   *)
ReadToken ==
  /\ Same
  /\ IF ~good THEN UNCHANGED <<pos, good, line>> /\ Obs("tok", <<>>)
     ELSE LET a == TokA(text, pos)  b == TokB(text, pos) IN
          /\ line' = line + NLs(text, pos, a - 1)
          /\ Obs("tok", Tok(text, pos))
          /\ pos' = b /\ good' = (b <= Len(text))

ReadNext(ty) ==
  /\ Same
  /\ IF ~good THEN UNCHANGED <<pos, good, line>> /\ Obs("eof", <<>>)
     ELSE LET a == TokA(text, pos)  b == TokB(text, pos)  w == Tok(text, pos) IN
          /\ line' = line + NLs(text, pos, a - 1)
          /\ pos' = b /\ good' = (b <= Len(text))
          /\ IF w = <<>> THEN Obs("eof", <<>>) ELSE IF Fits(ty, w) THEN Obs("val", <<w>>) ELSE Obs("bad", <<>>)

(* n values; the first that is missing or does not fit ends it              *)
RECURSIVE Ends(_, _)
Ends(p, n) == IF n = 0 THEN p ELSE Ends(TokB(text, p), n - 1)
ReadArray(ty, n) ==
  LET ts == IF good THEN Toks(text, pos) ELSE <<>>
      Bad == {i \in 1 .. n : i > Len(ts) \/ ~Fits(ty, ts[i])}
      m == IF Bad = {} THEN n ELSE MinOf(Bad)             \* number of tokens consumed, the last possibly unfit
      b == IF m <= Len(ts) THEN Ends(pos, m) ELSE End
      a == IF m <= Len(ts) THEN TokA(text, Ends(pos, m - 1)) ELSE End
  IN /\ Same
     /\ IF ~good THEN UNCHANGED <<pos, good, line>> /\ Obs("eof", <<>>)
        ELSE /\ line' = line + NLs(text, pos, a - 1) /\ pos' = b /\ good' = (b <= Len(text))
             /\ IF Bad = {} THEN Obs("arr", Sub(ts, 1, n)) ELSE IF m > Len(ts) THEN Obs("eof", <<>>) ELSE Obs("bad", <<>>)

(* the unchecked variants promise something only for proper numbers         *)
FastOK(ty, n) == good /\ LET ts == Toks(text, pos) IN \A i \in 1 .. Len(ts) : i <= n => Fits(ty, ts[i])
ReadFast(ty, n) ==
  LET ts == Toks(text, pos) IN
  /\ FastOK(ty, n) /\ Same /\ UNCHANGED line
  /\ IF Len(ts) >= n THEN LET b == Ends(pos, n) IN pos' = b /\ good' = (b <= Len(text)) /\ Obs("arr", Sub(ts, 1, n))
     ELSE AtEnd /\ Obs("eof", <<>>)
ReadRest(ty, n) ==
  LET ts == Toks(text, pos) IN
  /\ FastOK(ty, n) /\ Same /\ UNCHANGED <<line, good>> /\ pos' = End
  /\ IF Len(ts) >= n THEN Obs("arr", Sub(ts, 1, n)) ELSE Obs("few", <<>>)

(* ---- lines *)
Discard(strict) ==
  LET e == NextIn(text, pos, {NL}) IN
  /\ good /\ Same /\ line' = line + 1
  /\ pos' = IF e <= Len(text) THEN e + 1 ELSE End
  /\ good' = (e <= Len(text))
  /\ IF strict /\ \E i \in pos .. e - 1 : text[i] \notin WS THEN Obs("bad", <<>>) ELSE Obs("none", <<>>)

NextLine ==
  /\ Same
  /\ IF ~good THEN UNCHANGED <<pos, good, line>> /\ Obs("noline", <<>>)
     ELSE LET a == TokA(text, pos) IN
          IF a > Len(text)
          THEN (* only blanks left: every line of them is counted *)
               /\ AtEnd /\ Obs("noline", <<>>)
               /\ line' = line + NLs(text, pos, Len(text)) + (IF pos <= Len(text) /\ text[Len(text)] # NL THEN 1 ELSE 0)
          ELSE LET s == LET S == {i \in pos .. a - 1 : text[i] = NL} IN IF S = {} THEN pos ELSE MaxOf(S) + 1
                   e == NextIn(text, a, {NL})
               IN /\ line' = line + NLs(text, pos, a) + 1
                  /\ pos' = (IF e <= Len(text) THEN e + 1 ELSE End)
                  /\ good' = (e <= Len(text))
                  /\ Obs("line", Sub(text, s, e - 1))

(* the last line that is not blank, looking at most m characters back       *)
LastLine(m) ==
  LET from == IF Len(text) > m THEN Len(text) - m + 1 ELSE 1
      S == {i \in from .. Len(text) : text[i] \notin WS}
  IN /\ good /\ Same /\ UNCHANGED line /\ AtEnd
     /\ IF S = {} THEN Obs("line", <<>>)
        ELSE LET z == MaxOf(S)
                 B == {i \in from .. z : text[i] = NL}
                 s == IF B = {} THEN from ELSE MaxOf(B) + 1
             IN Obs("line", Sub(text, s, NextIn(text, z, {NL}) - 1))

(* blanks and lines whose first character is c *)
RECURSIVE SkipTo(_, _)
SkipTo(p, c) ==
  LET a == NextOut(text, p, WS) IN
  IF a > Len(text) \/ text[a] # c THEN a
  ELSE LET e == NextIn(text, a, {NL}) IN IF e > Len(text) THEN End + 1 ELSE SkipTo(e + 1, c)
Skip(c) ==
  /\ Same
  /\ IF ~good THEN UNCHANGED <<pos, good, line>> /\ Obs("none", <<>>)
     ELSE LET q == SkipTo(pos, c) IN
          /\ pos' = (IF q > Len(text) THEN End ELSE q)
          /\ good' = (q <= Len(text))
          (* a comment that ends the text counts as a line *)
          /\ line' = line + NLs(text, pos, (IF q > Len(text) THEN End ELSE q) - 1) + (IF q = End + 1 THEN 1 ELSE 0)
          /\ Obs("none", <<>>)

CheckEnd ==
  /\ Same /\ UNCHANGED line
  /\ IF ~good THEN UNCHANGED <<pos, good>> /\ Obs("end", <<1>>)
     ELSE LET a == NextOut(text, pos, WS) IN
          pos' = a /\ good' = (a <= Len(text)) /\ Obs("end", <<IF a > Len(text) THEN 1 ELSE 0>>)

(* the text between the next two quotes *)
Quoted(q) ==
  LET a == NextIn(text, pos, {q})  b == NextIn(text, a + 1, {q}) IN
  /\ good /\ Same
  /\ \/ /\ a > Len(text) /\ AtEnd /\ line' = line + NLs(text, pos, Len(text)) /\ Obs("eof", <<>>)
     \/ /\ b <= Len(text)
        /\ pos' = b + 1 /\ UNCHANGED good                 \* reading the closing quote does not touch the end
        /\ line' = line + NLs(text, pos, b)
        /\ Obs("tok", Sub(text, a + 1, b - 1))

(* never goes back, never beyond the end, never loses count when only       *)
(* counting operations are used                                             *)
Forward == [][pos' >= pos /\ line' >= line /\ (good' => good) /\ UNCHANGED text]_tvars
Inside  == pos \in 1 .. End /\ (~good => pos = End)
=============================================================================
