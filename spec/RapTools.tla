------------------------------- MODULE RapTools -------------------------------
(* The command line tools: recordings out of CSV, and the summary of a file. *)
EXTENDS RapJson, RapDecimal
LOCAL INSTANCE SequencesExt

(* ------------------------------------------------------------------------- CSV *)
\* A cell is [k, s, w]: text (k = "t", its bytes in s), a number (k = "n", w),
\* text that is no number (k = "b"), or text that may be one, with blanks around
\* it (k = "x").  A table is a header (names) and rows.
Blank(x) == x \in {9, 32}
Trimmed(d) == LET nb == {i \in DOMAIN d : ~Blank(d[i])} IN
              IF nb = {} THEN <<>> ELSE SubSeq(d, CHOOSE i \in nb : \A j \in nb : i <= j, CHOOSE i \in nb : \A j \in nb : j <= i)
\* what a cell is as a number: [ok, w]
CellNum(c) ==
  IF c.k = "n" THEN [ok |-> TRUE, w |-> c.w]
  ELSE IF c.k # "x" THEN [ok |-> FALSE, w |-> Zero64]
  ELSE LET n == Numeral(Trimmed(FromHex(c.s)))
           v == Dec64(n.neg, n.ds, n.x)
       IN  CASE n.k = "num" -> [ok |-> ~v.over, w |-> v.w]
             [] n.k = "inf" -> [ok |-> TRUE, w |-> IF n.neg THEN NegInf64 ELSE PosInf64]
             [] n.k = "nan" -> [ok |-> TRUE, w |-> NaN64]
             [] OTHER -> [ok |-> FALSE, w |-> Zero64]
CsvColumns == <<X("time"), X("id"), X("name"), X("x"), X("y"), X("z")>>
ColumnAt(head, name) == IndexOf(head, name)
CsvOK(head, rows) ==
  /\ RangeOf(CsvColumns) \subseteq RangeOf(head)
  /\ \A i \in DOMAIN rows :
       /\ Len(rows[i]) = Len(head)
       /\ \A c \in {X("time"), X("x"), X("y"), X("z")} : CellNum(rows[i][ColumnAt(head, c)]).ok
CsvRecording(head, rows) ==
  LET at(i, c) == rows[i][ColumnAt(head, X(c))]
      pair(i) == <<at(i, "id").s, at(i, "name").s>>
      pairs == Distinct([i \in DOMAIN rows |-> pair(i)])
      num(i, c) == CellNum(at(i, c)).w
      cap(i) == [t |-> num(i, "time"), v |-> <<num(i, "x"), num(i, "y"), num(i, "z")>>, n |-> "", md |-> <<>>]
      mine(p) == FoldLeft(LAMBDA a, i : IF pair(i) = p THEN Append(a, cap(i)) ELSE a, <<>>, [i \in DOMAIN rows |-> i])
      none == [id |-> "", nm |-> "", md |-> <<>>, cols |-> <<>>, refs |-> <<>>, bins |-> <<>>, kids |-> <<>>]
  IN  [none EXCEPT !.kids =
         [i \in DOMAIN pairs |->
            [none EXCEPT !.id = pairs[i][1], !.nm = pairs[i][2],
                         !.cols = <<[k |-> "position", nm |-> X("Position"), mem |-> <<>>, caps |-> mine(pairs[i])]>>]]]
\* the order of the children carries no meaning
SameCsv(want, got) ==
  /\ SameRec([want EXCEPT !.kids = <<>>], [got EXCEPT !.kids = <<>>])
  /\ Len(want.kids) = Len(got.kids)
  /\ \A i \in DOMAIN want.kids : \E j \in DOMAIN got.kids :
       got.kids[j].id = want.kids[i].id /\ got.kids[j].nm = want.kids[i].nm /\ SameRec(want.kids[i], got.kids[j])

(* --------------------------------------------------------------------- summaries *)
\* n / d with two decimals, to nearest, ties to even; n * 100 must fit
Ratio(n, d) ==
  LET q == (n * 100) \div d
      r == (n * 100) % d
      v == IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
  IN  ToString(v \div 100) \o "." \o Two(v % 100)
\* n = 1024 k + r, kept small: k.(r/1024)
SizeText(n) ==
  IF n < 1024 THEN ToString(n) \o "b"
  ELSE IF n < 1048576 THEN Ratio(n, 1024) \o "kb"
  ELSE Ratio(n \div 16, 65536) \o "mb"       \* n is a multiple of 16
\* seconds of a duration on the grid of 2^-17 that is a multiple of a quarter
SecondsText(s) ==
  ToString(s \div 131072) \o "." \o
    (CASE (s % 131072) \div 32768 = 0 -> "00" [] (s % 131072) \div 32768 = 1 -> "25"
       [] (s % 131072) \div 32768 = 2 -> "50" [] OTHER -> "75") \o "s"
\* the duration of a recording in chronological order, OffGrid when not settled here
Seconds(r) ==
  LET a == ScaledOf64(StartOf(r))
      b == ScaledOf64(EndOf(r))
  IN  IF AllTimes(r) = <<>> \/ ~IsChronological(r) \/ a = OffGrid \/ b = OffGrid
         \/ AbsOf(a) >= 536870912 \/ AbsOf(b) >= 536870912 \/ (b - a) % 32768 # 0 THEN OffGrid
      ELSE b - a
Counted4 == {"position", "euler", "event", "enum"}
\* the lines of a summary; the line of the duration is "" when the duration is not settled here
SummaryLines(r, size) ==
  LET line(label, v) == X(label) \o v
      other == FoldLeft(LAMBDA a, c : IF c.k \in Counted4 THEN a ELSE a + Len(c.caps), 0, AllCols(r))
  IN  << line("Name:                    ", IF r.nm = "" THEN X("[No Name]") ELSE r.nm),
         IF size < 1048576 \/ size % 16 = 0 THEN line("File Size:               ", X(SizeText(size))) ELSE "",
         IF Seconds(r) # OffGrid THEN line("Duration:                ", X(SecondsText(Seconds(r)))) ELSE "",
         line("Sub Recordings:          ", X(ToString(Len(r.kids)))),
         line("Total Position Captures: ", X(ToString(CountKind(r, "position")))),
         line("Total Euler Captures:    ", X(ToString(CountKind(r, "euler")))),
         line("Total Event Captures:    ", X(ToString(CountKind(r, "event")))),
         line("Total Enum Captures:     ", X(ToString(CountKind(r, "enum")))),
         line("Total Other Captures:    ", X(ToString(other))) >>
Newline == "0a"
\* the text is these lines, whatever an unsettled line says after its label
RECURSIVE Joined(_)
Joined(s) == FoldLeft(LAMBDA a, x : a \o x \o Newline, "", s)
SummaryOK(r, size, text) ==
  LET want == SummaryLines(r, size)
      \* lines of the text: the name may hold line ends of its own, so match from both ends
      first == want[1] \o Newline
      rest == SubSeq(text, Len(first) + 1, Len(text))
      cut == FoldLeft(LAMBDA a, i : IF SubSeq(rest, 2 * i - 1, 2 * i) = Newline THEN Append(a, i) ELSE a, <<>>,
                      [i \in 1..(Len(rest) \div 2) |-> i])
      got == [n \in DOMAIN cut |-> SubSeq(rest, 2 * (IF n = 1 THEN 0 ELSE cut[n - 1]) + 1, 2 * (cut[n] - 1))]
  IN  /\ Len(text) > Len(first) /\ SubSeq(text, 1, Len(first)) = first
      /\ Len(got) = 8 /\ 2 * cut[8] = Len(rest)
      /\ \A n \in 1..8 : \/ want[n + 1] = "" \/ got[n] = want[n + 1]
                          \* (no time at all has a sign when the first time is zero with one)
                          \/ (n = 2 /\ Seconds(r) = 0 /\ got[n] = X("Duration:                ") \o X("-0.00s"))
=============================================================================
