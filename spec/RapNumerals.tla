------------------------------ MODULE RapNumerals -----------------------------
(* Numbers written out, drawn at random: long, near the limits of float32    *)
(* and float64, halfway between neighbours, and in every notation.           *)
EXTENDS RapRandom, RapDecimal, RapText
LOCAL INSTANCE SequencesExt

\* JSON forms (without sign)
Curated ==
  { X("0"), X("1"), X("0.1"), X("1e39"), X("1e38"), X("1E-45"), X("7e-46"), X("7.1e-46"), X("1e-46"), X("3.4028235e38"), X("3.4028236e38"),
    X("340282356779733661637539395458142568447"), X("340282356779733661637539395458142568448"), X("3.402823567797336e38"),
    X("1.17549435e-38"), X("1.1754943e-38"), X("16777217"), X("16777217.0000000000000001"), X("16777219"), X("8388608.5"), X("8388609.5"),
    X("0.1000000014901161193847656"), X("1.00000005960464477539062"), X("1.000000059604644775390625"), X("1.0000000596046447753906250001"),
    X("9007199254740993"), X("9007199254740993.0000000000000000000001"), X("9007199254740995"), X("9007199254740992.99999"),
    X("1.7976931348623157e308"), X("1.7976931348623158e308"), X("1.7976931348623159e308"), X("4.9e-324"), X("2.4703282292062327e-324"), X("2.4703282292062328e-324"),
    X("2.2250738585072014e-308"), X("2.2250738585072011e-308"), X("5e-324"), X("1e-400"), X("0e999"), X("0.0e-999"), X("1e23"), X("8.5e22"),
    X("0.500000000000000166533453693773481063544750213623046875"), X("1.00000000000000011102230246251565404236316680908203125"),
    X("1.00000000000000011102230246251565404236316680908203124"), X("123456789012345678901234567890"), X("0.00000000000000000000000000000001"),
    X("1e5"), X("1E+05"), X("1e-05"), X("12.50"), X("100e-2"), X("4294967296"), X("2147483648"), X("18446744073709551616") }
RandDigits(n) == Draws(n, LAMBDA i : 48 + Pick(0..9))
RandExp(z_) == IF Chance(1, 3) THEN Pick(0..20) ELSE IF Chance(1, 2) THEN Pick(30..50) ELSE Pick(290..345)
PlainNumeral(z_) ==
  IF Chance(1, 2) THEN FromHex(Pick(Curated))
  ELSE LET i == IF Chance(1, 4) THEN <<48>> ELSE <<49 + Pick(0..8)>> \o RandDigits(Pick({0, 0, 1, 2, 5, 15, 24}))
           f == IF Chance(1, 2) THEN <<>> ELSE <<46>> \o RandDigits(Pick({1, 2, 7, 16, 20}))
           x == IF Chance(1, 2) THEN <<>> ELSE <<Pick({101, 69})>> \o Pick({<<>>, <<43>>, <<45>>}) \o Digits10(RandExp(0))
       IN  i \o f \o x
\* as a JSON document may have it
JsonNumeral(z_) == (IF Chance(1, 3) THEN <<45>> ELSE <<>>) \o PlainNumeral(0)
\* and as other readers take it, or not
Odd == { X("inf"), X("Inf"), X("-inf"), X("+INFINITY"), X("infinity"), X("nan"), X("NaN"), X("-nan"), X("+nan"), X("infinit"), X("in"), X("na"), X("nano"),
         X("1e"), X("e1"), X("1e+"), X("1e1e1"), X("1.e1"), X(".5e1"), X("."), X("-."), X("+.5"), X("1 e5"), X("1d5"), X("1f"), X("1L"), X("$1"), X("1%"),
         X("1,000"), X("1'000"), X("0b1"), X("++1"), X("1-"), X("1e5.5"), X("00"), X("007"), X("0e0"), X("00.50"), X("1.0"), "d9a1", "efbc91" }
Numeral_(z_) ==
  IF Chance(1, 4) THEN FromHex(Pick(Odd))
  ELSE LET p == PlainNumeral(0) IN
       Pick({<<>>, <<>>, <<43>>, <<45>>}) \o
       (IF Chance(1, 8) THEN <<48, 48>> \o p ELSE IF Len(p) > 1 /\ p[1] = 48 /\ p[2] = 46 /\ Chance(1, 3) THEN Tail(p) ELSE p)
===============================================================================
