-------------------------------- MODULE RapBulk -------------------------------
(* Recordings that are large in one respect: every count, length, index and  *)
(* depth a recording has, around and past the sizes at which their stored    *)
(* form or the buffers they pass through change.                             *)
EXTENDS RapRandom
LOCAL INSTANCE SequencesExt

\* sizes: of one and two byte counts and indices; of buffers; of three bytes
Size(z_) == CASE Chance(3, 5) -> Pick({126, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 513})
              [] Chance(3, 5) -> Pick({1023, 1025, 2047, 2049, 4095, 4096, 4097, 5000})
              [] OTHER -> Pick({8192, 8193, 16383, 16384, 16385, 20000})
Less(n, most) == IF n > most THEN (n % most) + 1 ELSE n
NameAt(i) == HexOf[i \div 65536] \o HexOf[(i \div 256) % 256] \o HexOf[i % 256]
RECURSIVE Long(_, _)
Long(h, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN h
              ELSE LET s == Long(h, n \div 2) IN IF n % 2 = 1 THEN s \o s \o h ELSE s \o s
\* text of n bytes, no two stretches of 255 alike
Text_(n) == IF n < 4 THEN Long("61", n)
            ELSE Long(NameAt(Pick(0..65535)), 1) \o Long(HexOf[Pick(1..255)], (n - 3) \div 2) \o Long(HexOf[Pick(1..255)], n - 3 - ((n - 3) \div 2))
Leaf(i) == CASE i % 4 = 0 -> Prop(CStr, NameAt(i), <<>>) [] i % 4 = 1 -> Prop(CTrue, "", <<>>)
             [] i % 4 = 2 -> Prop(CByte, HexOf[i % 256], <<>>) [] OTHER -> Prop(CInt, ToHex(LE32(<<0, i % 65536>>)), <<>>)
At64(i) == F64OfScaled(i * 4096)
None == [id |-> "", nm |-> "", md |-> <<>>, cols |-> <<>>, refs |-> <<>>, bins |-> <<>>, kids |-> <<>>]
Event(i, n, md) == [t |-> At64(i), v |-> <<>>, n |-> n, md |-> md]
Keyed(n) == [i \in 1..n |-> <<NameAt(i), Leaf(i)>>]

RECURSIVE Deep(_, _)
Deep(n, r) == IF n = 0 THEN r ELSE [None EXCEPT !.id = NameAt(n), !.kids = <<Deep(n - 1, r)>>, !.md = IF n % 3 = 0 THEN << <<NameAt(n), Leaf(n)>> >> ELSE <<>>]
RECURSIVE DeepBlock(_)
DeepBlock(n) == IF n = 0 THEN << <<"61", Leaf(3)>> >>
                ELSE << <<"6b", IF n % 5 = 0 THEN Prop(13 + CBlock, "", << <<"", Prop(CBlock, "", DeepBlock(n - 1))>> >>)
                                ELSE Prop(CBlock, "", DeepBlock(n - 1))>> >>
Dims == {"evnames", "evkeys", "evkey", "members", "values", "caps", "caps", "cols", "kids", "mdkeys", "kidkeys", "refs", "bins", "text", "text", "bindata",
         "mdarray", "depth", "blockdepth", "evcols", "kidcols"}
SmallRec(z_) == LET p == [Profile EXCEPT !.depth = Pick(0..1), !.maxcols = 2, !.maxcaps = 2, !.times = "grid", !.vals = "few", !.meta = Pick({-1, 0, 1})] IN RandRec(p, p.depth)
\* r, with n of something
Bulky(r, dim, n) ==
  CASE dim = "evnames" ->   \* names spread over two collections, some twice
         LET f == Draws(1, LAMBDA z : Pick(1..5))[1]
             k == Draws(1, LAMBDA z : Pick(0..n))[1]
             cap(i) == Event(i, NameAt(i), IF i % 7 = 0 THEN << <<NameAt(i % f), Leaf(i)>> >> ELSE <<>>)
         IN  [r EXCEPT !.cols = @ \o << Col("event", "61", <<>>, [i \in 1..k |-> cap(i)]),
                                        Col("event", "62", <<>>, [i \in 1..(n - k) |-> cap(k + i)]) >>]
    [] dim = "evkeys" ->    \* few keys in each of many events
         [r EXCEPT !.cols = << Col("event", "61", <<>>, [i \in 1..((n + 2) \div 3) |->
                                  Event(i, NameAt(i % 3), [j \in 1..3 |-> <<NameAt(3 * i + j), Leaf(i + j)>>])]) >> \o @]
    [] dim = "evkey" -> [r EXCEPT !.cols = << Col("event", "61", <<>>, << Event(1, "61", Keyed(n)), Event(2, "62", Keyed(n \div 2)) >>) >> \o @]
    [] dim = "evcols" -> [r EXCEPT !.cols = @ \o [i \in 1..Less(n, 600) |-> Col("event", NameAt(i % 9), <<>>, << Event(i, NameAt(i), << <<NameAt(i \div 2), Leaf(i)>> >>) >>)]]
    [] dim = "members" ->
         [r EXCEPT !.cols = << Col("enum", "61", [i \in 1..n |-> NameAt(i)], << Cap(At64(1), <<WOfInt(n)>>), Cap(At64(2), <<WOfInt(n \div 2)>>) >>),
                               Col("enum", "62", [i \in 1..(n \div 2) |-> NameAt(i % 300)], <<>>) >> \o @]
    [] dim = "values" ->
         [r EXCEPT !.cols = @ \o << Col("enum", "61", <<"61", "62">>, [i \in 1..n |-> Cap(At64(i), <<IF i % 5 = 0 THEN WOfSigned(0 - i) ELSE WOfInt(i * 37)>>)]) >>]
    [] dim = "caps" ->
         LET c == [RandCol([Profile EXCEPT !.maxcaps = 1, !.meta = -1]) EXCEPT !.caps = <<>>]
             v(i, a) == F64OfInt(((i * (a + 1)) % 977) - 300)
             cap(i) == CASE c.k \in {"position", "euler"} -> Cap(At64(i), <<v(i, 1), v(i, 2), v(i, 5)>>)
                         [] c.k = "float" -> Cap(At64(i), <<v(i, 3)>>)
                         [] c.k = "enum" -> Cap(At64(i), <<WOfInt(i % 3)>>)
                         [] OTHER -> Event(i, HexOf[i % 7], IF i % 100 = 3 THEN << <<"61", Leaf(i)>> >> ELSE <<>>)
         IN  [r EXCEPT !.cols = @ \o << [c EXCEPT !.caps = [i \in 1..n |-> cap(i)]] >>]
    [] dim = "cols" -> LET few == Less(n, 700) IN
         [r EXCEPT !.cols = [i \in 1..few |->
            IF i % 3 = 0 THEN Col("enum", NameAt(i), <<NameAt(i % 5)>>, << Cap(At64(i), <<WOfInt(i)>>) >>)
            ELSE IF i % 3 = 1 THEN Col("position", NameAt(i), <<>>, << Cap(At64(i), <<At64(i), At64(1), At64(2)>>) >>)
            ELSE Col("event", NameAt(i), <<>>, IF i % 2 = 0 THEN <<>> ELSE << Event(i, NameAt(i), <<>>) >>)]]
    [] dim = "kids" -> [r EXCEPT !.kids = @ \o [i \in 1..Less(n, 900) |-> [None EXCEPT !.id = NameAt(i), !.nm = HexOf[i % 256]]]]
    [] dim = "kidcols" -> LET few == Less(n, 400) IN    \* captures of every kind among the children, and below them
         [r EXCEPT !.kids = [i \in 1..few |->
            LET c == CASE i % 5 = 0 -> Col("enum", NameAt(i), <<NameAt(i % 5)>>, << Cap(At64(i), <<WOfInt(i)>>) >>)
                       [] i % 5 = 1 -> Col("position", NameAt(i), <<>>, << Cap(At64(i), <<At64(i), At64(1), At64(2)>>), Cap(At64(i + 1), <<At64(i), At64(1), At64(2)>>) >>)
                       [] i % 5 = 2 -> Col("euler", NameAt(i), <<>>, << Cap(At64(i), <<At64(i % 300), At64(1), At64(2)>>) >>)
                       [] i % 5 = 3 -> Col("event", NameAt(i), <<>>, << Event(i, NameAt(i), <<>>), Event(i + 1, "61", <<>>), Event(i + 2, "61", <<>>) >>)
                       [] OTHER -> Col("enum", "61", <<>>, << Cap(At64(i), <<WOfInt(i)>>) >>)
                leaf == [None EXCEPT !.id = NameAt(i), !.cols = <<c>>]
            IN  IF i % 7 = 6 THEN [None EXCEPT !.kids = <<leaf>>] ELSE leaf]]
    [] dim = "mdkeys" -> [r EXCEPT !.md = Keyed(n)]
    [] dim = "kidkeys" -> LET few == Less(n, 900) IN     \* one key in each of many
         [r EXCEPT !.kids = [i \in 1..few |-> [None EXCEPT !.md = << <<NameAt(few - i), Leaf(i)>> >>]], !.md = << <<NameAt(few + 1), Leaf(2)>> >>]
    [] dim = "refs" -> [r EXCEPT !.refs = [i \in 1..Less(n, 900) |-> [nm |-> NameAt(i), uri |-> NameAt(n - i), sz |-> WOfInt(i * 100), md |-> IF i % 9 = 0 THEN << <<NameAt(i), Leaf(i)>> >> ELSE <<>>]]]
    [] dim = "bins" -> [r EXCEPT !.bins = [i \in 1..Less(n, 900) |-> [nm |-> NameAt(i), data |-> Long(HexOf[i % 256], i % 5), sz |-> WOfInt(i % 5), md |-> <<>>]]]
    [] dim = "text" ->
         LET m == IF n > 4000 THEN n * Draws(1, LAMBDA z : Pick({1, 4}))[1] ELSE n
             t == Text_(m)
             where == Draws(1, LAMBDA z : Pick(1..9))[1]
         IN  CASE where = 1 -> [r EXCEPT !.id = t] [] where = 2 -> [r EXCEPT !.nm = t]
               [] where = 3 -> [r EXCEPT !.md = << <<t, Leaf(0)>>, <<"61", Prop(CStr, t, <<>>)>> >>]
               [] where = 4 -> [r EXCEPT !.cols = @ \o << Col("event", t, <<>>, << Event(1, t, << <<t, Prop(CStr, t, <<>>)>> >>) >>) >>]
               [] where = 5 -> [r EXCEPT !.cols = @ \o << Col("enum", "61", <<t, "62", t>>, <<>>) >>]
               [] where = 6 -> [r EXCEPT !.refs = << [nm |-> t, uri |-> t, sz |-> WOfInt(m), md |-> <<>>] >>]
               [] where = 7 -> [r EXCEPT !.bins = << [nm |-> t, data |-> "", sz |-> WZero, md |-> << <<"62", Prop(CBytes, t, <<>>)>> >>] >>]
               [] where = 8 -> [r EXCEPT !.md = << <<"61", Prop(CBools, Long("010000", m \div 3), <<>>)>> >>]
               [] OTHER -> [r EXCEPT !.kids = @ \o << [None EXCEPT !.id = t, !.nm = t] >>]
    [] dim = "bindata" -> LET m == n * Draws(1, LAMBDA z : Pick({1, 1, 4, 13}))[1] IN
         [r EXCEPT !.bins = @ \o << [nm |-> "61", data |-> Text_(m), sz |-> WOfInt(m), md |-> <<>>] >>]
    [] dim = "mdarray" ->
         LET c == Draws(1, LAMBDA z : Pick({CStr, CInt, CF32, CVec2, CVec3, CBlock, CTime}))[1]
             item(i) == CASE c = CStr -> Prop(c, NameAt(i), <<>>)
                          [] c \in {CInt, CF32} -> Prop(c, ToHex(LE32(<<0, i % 65536>>)), <<>>)
                          [] c = CVec2 -> Prop(c, ToHex(LE64(At64(i)) \o LE64(At64(2))), <<>>)
                          [] c = CVec3 -> Prop(c, ToHex(LE64(At64(i)) \o LE64(At64(2)) \o LE64(At64(3))), <<>>)
                          [] c = CBlock -> Prop(c, "", IF i % 2 = 0 THEN <<>> ELSE << <<NameAt(i), Leaf(i)>> >>)
                          [] OTHER -> Prop(c, ToHex(LE64(<<0, 0, 7, i % 65536>>)), <<>>)
         IN  [r EXCEPT !.md = << <<"61", Prop(13 + c, "", [i \in 1..n |-> <<"", item(i)>>])>> >>]
    [] dim = "blockdepth" -> [r EXCEPT !.md = << <<"61", Prop(CBlock, "", DeepBlock(Less(n, 50)))>> >>]
    [] OTHER -> Deep(Less(n, 110), r)
\* many captures whose steps never fall on the cells they are stored in
Drifting(n) ==
  LET g == Draws(1, LAMBDA z : Pick({1, 3, 7, 50, 97}))[1]           \* the usual step, and now and then a long one
      b == Draws(1, LAMBDA z : Pick({0, 1, 10, 977, 3001}))[1]
      p == Draws(1, LAMBDA z : Pick({2, 10, 63, 500}))[1]
      m == Draws(1, LAMBDA z : Pick({1, 2, 31, 977}))[1]
      unit == Draws(1, LAMBDA z : Pick({1, 5, 64}))[1]
      t0 == Draws(1, LAMBDA z : Pick({0, 1, 5000}))[1]
      k == Draws(1, LAMBDA z : Pick({"position", "position", "position", "euler", "float", "enum"}))[1]
      t(i) == F64OfScaled(unit * (t0 + i * g + (i \div p) * b + ((i * i) % g)))
      v(i, a) == F64OfScaled(unit * (((i * i * a + 17 * i) % m) + (IF a % 2 = 0 THEN i * g ELSE 0 - (i \div p) * b)))
      vals(i) == CASE k \in {"position", "euler"} -> <<v(i, 1), v(i, 2), v(i, 3)>> [] k = "float" -> <<v(i, 2)>> [] OTHER -> <<WOfInt(i % 3)>>
  IN  [None EXCEPT !.cols = << Col(k, "64", IF k = "enum" THEN <<"61", "62", "63">> ELSE <<>>, [i \in 1..n |-> Cap(t(i), vals(i))]) >>]
DictDims == {"evnames", "evkeys", "evkey", "members", "values", "evcols", "cols"}
MetaDims == {"mdkeys", "kidkeys", "mdarray", "text", "blockdepth", "evkey", "refs", "bins"}
BulkOf(dims, most) == Bulky(SmallRec(0), Pick(dims), LET n == Draws(1, LAMBDA z : Size(0))[1] IN IF n > most THEN Pick(127..most) ELSE n)
BulkRec(most) == BulkOf(Dims, most)
===============================================================================
