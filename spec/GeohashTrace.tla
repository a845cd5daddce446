---------------------------- MODULE GeohashTrace ----------------------------
(* Every recorded answer of the geohash functions is the one of Geohash.tla.*)
EXTENDS Geohash, TLC, Json, IOUtils
T == INSTANCE Trig
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur
vars == <<l, cur>>
Top == 131072                              \* the fraction 1
\* the digits of a longitude (which goes round) and of a latitude (the pole
\* belongs to the last row)
LonDigits(q) == Bits(<<q[1] % Top, q[2]>>)
LatDigits(q) == IF q[1] = Top THEN Ones(Wide) ELSE Bits(q)
CodeAt(q, p) == Weave(LonDigits(<<q[1], q[2]>>), LatDigits(<<q[3], q[4]>>), p)
\* a code is recorded as digits, or as characters
CodeOf(form, t) == IF form = "text" THEN Digits(t) ELSE t
Written(form, c) == IF form = "text" THEN Text(c) ELSE c
Same(form, out, want) == out = [i \in DOMAIN want |-> Written(form, want[i])]
\* a recorded position
OnLon(q, b) == IF b = <<>> THEN q = <<Top, 0>> ELSE q[1] # Top /\ Bits(q) = b
P1(q) == <<q[1], q[2]>>
P2(q) == <<q[3], q[4]>>
IsAt(q, x, y) == OnLon(P1(q), x) /\ OnLon(P2(q), y)
InCell(q, c) == /\ q[1] # Top /\ Starts(Bits(P1(q)), LonOf(c))
                /\ q[3] # Top /\ Starts(Bits(P2(q)), LatOf(c))
Near(x, y, t) == x - y <= t /\ y - x <= t
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

Encode(e) == Same(e.form, e.r, [i \in DOMAIN e.pts |-> CodeAt(e.pts[i], e.p)])
Decode(e) == /\ Len(e.r) = Len(e.codes)
             /\ \A i \in DOMAIN e.codes :
                  LET c == CodeOf(e.form, e.codes[i]) IN
                  IF e.round THEN InCell(e.r[i], c)
                  ELSE IsAt(e.r[i], Centre(LonOf(c)), Centre(LatOf(c)))
\* the box of a cell, its centre and its size
Box(e) == LET c == CodeOf("text", e.code) IN
          /\ IsAt(e.r.sw, Low(LonOf(c)), Low(LatOf(c)))
          /\ IsAt(e.r.ne, High(LonOf(c)), High(LatOf(c)))
          /\ IsAt(e.r.centre, Centre(LonOf(c)), Centre(LatOf(c)))
          /\ e.r.bits = Len(c) /\ e.r.chars = Len(e.code)
Neighbours(e) == Same(e.form, e.r, Around(CodeOf(e.form, e.code)))
\* the size of the cells, as powers of two: 360 2^-x by 180 2^-y
Error(e) == e.r[1] = (5 * e.p + 1) \div 2 /\ e.r[2] = (5 * e.p) \div 2
Refused(e) == e.r = (CASE e.kind = "bits" -> e.p \in 1..64
                        [] e.kind = "chars" -> e.p \in 1..12
                        [] e.kind = "text" -> IsText(e.text)
                        [] e.kind = "texts" -> \A i \in DOMAIN e.texts : IsText(e.texts[i])
                        [] OTHER -> FALSE)
\* areas of whole rows of cells, in square kilometres: those of a row are
\* equal, as are rows symmetrical about the equator; they fill the spheroid
World(e) == /\ \A r \in DOMAIN e.r : \A i \in DOMAIN e.r[r] :
                 Near(e.r[r][i], e.r[r][1], 2)
            /\ \A r \in DOMAIN e.r : Near(e.r[r][1], e.r[Len(e.r) + 1 - r][1], 2)
            /\ \A r \in 1..(Len(e.r) \div 2 - 1) : e.r[r][1] < e.r[r + 1][1]
            /\ Near(Total([r \in DOMAIN e.r |-> Total(e.r[r])]), e.total, e.total \div 20000)
\* small cells of a sphere: proportional to the cosine of the latitude
Area(e) == \A i \in DOMAIN e.r :
             LET y == Value(Cut(Centre(LatOf(CodeOf("text", e.codes[i]))), 15))
                 \* quarters of degree, in 1/16
                 s == (y * 45) \div 128 - 5760
                 lo == s \div 16
                 a == T!Cos(lo) b == T!Cos(lo + 1)
                 want == a + ((b - a) * (s % 16)) \div 16
             IN Near(e.r[i], want, 20)
\* an object --------------------------------------------------------------
New(e) == cur' = CodeAt(e.pt, 5 * e.p)
Walk(e) == cur' = Around(cur)[e.k]
Out(e) == cur' = Cut(cur, Len(cur) - 5)
In(e) == cur' = cur \o Digits(<<e.char>>)
Shown(e) == e.r = Text(cur')

\* covers -------------------------------------------------------------------
CellsOf(codes) == {Cell(Digits(codes[i])) : i \in DOMAIN codes}
AllDiffer(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
Precise(codes, p) == \A i \in DOMAIN codes : Len(codes[i]) = p
BoxOf(b) == <<<<b[1], b[2]>>, <<b[3], b[4]>>, <<b[5], b[6]>>, <<b[7], b[8]>>>>
Cover(e) == /\ Precise(e.r, e.p) /\ AllDiffer(e.r)
            /\ CellsOf(e.r) = CoverCells(BoxOf(e.box), 5 * e.p)
\* a polygon drawn as rectangles: columns and rows of cells, some of which
\* are holes.  A hole leaves out the cells it holds entirely.
\* Columns beyond the date line are those of the other side.
Rect(r, n) == {<<x % n, y>> : x \in r[1]..r[3], y \in r[2]..r[4]}
Polygon(e) == LET n == 2 ^ ((5 * e.p + 1) \div 2) IN
              /\ Precise(e.r, e.p) /\ AllDiffer(e.r)
              /\ CellsOf(e.r) = (UNION {Rect(e.parts[i], n) : i \in DOMAIN e.parts})
                                  \ (UNION {Rect(e.holes[i], n) : i \in DOMAIN e.holes})
Props(e) == LET b == BoxOf(e.box) n == (5 * e.p + 1) \div 2 m == (5 * e.p) \div 2
                X == Cols(b[1], b[3], n) Y == Cols(b[2], b[4], m)
            IN /\ e.r.nx = Cardinality(X) /\ e.r.ny = Cardinality(Y)
               /\ Cell(Digits(e.r.sw)) = <<CHOOSE x \in X : \A z \in X : x <= z,
                                         CHOOSE y \in Y : \A z \in Y : y <= z>>
\* a grid of codes, the first row being the northernmost
Grid(e) == LET b == BoxOf(e.box) n == (5 * e.p + 1) \div 2 m == (5 * e.p) \div 2
               X == Cols(b[1], b[3], n) Y == Cols(b[2], b[4], m)
               x0 == CHOOSE x \in X : \A z \in X : x <= z
               y1 == CHOOSE y \in Y : \A z \in Y : y >= z
           IN /\ Len(e.r.rows) = Cardinality(Y) /\ Len(e.r.lat) = Len(e.r.rows)
              /\ Len(e.r.lon) = Cardinality(X)
              /\ \A i \in DOMAIN e.r.rows : Len(e.r.rows[i]) = Len(e.r.lon)
              /\ \A i \in DOMAIN e.r.rows : \A j \in DOMAIN e.r.lon :
                   LET c == Digits(e.r.rows[i][j]) IN
                   /\ Len(e.r.rows[i][j]) = e.p
                   /\ Cell(c) = <<x0 + j - 1, y1 - i + 1>>
                   /\ OnLon(e.r.lon[j], Centre(LonOf(c)))
                   /\ OnLon(e.r.lat[i], Centre(LatOf(c)))
\* zooms ----------------------------------------------------------------------
Zoom(e) ==
  LET n == IF e.codes = <<>> THEN e.p ELSE Len(e.codes[1]) IN
  IF e.p >= n
  THEN /\ Precise(e.r, e.p)
       /\ Len(e.r) = Len(e.codes) * 32^(e.p - n)
       /\ \A i \in DOMAIN e.codes :
            Cardinality({e.r[j] : j \in {m \in DOMAIN e.r : Cut(e.r[m], n) = e.codes[i]}})
              = 32^(e.p - n)
       /\ \A i \in DOMAIN e.codes :
            Cardinality({m \in DOMAIN e.r : Cut(e.r[m], n) = e.codes[i]})
              = Count(e.codes, e.codes[i]) * 32^(e.p - n)
  ELSE /\ AllDiffer(e.r)
       /\ {e.r[i] : i \in DOMAIN e.r} = {Cut(e.codes[i], e.p) : i \in DOMAIN e.codes}
\* groupings ------------------------------------------------------------------
Low1(S) == CHOOSE x \in S : \A y \in S : x <= y
High1(S) == CHOOSE x \in S : \A y \in S : x >= y
Where(e) ==
  LET places == {<<i, j>> : i \in DOMAIN e.table, j \in DOMAIN e.table[1]}
      keys == {e.table[q[1]][q[2]] : q \in places}
      got == {e.r[k].key : k \in DOMAIN e.r}
  IN /\ got = keys /\ Len(e.r) = Cardinality(keys)
     /\ \A k \in DOMAIN e.r :
          LET at == {q \in places : e.table[q[1]][q[2]] = e.r[k].key}
              R == {q[1] : q \in at} C == {q[2] : q \in at}
          IN e.r[k].box = <<Low1(R) - 1, High1(R) - 1, Low1(C) - 1, High1(C) - 1>>
\* a grid of values: the cells that were given one -----------------------------
Raster(e) ==
  LET n == (5 * e.p + 1) \div 2 m == (5 * e.p) \div 2 IN
  /\ e.r.nx = 2^n /\ e.r.ny = 2^m
  /\ {<<e.r.set[k][1], e.r.set[k][2], e.r.set[k][3]>> : k \in DOMAIN e.r.set} =
       {<<Value(LatOf(Digits(e.codes[i]))), Value(LonOf(Digits(e.codes[i]))), e.data[i]>> :
          i \in DOMAIN e.codes}
  /\ \A k \in DOMAIN e.r.set :
       /\ \E i \in DOMAIN e.codes : /\ OnLon(e.r.set[k][4], Centre(LatOf(Digits(e.codes[i]))))
                                    /\ OnLon(e.r.set[k][5], Centre(LonOf(Digits(e.codes[i]))))
                                    /\ e.data[i] = e.r.set[k][3]

Checked(e) ==
  CASE e.op = "enc" -> Encode(e)
    [] e.op = "dec" -> Decode(e)
    [] e.op = "box" -> Box(e)
    [] e.op = "nbr" -> Neighbours(e)
    [] e.op = "err" -> Error(e)
    [] e.op = "refuse" -> Refused(e)
    [] e.op = "world" -> World(e)
    [] e.op = "area" -> Area(e)
    [] e.op = "cover" -> Cover(e)
    [] e.op = "polygon" -> Polygon(e)
    [] e.op = "props" -> Props(e)
    [] e.op = "grid" -> Grid(e)
    [] e.op = "zoom" -> Zoom(e)
    [] e.op = "where" -> Where(e)
    [] e.op = "raster" -> Raster(e)
    [] OTHER -> FALSE
Event(e) ==
  IF e.op = "new" THEN New(e) /\ Shown(e)
  ELSE IF e.op = "walk" THEN Walk(e) /\ Shown(e)
  ELSE IF e.op = "out" THEN Out(e) /\ Shown(e)
  ELSE IF e.op = "in" THEN In(e) /\ Shown(e)
  ELSE IF e.op = "copy" THEN UNCHANGED cur /\ Shown(e)
  ELSE UNCHANGED cur /\ (Checked(e) = TRUE)
TraceInit == l = 1 /\ cur = <<>>
TraceNext == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
