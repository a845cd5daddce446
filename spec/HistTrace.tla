------------------------------ MODULE HistTrace -----------------------------
EXTENDS Hist, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj
vars == <<l, obj>>
Set(s, o) == [k \in DOMAIN obj \cup {s} |-> IF k = s THEN o ELSE obj[k]]
Fits(s, t) == obj[s].shape = obj[t].shape /\ obj[s].single = obj[t].single
Sum(s, t) == [obj[s] EXCEPT !.cells =
                [k \in DOMAIN @ |-> MergeCells(@[k], obj[t].cells[k])]]
SetOf(q) == {q[k] : k \in DOMAIN q}
\* arrays cut in blocks of rows are pushed in one histogram per block
RowSize(e) == Product(Tail(e.shape))
Block(e, i) ==
  LET lo == IF i = 1 THEN 0 ELSE e.cut[i - 1]
      hi == IF i > Len(e.cut) THEN e.shape[1] ELSE e.cut[i]
      sub(s) == IF s = <<>> THEN s ELSE SubSeq(s, lo * RowSize(e) + 1, hi * RowSize(e))
  IN IF e.cut = <<>> THEN [shape |-> e.shape, v |-> e.v, w |-> e.w]
     ELSE [shape |-> <<hi - lo>> \o Tail(e.shape), v |-> sub(e.v), w |-> sub(e.w)]
BlockCells(e, i) ==
  LET b == Block(e, i)
      tab == IF e.flat THEN Whole(b.v, b.w) ELSE Table(b.shape, SetOf(e.ax), b.v, b.w)
  IN [k \in DOMAIN tab |-> NewCell(tab[k], e.cap)]
RECURSIVE FirstBlocks(_, _)
FirstBlocks(e, n) ==
  IF n = 1 THEN BlockCells(e, 1)
  ELSE LET x == FirstBlocks(e, n - 1) y == BlockCells(e, n)
       IN [k \in DOMAIN x |-> MergeCells(x[k], y[k])]
ToHist(e) ==
  [shape |-> IF e.flat THEN <<1>> ELSE ReducedShape(e.shape, SetOf(e.ax)),
   single |-> e.single, cells |-> FirstBlocks(e, Len(e.cut) + 1)]
ValidNew(e) ==
  /\ e.flat \/ \A a \in SetOf(e.ax) : a \in 0..Len(e.shape) - 1
  /\ e.w = <<>> \/ e.wshape = e.shape
Step(e) ==
  \/ e.op = "new" /\ IF ValidNew(e) THEN e.r = "ok" /\ obj' = Set(e.s, ToHist(e))
                     ELSE e.r = "ValueError" /\ UNCHANGED obj
  \/ e.op \in {"copy", "pickle"} /\ obj' = Set(e.t, obj[e.s])
  \/ e.op = "iadd" /\ IF Fits(e.s, e.t) THEN e.r = "ok" /\ obj' = Set(e.s, Sum(e.s, e.t))
                      ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "add" /\ IF Fits(e.s, e.t) THEN e.r = "ok" /\ obj' = Set(e.d, Sum(e.s, e.t))
                     ELSE e.r # "ok" /\ UNCHANGED obj
  \/ e.op = "resize" /\ obj' = Set(e.s, [obj[e.s] EXCEPT !.cells =
                                            [k \in DOMAIN @ |-> ResizeCell(@[k], e.cap)]])
  \/ e.op = "read" /\ e.r.shape = obj[e.s].shape
     /\ LET c == obj[e.s].cells IN
        /\ Len(e.r.cells) = Len(c)
        /\ (\A k \in 1..Len(c) : OkHist(e.r.cells[k], c[k], obj[e.s].single)) = TRUE
        /\ obj' = Set(e.s, [obj[e.s] EXCEPT !.cells =
                              [k \in DOMAIN c |-> Narrow(c[k], e.r.cells[k])]])
  \/ e.op = "refused" /\ UNCHANGED obj /\ e.r
Init == l = 1 /\ obj = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
