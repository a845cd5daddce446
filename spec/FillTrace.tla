------------------------------ MODULE FillTrace ------------------------------
(* The recorded results of the filling functions, applied one after the      *)
(* other to the same grid, are those of Fill. A grid is a sequence of        *)
(* slices; U = 1024 parts of a unit of data.                                 *)
EXTENDS Fill, Json, IOUtils
LOCAL INSTANCE Num
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, data, geo
BAD == 2000000000
U == 1024
SameShape(a, b) == Len(a) = Len(b) /\ \A x \in DOMAIN a : Len(a[x]) = Len(b[x])
NearGrid(r, s, tol) == SameShape(r, s) /\ \A c \in Cells(s) :
  IF s[c[1]][c[2]] = BAD THEN r[c[1]][c[2]] = BAD ELSE Near(r[c[1]][c[2]], s[c[1]][c[2]], tol)
Kept(r, s) == SameShape(r, s) /\ \A c \in Defined(s) : r[c[1]][c[2]] = s[c[1]][c[2]]
Slices(r) == Len(r) = Len(data)
(* LOESS *)
BadWindow(e) == e.nx < 1 \/ e.ny < 1
Loess(e) ==
  IF e.type \notin {"undefined", "defined", "all"} \/ BadWindow(e) THEN e.r.err = "ValueError"
  ELSE /\ e.r.err = "" /\ Slices(e.r.v)
       /\ \A k \in DOMAIN data :
            /\ SameShape(e.r.v[k], data[k])
            /\ \A c \in Cells(data[k]) :
                 LoessResult(data[k], geo, c[1], c[2], e.nx, e.ny, e.type, e.r.v[k][c[1]][c[2]])
(* Relaxation: e.w = 0 is the default relaxation, e.maxit < 0 the default    *)
(* number of iterations. eps is in 1/(64 U).                                 *)
Params(e, k) ==
  LET n == NX(data[k])
      m == NY(data[k])
  IN [guess |-> e.guess, circle |-> geo.per > 0,
      w |-> IF e.w = 0 THEN DefaultRelaxation(n, m) ELSE e.w,
      maxit |-> IF e.maxit < 0 THEN n * m ELSE e.maxit,
      eps |-> e.eps, slack |-> IF e.w = 0 THEN 24 * 64 ELSE 3 * 64]
Coarse(g) == Map(g, LAMBDA v : Scaled(v, Fine, 1))
Fits(e, k, s) == NearGrid(e.r.v[k], Coarse(s.g), IF e.w = 0 THEN 40 ELSE 5)
\* the order of the colours is that of the program: one for all slices
Relaxed(e, first) ==
  LET runs == TLCEval([k \in DOMAIN data |-> {s \in GaussSeidel(data[k], Params(e, k), first) : Fits(e, k, s)}])
      slack == IF e.w = 0 THEN 24 * 64 ELSE 3 * 64
  IN /\ \A k \in DOMAIN data : runs[k] # {}
     /\ (\A k \in DOMAIN data : \A s \in runs[k] : s.res < e.eps - slack) => e.r.flag
     /\ (\E k \in DOMAIN data : \A s \in runs[k] : s.res > e.eps + slack) => ~e.r.flag
     /\ e.r.it >= 0 => \E s \in runs[1] : s.it = e.r.it /\ Near(e.r.res, s.res, slack)
Relax(e) ==
  IF e.guess \notin {"zero", "zonal_average"} THEN e.r.err = "ValueError"
  ELSE /\ e.r.err = "" /\ Slices(e.r.v)
       /\ \A k \in DOMAIN data : Kept(e.r.v[k], data[k]) /\ ~HasGap(e.r.v[k])
       /\ Relaxed(e, 0) \/ Relaxed(e, 1)
(* Rows and columns of a slice; lines. e.before is the argument, e.inplace   *)
(* says that it is modified, e.after is what it becomes; e.k parts of a unit *)
(* of data; e.int if integers are truncated.                                 *)
After1(e) == e.after = (IF e.inplace THEN e.r.v ELSE e.before)
Refused(e) == ~e.ok /\ e.after = e.before
Matrix(e) == IF e.r.err # "" THEN Refused(e) ELSE
             /\ After1(e) /\ Kept(e.r.v, e.before)
             /\ NearGrid(e.r.v, FillMatrix(e.before), IF e.loose THEN 24 ELSE 3)
Line(e) == IF e.r.err # "" THEN Refused(e)
           ELSE /\ After1(e)
                /\ Len(e.r.v) = Len(e.before)
                /\ LET f == FillLine(e.before) IN
                   \A i \in DOMAIN f : IF i \in Valid(e.before) \/ f[i] = BAD THEN e.r.v[i] = f[i]
                                       ELSE Near(e.r.v[i], f[i], 1)
Good(e) ==
  /\ IF e.op = "loess" THEN Loess(e) ELSE IF e.op = "relax" THEN Relax(e)
     ELSE IF e.op = "matrix" THEN Matrix(e) ELSE IF e.op = "line" THEN Line(e)
     ELSE e.op = "keep"
  \* the grid is read, not modified
  /\ (e.op \in {"loess", "relax"}) => e.mesh = data
Step(e) ==
  IF e.op = "grid" THEN data' = e.data /\ geo' = e.geo
  ELSE /\ Good(e) = TRUE
       /\ geo' = geo
       /\ data' = IF e.op = "keep" THEN e.data ELSE data
TraceInit == l = 1 /\ data = <<>> /\ geo = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<data, geo, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
