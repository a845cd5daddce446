----------------------------- MODULE WindowedMC ------------------------------
(* Windowed over small axes, windows, modes and positions.                   *)
EXTENDS Windowed, TLC
CONSTANTS Kind0, Sizes, XPos, YPos
Pos == {-8, 0, 3, 8, 12, 16, 20, 33, 47}
PosDeep == (-9)..50
QuickX == {-8, 0, 3, 12, 16, 33, 47}
VARIABLES st
vars == <<st>>
Ax(v, c) == LET w == [i \in DOMAIN v |-> 8 * v[i]] IN
            [v |-> w, C |-> 8 * c, circ |-> A!IsCircle(w, 8 * c)]
Axes == {Ax(<<0, 1>>, 0), Ax(<<0, 2, 3>>, 0), Ax(<<0, 1, 3, 4>>, 0), Ax(<<0, 1, 2, 3>>, 4),
         Ax(<<0, 2, 3, 5>>, 6), Ax(<<0, 1, 2, 3, 4, 5>>, 0), Ax(<<0, 1, 2, 3, 4, 5>>, 6),
         Ax(<<0, 3>>, 6), Ax(<<1, 2, 3, 4>>, 12)}
AY == Ax(<<0, 1, 2, 3, 4, 6>>, 0)
Pattern == {"const", "xlin", "ylin", "delta", "twist"}
Data(p, ax) == [i \in DOMAIN ax.v |-> [j \in DOMAIN AY.v |->
  CASE p = "const" -> 7
    [] p = "xlin" -> ax.v[i] \div 8
    [] p = "ylin" -> 3 - AY.v[j] \div 8
    [] p = "delta" -> IF i = 2 /\ j = 3 THEN 10 ELSE 0
    [] p = "twist" -> (ax.v[i] \div 8) * (AY.v[j] \div 8)]]
Init == st = <<>>
Next == \/ /\ st = <<>>
           /\ \E ax \in Axes, k \in Kind0, p \in Pattern : st' = <<ax, k, p>>
        \/ /\ Len(st) = 3
           /\ \E nx \in Sizes, m \in Modes, x \in XPos, y \in YPos :
                st' = st \o <<nx, m, x, y>>
Spec == Init /\ [][Next]_vars
Is == Len(st) = 7
Grid(ax, p) == [ax |-> ax, ay |-> AY, az |-> <<>>, au |-> <<>>, data |-> <<<<Data(p, ax)>>>>]
Res == Outcomes(Grid(st[1], st[3]), st[2], st[4], 2, st[5], st[6], st[7], 0, 0)
Oks == {r \in Res : r.st = "ok"}
WXs == {w \in Windows(st[1], st[6], st[4], st[5]) : w # <<>>}
Increasing == Is => \A w \in WXs :
  LET cs == Coordinates(st[1], w)
      h == Len(w) \div 2
      x == Place(st[1], w, cs, st[6])
  IN /\ Len(cs) = 2 * st[4] /\ \A i \in 1..Len(cs) - 1 : cs[i] < cs[i + 1]
     /\ cs[h] <= x /\ x <= cs[h + 1]
\* constants; bilinear data, as long as the window lies in the grid
Inside(a, w) == \A i \in 1..Len(w) - 1 : w[i + 1] = w[i] + 1
Interior == Is /\ st[4] >= 1 /\ \A w \in WXs : Inside(st[1], w)
            /\ st[7] \in 9..30
Linear(p, x, y) == CASE p = "const" -> 7 * U [] p = "xlin" -> x * 1250
                     [] p = "ylin" -> 3 * U - y * 1250 [] p = "twist" -> (x * y * 625) \div 4
Plain == {"linear", "bicubic", "c_spline", "polynomial", "akima", "steffen"}
Reproduces == (Interior /\ st[3] # "delta" /\ st[2] \in Plain)
   => \A r \in Oks : Near(r.v, Linear(st[3], A!Norm(st[1], st[6]), st[7]), r.t + 5)
Constants0 == (Is /\ st[3] = "const") => \A r \in Oks : r.v = 7 * U
NodeValue == Is => \A i \in DOMAIN st[1].v, j \in DOMAIN AY.v :
   (st[6] = st[1].v[i] /\ st[7] = AY.v[j] /\ st[2] # "polynomial")
      => \A r \in Oks : r.v = U * Data(st[3], st[1])[i][j]
Local == (Is /\ st[3] = "delta") => \A r \in Oks :
   (\E w \in WXs : TRUE) /\ (\A w \in WXs : 1 \notin {w[i] : i \in DOMAIN w}) => r.v = 0
SomeResult == Is => Res # {} /\ \A r \in Res : r.st # "undef"
OneResult == Is => \A r \in Oks, s \in Oks : Near(r.v, s.v, r.t + s.t)
=============================================================================
