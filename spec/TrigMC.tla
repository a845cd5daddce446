------------------------------- MODULE TrigMC -------------------------------
(* The tables satisfy the functional equations of the sine.                *)
EXTENDS Trig
VARIABLE a
A(x) == IF x < 0 THEN -x ELSE x
Init == a = 0
Next == a < 1440 /\ a' = a + 1
Spec == Init /\ [][Next]_a
Anchors == Sin(0) = 0 /\ Sin(120) = 15000 /\ Sin(360) = 30000 /\ Hav(720) = 100000000
Identities ==
  /\ A(Sin(a) * Sin(a) + Cos(a) * Cos(a) - 900000000) <= 60000
  /\ Sin(a + 720) = -Sin(a) /\ Sin(720 - a) = Sin(a)
  \* addition formula with the smallest step
  /\ A(30000 * Sin(a + 1) - (Sin(a) * Cos(1) + Cos(a) * Sin(1))) <= 60000
  \* sin^2(a/2) = (1 - cos a)/2
  /\ A(3 * (Hav(a) \div 5) - 1000 * (30000 - Cos(a))) <= 1200
  /\ Hav(a) = Hav(-a)
  /\ a <= 700 => Hav(a + 10) > Hav(a)
=============================================================================
