------------------------------ MODULE RtreeMC ------------------------------
(* What is stored is what was given since the last load, and in every state *)
(* each question has an answer, the same for everybody but for equally      *)
(* close points.                                                            *)
EXTENDS Rtree, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Depth, Points, Ks
VARIABLES t, given, n
MInit == t = Empty("ecef", 0) /\ given = {} /\ n = 0
Three3 == {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 3, 0>>}
Five3 == Three3 \cup {<<0, 3, 1>>, <<2, 0, 0>>}
C3 == Points
MInsert == \E c \in C3 : t' = Insert(t, <<c>>, <<n>>) /\ given' = given \cup {<<c, n>>}
MPack == \E c, d \in C3 : t' = Pack(t, <<c, d>>, <<n, n + 100>>)
                          /\ given' = {<<c, n>>, <<d, n + 100>>}
MClear == t' = Clear(t) /\ given' = {}
MNext == n < Depth /\ n' = n + 1 /\ (MInsert \/ MPack \/ MClear)
MSpec == MInit /\ [][MNext]_<<t, given, n>>
Holds == /\ {<<t.pts[i].c, t.pts[i].v>> : i \in DOMAIN t.pts} = given
         /\ Len(t.pts) = Cardinality(given)
Sels(k) == LET m == Min2(k, Len(t.pts))
           IN {s \in [1..m -> DOMAIN t.pts] : \A i, j \in 1..m : i # j => s[i] # s[j]}
Row(q, i) == <<Isqrt(D2(t.pts[i].p, q) * 10000), t.pts[i].v>>
Pad(s, k) == s \o [i \in 1..(k - Len(s)) |-> <<-1, -1>>]
Answers(q, k, w) ==
  {s \in Sels(k) : QueryOk(t, q, k, w, Pad([i \in DOMAIN s |-> Row(q, s[i])], k))}
Nothing(q, k, w) == QueryOk(t, q, k, w, Pad(<<>>, k))
Queries == \A q \in C3, k \in Ks : \A w \in BOOLEAN :
  LET a == Answers(q, k, w) IN
  /\ a # {} \/ Nothing(q, k, w)
  /\ Settled(t, q, k) /\ a # {} => ~Nothing(q, k, w) \/ k = 0 \/ t.pts = <<>>
  /\ \A s1, s2 \in a : \A i \in DOMAIN s1 : D2(t.pts[s1[i]].p, q) = D2(t.pts[s2[i]].p, q)
  /\ ~w => \A s \in a : \A i \in DOMAIN t.pts : \A j \in DOMAIN s :
        (\A m \in DOMAIN s : s[m] # i) => D2(t.pts[s[j]].p, q) <= D2(t.pts[i].p, q)
\* the distance accepted for a pair of points is unique up to rounding
Distances == \A i \in DOMAIN t.pts, q \in C3 :
  \A r \in 0..(400) : DistOk(t, r, D2(t.pts[i].p, q)) =>
     Abs(r - Isqrt(D2(t.pts[i].p, q) * 10000)) <= 2
Bounded == \A b \in {<<>>} \cup {<<l, h>> : l, h \in C3} :
  BoundsOk(t, b) /\ b # <<>> =>
    /\ \A i \in DOMAIN t.pts : \A j \in 1..3 : b[1][j] <= t.pts[i].c[j] /\ t.pts[i].c[j] <= b[2][j]
    /\ \A j \in 1..3 : (\E i \in DOMAIN t.pts : t.pts[i].c[j] = b[1][j])
                       /\ (\E i \in DOMAIN t.pts : t.pts[i].c[j] = b[2][j])
=============================================================================
