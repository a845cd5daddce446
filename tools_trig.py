#!/usr/bin/env python3
"""Writes spec/Trig.tla (tables of sines, checked by TrigMC)."""
import math
import pathlib


def tab(f, n):
    v = [str(round(f(k))) for k in range(n)]
    lines, cur = [], ''
    for x in v:
        if len(cur) + len(x) > 70:
            lines.append(cur)
            cur = ''
        cur += x + ', '
    lines.append(cur.rstrip(', '))
    return '<<' + '\n  '.join(lines) + '>>'


q = math.radians(0.25)
(pathlib.Path(__file__).resolve().parent / 'spec' / 'Trig.tla').write_text(
    '-------------------------------- MODULE Trig '
    '--------------------------------\n'
    '(* Angles are counted in quarters of a degree.  Written by '
    'tools_trig.py;    *)\n'
    '(* TrigMC checks the tables against the identities which define them. '
    '      *)\n'
    'EXTENDS Integers\n'
    '\\* 30000 * sin, from 0 to 90 degrees\n'
    'SinTab == ' + tab(lambda k: 30000 * math.sin(k * q), 361) + '\n'
    '\\* 10^8 * sin^2 of half the angle, from 0 to 180 degrees\n'
    'HavTab == ' + tab(lambda k: 1e8 * math.sin(k * q / 2)**2, 721) + '\n'
    r'''
Sin(a) == LET m == a % 1440 IN
  CASE m <= 360 -> SinTab[m + 1]
    [] m > 360 /\ m <= 720 -> SinTab[721 - m]
    [] m > 720 /\ m <= 1080 -> -SinTab[m - 719]
    [] OTHER -> -SinTab[1441 - m]
Cos(a) == Sin(a + 360)
Hav(a) == LET m == a % 1440 IN HavTab[(IF m <= 720 THEN m ELSE 1440 - m) + 1]

\* 10^8 * haversine of the great circle distance
Haversine(lon1, lat1, lon2, lat2) ==
  LET c == (Cos(lat1) * Cos(lat2)) \div 30000
      s == Hav(lon1 - lon2)
  IN Hav(lat1 - lat2) +
     (IF s < 70000 THEN (s * c) \div 30000
      ELSE IF s < 7000000 THEN ((s \div 100) * (c \div 3)) \div 100
      ELSE ((s \div 1000) * (c \div 3)) \div 10)
\* 10^8 * (distance/2)^2 on the unit sphere, below some 45 degrees
HalfDist2(h) ==
  LET k == h \div 10000
      h2 == k * k
      h3 == (h2 \div 10000) * k
  IN h + h2 \div 3 + (8 * (h3 \div 5)) \div 9
=============================================================================
''')
