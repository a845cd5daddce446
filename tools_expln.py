#!/usr/bin/env python3
"""Writes spec/ExpLn.tla (tables checked by KernelMC)."""
import math
import pathlib


def tab(f, n, m):
    lines, cur = [], ''
    for x in [str(round(f(k))) for k in range(n, m)]:
        if len(cur) + len(x) > 70:
            lines.append(cur)
            cur = ''
        cur += x + ', '
    lines.append(cur.rstrip(', '))
    return '<<' + '\n  '.join(lines) + '>>'


(pathlib.Path(__file__).resolve().parent / 'spec' / 'ExpLn.tla').write_text(
    '------------------------------- MODULE ExpLn -------------------------------\n'
    '(* Written by tools_expln.py; KernelMC checks the tables.                   *)\n'
    'EXTENDS Integers\n'
    '\\* 100000 * exp(-k / 100), k = 0..1200\n'
    'ExpTab == ' + tab(lambda k: 1e5 * math.exp(-k / 100), 0, 1202) + '\n'
    '\\* 10000 * ln(n), n = 1..2000\n'
    'LnTab == ' + tab(lambda k: 1e4 * math.log(k), 1, 2001) + '\n'
    '''\\* 100000 * exp(-x / 10000)
ExpNeg(x) == LET i == x \\div 100 IN
  IF i > 1200 THEN 0
  ELSE ExpTab[i + 1] - ((ExpTab[i + 1] - ExpTab[i + 2]) * (x % 100)) \\div 100
Ln(n) == LnTab[n]
=============================================================================
''')
