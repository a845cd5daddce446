"""Behaviours enumerated by TLC for replay on the implementation."""
import json
import os
import pathlib


def parse(out):
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            res.append(json.loads(json.loads(line)[2:]))
    # the workers of TLC print them in any order
    return sorted(res, key=json.dumps)


def histories():
    return json.loads(pathlib.Path(os.environ['VF_GEN']).read_text())
