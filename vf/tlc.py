"""Run TLC on the specifications of /verif/spec."""
import os
import pathlib
import re
import shutil
import subprocess
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
JAVA = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
        '-XX:TieredStopAtLevel=4', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar']


class TLCError(Exception):
    """TLC did not answer: parse error, evaluation error, out of memory."""


class Result:

    def __init__(self, out, wall):
        self.out = out
        self.wall = wall
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found',
                       out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r'depth of the complete state graph search is (\d+)',
                       out)
        self.depth = int(m[-1]) if m else 0
        self.ok = 'Model checking completed. No error has been found' in out
        self.rejected = ('TraceAccepted' in out and 'Error:' in out
                         and not self.ok)
        m = re.findall(r'Error: (.*)', out)
        self.error = m[0] if m else ''
        self.violation = re.findall(
            r'Error: (?:Invariant (\S+) is violated|Action property (\S+))',
            out)


def run(module, cfg=None, env=None, workers='1', heap='1500m', timeout=800,
        extra=()):
    meta = tempfile.mkdtemp(prefix='vftlc')
    e = dict(os.environ)
    e.update(env or {})
    cmd = [
        *JAVA[:1], f'-Xmx{heap}', '-Xss16m', *JAVA[1:], 'tlc2.TLC',
        '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta,
        '-config', f'{cfg or module}.cfg', *extra, f'{module}.tla'
    ]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise TLCError(f'{module}: timeout after {timeout} s') from exc
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Result(p.stdout + p.stderr, time.time() - t0)


def validate(module, path, timeout=800, heap='2g'):
    """Validate one ndjson trace; returns (accepted, matched lines, Result)."""
    res = run(module, env={'TRACE': str(path)}, timeout=timeout, heap=heap)
    if res.ok:
        return True, res.depth - 1, res
    if res.rejected and 'evaluat' not in res.error:
        return False, res.depth - 1, res
    if res.depth >= 1 and 'The behavior up to this point is' in res.out:
        # the next event holds a value the specification cannot even evaluate
        # (out of the integers of TLC, missing field, ...)
        return False, res.depth - 1, res
    raise TLCError(f'{module} on {path}:\n' + res.out[-3000:])


def model_check(module, cfg, workers=4, timeout=800, heap='3g', extra=()):
    """Exhaustive check of a specification; raises unless it passes."""
    res = run(module, cfg, workers=workers, timeout=timeout, heap=heap,
              extra=extra)
    if not res.ok:
        raise TLCError(f'{module}/{cfg}:\n' + res.out[-3000:])
    return res
