"""Orchestration of one check."""
import importlib
import json
import os
import pathlib
import random
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from . import build as vbuild
from . import gen, registry, tlc

VERIF = pathlib.Path(__file__).resolve().parent.parent
OUT = VERIF / 'out'
KNOWN = VERIF / 'known_findings.txt'
WORKERS = os.cpu_count() or 4


class Check:

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.mod = importlib.import_module('checks.' + registry.MODULE[pid])
        self.out = OUT / f'{pid}-{tier}'
        shutil.rmtree(self.out, ignore_errors=True)
        self.out.mkdir(parents=True)
        self.t0 = time.time()
        self.known = self._load_known()
        self.known_hit = {}
        self.cov = {}

    def log(self, msg):
        print(f'[{self.pid} {time.time() - self.t0:6.1f}s] {msg}', flush=True)

    def _load_known(self):
        res = {}
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                parts = line.split(None, 3)
                if (len(parts) == 4 and parts[0] == 'known:'
                        and parts[1] == f'property={self.pid}'):
                    res[parts[2].removeprefix('key=')] = parts[3]
        return res

    # -- driving the implementation ----------------------------------------
    def drive(self, so, name='trace'):
        path = self.out / f'{name}.jsonl'
        cmd = [sys.executable, '-m', 'vf.driver', self.pid, self.tier,
               str(self.seed), str(so or '-'), str(path)]
        env = dict(os.environ, OPENBLAS_NUM_THREADS='1',
                   VF_GEN=str(self.out / 'histories.json'))
        limit = getattr(self.mod, 'DRIVE_TIMEOUT', 300)

        def attempt(cmd):
            try:
                p = subprocess.run(cmd, cwd=VERIF, env=env,
                                   capture_output=True, text=True,
                                   timeout=limit)
                return p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                return 'timeout', ''

        code, err = attempt(cmd)
        if code == 'timeout' or (isinstance(code, int) and code < 0):
            # the code under test crashed or hangs: confirm, with the events
            # recorded as they happen.
            cmd2 = list(cmd)
            cmd2[4] = 'replay' if self.tier == 'quick' else self.tier
            code2, err2 = attempt(cmd2)
            if code2 == 'timeout' or (isinstance(code2, int) and code2 < 0):
                part = pathlib.Path(str(path) + '.partial')
                what = ('hangs' if code2 == 'timeout' else
                        f'is killed by {signal.Signals(-code2).name}')
                replay = self.out / 'replay.json'
                last = part.read_text().splitlines()[-20:] \
                    if part.exists() else []
                replay.write_text(json.dumps(
                    {'property': self.pid, 'seed': self.seed,
                     'tier': self.tier,
                     'what': f'the process driving the code {what}',
                     'stderr': err2[-3000:], 'last_events': last}, indent=1))
                self.violation(replay, f'the driven code {what}')
            code, err = code2, err2
        if code != 0:
            raise RuntimeError(f'driver failed ({code}):\n{err[-4000:]}')
        sessions = [json.loads(x) for x in path.read_text().splitlines()]
        stats = json.loads(pathlib.Path(str(path) + '.stats').read_text())
        return [s for s in sessions if s], stats

    # -- validation ---------------------------------------------------------
    def _write(self, sessions, path):
        with open(path, 'w') as stream:
            for s in sessions:
                for e in s:
                    stream.write(json.dumps(e) + '\n')

    def _validate_chunk(self, module, sessions, name):
        """Returns list of (session, event index) rejected, and counts."""
        bad = []
        distinct = generated = 0
        todo = list(sessions)
        accepted = 0
        while todo:
            path = self.out / f'{name}.ndjson'
            self._write(todo, path)
            ok, matched, res = tlc.validate(module, path)
            distinct += res.distinct
            generated += res.generated
            if ok:
                accepted += len(todo)
                break
            # locate the rejected event
            n = matched
            for k, s in enumerate(todo):
                if n < len(s):
                    break
                n -= len(s)
            else:
                raise tlc.TLCError('rejection after the last event')
            event = s[n]
            accepted += k
            if event.get('key') in self.known:
                self.known_hit.setdefault(event['key'], event)
                s2 = s[:n] + s[n + 1:]
                todo = [s2] + todo[k + 1:]
                continue
            bad.append((module, s, n))
            break
        return bad, distinct, generated, accepted

    def validate(self, groups, jobs=WORKERS):
        """groups: {trace module: [sessions]}."""
        tasks = []
        total = sum(len(json.dumps(v)) for v in groups.values())
        for module, sessions in groups.items():
            size = {id(s): len(json.dumps(s)) for s in sessions}
            weight = sum(size.values())
            n = max(1, min(len(sessions), round(jobs * weight / total),
                           1 + weight // 20000))
            chunks = [[] for _ in range(n)]
            load = [0] * n
            for s in sorted(sessions, key=lambda s: -size[id(s)]):
                i = load.index(min(load))
                chunks[i].append(s)
                load[i] += size[id(s)]
            for i, c in enumerate(chunks):
                tasks.append((module, c, f'{module}-{i}'))
        with ThreadPoolExecutor(max_workers=jobs) as pool:
            res = list(pool.map(lambda t: self._validate_chunk(*t), tasks))
        bad = [b for r in res for b in r[0]]
        for i, k in ((1, 'trace_states'), (2, 'trace_transitions'),
                     (3, 'sessions')):
            self.cov[k] = self.cov.get(k, 0) + sum(r[i] for r in res)
        return bad

    def group(self, sessions):
        groups = {}
        for s in sessions:
            groups.setdefault(s[0].get('module', self.mod.TRACE),
                              []).append(s)
        return groups

    # -- binding self-test ---------------------------------------------------
    def mutants(self, groups, count):
        """Corrupt one recorded result; the specification must reject it."""
        rng = random.Random(self.seed + 17)
        tasks = []
        for module, sessions in groups.items():
            cand = [(s, i) for s in sessions for i, e in enumerate(s)
                    if 'r' in e]
            rng.shuffle(cand)
            for s, i in cand[:max(1, count // len(groups))]:
                e = json.loads(json.dumps(s[i]))
                if not _corrupt(e, rng):
                    continue
                tasks.append((module, s[:i] + [e], len(tasks)))

        def one(t):
            module, s, n = t
            path = self.out / f'mutant-{n}.ndjson'
            self._write([s], path)
            try:
                ok, _, _ = tlc.validate(module, path, heap='800m')
            except tlc.TLCError:
                return False  # not even evaluable: not accepted
            if ok and os.environ.get('VF_DEBUG'):
                self.log(f'mutant accepted: {s[-1]}')
            return ok

        with ThreadPoolExecutor(max_workers=WORKERS) as pool:
            res = list(pool.map(one, tasks))
        self.cov['binding_mutants'] = len(res)
        self.cov['binding_mutants_rejected'] = sum(not r for r in res)

    # -- outcome --------------------------------------------------------------
    def violation(self, replay, what):
        self.log(what)
        self.evidence(1)
        print(f'VIOLATION property={self.pid} replay={replay}', flush=True)
        os._exit(1)

    def evidence(self, violations):
        path = VERIF / 'evidence'
        path.mkdir(exist_ok=True)
        cov = dict(self.cov)
        cov.setdefault('samples', [])
        cov['states'] = cov.get('model_states', 0) + cov.get(
            'trace_states', 0)
        cov['transitions'] = cov.get('model_transitions', 0) + cov.get(
            'trace_transitions', 0)
        cov['traces_validated_against_impl'] = cov.get('sessions', 0)
        (path / f'{self.pid}.json').write_text(json.dumps({
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking', 'coverage': cov,
            'assumptions': getattr(self.mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': violations}, indent=1))

    def models(self):
        """Exhaustive checks of the specification itself."""
        res = []
        for item in getattr(self.mod, 'MODELS', []):
            module, cfg, tiers = (item + (('quick', 'thorough'), ))[:3]
            if self.tier not in tiers:
                continue
            r = tlc.model_check(module, cfg, workers=4)
            res.append((module, cfg, r.distinct, r.generated))
        item = getattr(self.mod, 'GENERATE', None)
        if item:
            cfg = item[1]
            if self.tier == 'thorough' and len(item) > 2:
                cfg = item[2]
            r = tlc.model_check(item[0], cfg, workers=4)
            hist = gen.parse(r.out)
            if not hist:
                raise tlc.TLCError('no behaviour generated by ' + item[0])
            (self.out / 'histories.json').write_text(json.dumps(hist))
            self.cov['behaviours_generated'] = len(hist)
            res.append((item[0], cfg, r.distinct, r.generated))
        self.cov['models'] = [f'{m}/{c}: {d} distinct states, {g} generated'
                              for m, c, d, g in res]
        self.cov['model_states'] = sum(r[2] for r in res)
        self.cov['model_transitions'] = sum(r[3] for r in res)

    def run(self):
        units = getattr(self.mod, 'UNITS', None)
        with ThreadPoolExecutor(max_workers=2) as pool:
            fut = pool.submit(self.models)
            so = vbuild.build(units) if units else None
            self.log('extension built')
            fut.result()
        self.log('specification model-checked: ' +
                 '; '.join(self.cov.get('models', [])))
        sessions, stats = self.drive(so)
        self.cov['events'] = sum(map(len, sessions))
        self.cov['driver'] = stats
        ops = {}
        for s in sessions:
            for e in s:
                ops[e['op']] = ops.get(e['op'], 0) + 1
        self.cov['events_by_action'] = ops
        rng = random.Random(self.seed)
        self.cov['samples'] = [s[:4] for s in rng.sample(
            sessions, min(3, len(sessions)))]
        self.log(f'{len(sessions)} sessions, {self.cov["events"]} events '
                 'recorded from the implementation')
        bad = self.validate(self.group(sessions))
        if bad:
            module, s, n = bad[0]
            self.log(f'rejected by {module}: {json.dumps(s[n])[:600]}')
            # confirm on another execution of the implementation (several, if
            # the schedule of threads matters)
            for _ in range(getattr(self.mod, 'CONFIRM', 1)):
                again, _ = self.drive(so, 'again')
                self.cov['trace_states'] = self.cov['sessions'] = 0
                bad2 = self.validate(self.group(again))
                if bad2:
                    break
            if bad2:
                module, s, n = bad2[0]
                replay = self.out / 'replay.json'
                replay.write_text(json.dumps({
                    'property': self.pid, 'seed': self.seed,
                    'tier': self.tier, 'trace_module': module,
                    'what': 'the specification has no transition matching '
                            'the last event of this recorded behaviour',
                    'events': s[:n + 1]}, indent=1))
                self.violation(
                    replay, f'{len(bad2)} chunk(s) rejected; first: '
                    f'{json.dumps(s[n])[:800]}')
            raise RuntimeError('a rejection did not repeat')
        self.mutants(self.group(sessions), 6 if self.tier == 'quick' else 48)
        for key, desc in self.known.items():
            if key in self.known_hit:
                print(f'KNOWN-FINDING: property={self.pid} {key}: {desc}')
        self.evidence(0)
        self.log(f'held: {self.cov["sessions"]} behaviours validated, '
                 f'binding mutants rejected '
                 f'{self.cov["binding_mutants_rejected"]}/'
                 f'{self.cov["binding_mutants"]}')
        return 0


def _leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from _leaves(v, path + (k, ))
    elif isinstance(o, list):
        for k, v in enumerate(o):
            yield from _leaves(v, path + (k, ))
    else:
        yield path, o


def _corrupt(event, rng):
    leaves = [(p, v) for p, v in _leaves(event['r'], ())
              if isinstance(v, (int, bool))]
    if not leaves:
        leaves = [(p, v) for p, v in _leaves(event['r'], ())
                  if p and isinstance(v, str)]
    if not leaves:
        if isinstance(event['r'], str):
            event['r'] += 'x'
            return True
        return False
    path, v = rng.choice(leaves)
    new = (not v) if isinstance(v, bool) else ('1' if v == '0' else '0') \
        if isinstance(v, str) else v + rng.choice((-1, 1)) * (
        1 if abs(v) < 50 else max(1, abs(v) // 3))
    if not path:
        event['r'] = new
        return True
    o = event['r']
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = new
    return True


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return Check(pid, tier, seed).run()
