"""Sub-process: drives the real code and writes the recorded sessions."""
import importlib
import json
import pathlib
import random
import sys
import traceback
import faulthandler

faulthandler.enable()
VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))


def main():
    pid, tier, seed, so, out = sys.argv[1:6]
    from vf.load import load
    from vf.trace import Recorder
    from vf import registry
    mod = importlib.import_module('checks.' + registry.MODULE[pid])
    core = load(so) if so != '-' else None
    rec = Recorder()
    progress = open(out + '.partial', 'w', buffering=1)
    orig = Recorder.__call__

    def traced(self, op, **fields):
        orig(self, op, **fields)
        progress.write(self.sessions[-1][-1] + '\n')

    if tier == 'replay':
        Recorder.__call__ = traced
        tier = 'quick'
    try:
        mod.drive(core, random.Random(int(seed)), tier, rec)
    except Exception as exc:  # pylint: disable=broad-except
        if isinstance(exc, ImportError) or 'not part of this build' in str(
                exc):
            raise
        # no specification has a transition for an unexpected exception
        rec('exception', r=''.join(traceback.format_exception(exc))[-1500:])
    with open(out, 'w') as stream:
        for s in rec.sessions:
            stream.write('[' + ','.join(s) + ']\n')
    json.dump(getattr(mod, 'STATS', {}), open(out + '.stats', 'w'))


if __name__ == '__main__':
    main()
