"""Runs cases of one check, one JSON line in and one JSON line out."""

import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    prop, tier, seed, core_dir = sys.argv[1:5]
    seed = int(seed)
    repo = os.environ.get('VERIF_REPO', '/repo')
    # The answers go to a private descriptor: the code under test may print
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    inp = os.fdopen(os.dup(0), 'r', buffering=1)
    os.dup2(devnull, 0)

    # Never the installed module: the one built from the working tree (see
    # vf/site/sitecustomize.py)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import tnco_core
    import tnco
    assert os.path.dirname(tnco_core.__file__) == core_dir, tnco_core.__file__
    assert tnco.__file__.startswith(repo + '/'), tnco.__file__

    from vf import harness
    mod = importlib.import_module(f'vf.checks.{prop.lower()}')
    fams = {f.name: f for f in mod.FAMILIES}
    mon = harness.Monitor(prop, tier)
    mon.notes = os.path.join(os.getcwd(), 'notes')
    out.write(json.dumps({'ready': True}) + '\n')
    scratch = os.getcwd()
    for line in inp:
        family, idx = json.loads(line)
        mon.reset()
        rng = harness.Rng(f'{seed}/{prop}/{family}/{idx}')
        t0 = time.monotonic()
        ans = {'family': family, 'idx': idx, 'status': 'ok'}
        try:
            fams[family].fn(rng, mon)
        except harness.Violation as e:
            ans.update(status='violation',
                       what=e.what,
                       key=e.key,
                       details=e.details,
                       trace=traceback.format_exc()[-6000:])
        except (harness.Inconclusive, MemoryError) as e:
            ans.update(status='inconclusive', what=repr(e)[:500])
        except (Exception, SystemExit) as e:
            ans.update(status='violation',
                       what=f'unexpected {type(e).__name__}: {e}'[:1500],
                       key=f'exception:{type(e).__name__}',
                       details={},
                       trace=traceback.format_exc()[-6000:])
        os.chdir(scratch)
        ans['events'] = dict(mon.events)
        ans['sigs'] = sorted(mon.sigs)
        if ans['status'] != 'ok':
            ans['context'] = mon.context
        if mon.sample_ is not None:
            ans['sample'] = mon.sample_
        ans['t'] = round(time.monotonic() - t0, 4)
        out.write(harness.dump(ans) if ans['status'] != 'ok' else json.dumps(ans))
        out.write('\n')


if __name__ == '__main__':
    main()
