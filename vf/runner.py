"""Feeds cases to worker processes, watches them, and reports the verdict."""

import argparse
import importlib
import json
import os
import queue
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter
from pathlib import Path

from vf import build

VERIF = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
TICK = os.sysconf('SC_CLK_TCK')
CRASH_SIGNALS = {
    signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS, signal.SIGILL,
    signal.SIGTRAP
}


def cpu_seconds(pid):
    """CPU time of a worker (a child of this process)."""
    try:
        f = Path(f'/proc/{pid}/stat').read_text().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / TICK
    except Exception:
        return 0.


class Worker:

    def __init__(self, prop, tier, seed, fam, core_dir, scratch):
        self.dir = tempfile.mkdtemp(dir=scratch)
        env = {
            k: v for k, v in os.environ.items() if not k.startswith('PYTHON')
        }
        env.update(PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=f'{VERIF}/vf/site:{VERIF}',
                   VF_CORE_DIR=str(core_dir),
                   VERIF_REPO=str(build.REPO),
                   OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1',
                   MKL_NUM_THREADS='1',
                   NUMBA_NUM_THREADS='1',
                   JOBLIB_TEMP_FOLDER=self.dir,
                   TMPDIR=self.dir,
                   HOME=self.dir)
        self.variant = fam.variant
        if fam.variant == 'san':
            env.update(LD_PRELOAD=build.san_env(),
                       ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:'
                       'abort_on_error=1:handle_segv=1:handle_sigfpe=1:'
                       'detect_stack_use_after_return=0:'
                       'allocator_may_return_null=1:'
                       'alloc_dealloc_mismatch=0',
                       UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:'
                       'print_stacktrace=1')
        env.update(fam.env)
        self.env_key = (fam.variant, tuple(sorted(fam.env.items())))
        self.err_path = os.path.join(self.dir, 'stderr')
        self.err = open(self.err_path, 'wb')
        self.p = subprocess.Popen(
            [PY, '-m', 'vf.worker', prop, tier,
             str(seed),
             str(core_dir)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            cwd=self.dir,
            env=env,
            start_new_session=True)
        self.buf = b''

    def send(self, task):
        self.p.stdin.write((json.dumps(task) + '\n').encode())
        self.p.stdin.flush()

    def recv(self, cpu_limit, wall_limit):
        """A line, or ('dead', rc), ('cpu',), ('wall',)."""
        c0, t0 = cpu_seconds(self.p.pid), time.monotonic()
        while True:
            if b'\n' in self.buf:
                line, self.buf = self.buf.split(b'\n', 1)
                return json.loads(line)
            r, _, _ = select.select([self.p.stdout], [], [], 0.5)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    return ('dead', self.p.wait())
                self.buf += d
                continue
            if cpu_seconds(self.p.pid) - c0 > cpu_limit:
                return ('cpu',)
            if time.monotonic() - t0 > wall_limit:
                return ('wall',)

    def stderr(self):
        try:
            text = Path(self.err_path).read_bytes().decode(errors='replace')
        except Exception:
            return ''
        for mark in ('runtime error:', 'ERROR: AddressSanitizer'):
            if mark in text:
                # The report from its first line, without the names of types
                i = text.rindex('\n', 0, text.index(mark)) + 1 if '\n' in text[
                    :text.index(mark)] else 0
                return '\n'.join(x if len(x) < 260 else x[:100] + ' ... ' +
                                 x[-150:] for x in text[i:].splitlines())[:8000]
        return text[-8000:]

    def notes(self):
        try:
            return json.loads(Path(self.dir, 'notes').read_text())
        except Exception:
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings():
    out = []
    p = VERIF / 'known_findings.jsonl'
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


class Run:

    def __init__(self, prop, mod, tier, seed, dirs):
        self.prop, self.mod, self.tier, self.seed = prop, mod, tier, seed
        self.dirs = dirs
        self.fams = {f.name: f for f in mod.FAMILIES}
        self.lock = threading.Lock()
        self.events = Counter()
        self.per_family = Counter()
        self.family_time = Counter()
        self.sigs = set()
        self.samples = []
        self.sample_families = Counter()
        self.violations = []
        self.known = Counter()
        self.inconclusive = []
        self.evaluations = 0
        self.max_t = 0.
        self.stop = threading.Event()
        self.known_findings = [
            k for k in known_findings() if k.get('property') == prop
        ]

    def record(self, ans):
        with self.lock:
            self.evaluations += 1
            self.per_family[ans['family']] += 1
            self.family_time[ans['family']] += ans.get('t', 0)
            self.max_t = max(self.max_t, ans.get('t', 0))
            self.events.update(ans.get('events', {}))
            self.sigs.update(ans.get('sigs', ()))
            if 'sample' in ans and self.sample_families[ans['family']] < 2:
                self.sample_families[ans['family']] += 1
                self.samples.append({
                    'family': ans['family'],
                    'idx': ans['idx'],
                    **ans['sample']
                })
            if ans['status'] == 'violation':
                for k in self.known_findings:
                    if k['key'] == ans.get('key'):
                        self.known[k['key']] += 1
                        return
                self.violations.append(ans)
                if len({v.get('key') for v in self.violations}) >= 4 or len(
                        self.violations) >= 12:
                    self.stop.set()
            elif ans['status'] == 'inconclusive':
                self.inconclusive.append(ans)

    def spawn(self, fam, scratch):
        w = Worker(self.prop, self.tier, self.seed, fam,
                   self.dirs[fam.variant], scratch)
        r = w.recv(300, 300)
        if isinstance(r, tuple):
            msg = w.stderr()
            w.kill()
            raise RuntimeError(f'worker did not start: {r}\n{msg}')
        return w

    def loop(self, tasks, scratch, deadline):
        w = None
        try:
            while not self.stop.is_set() and time.monotonic() < deadline:
                try:
                    family, idx, attempt = tasks.get_nowait()
                except queue.Empty:
                    return
                fam = self.fams[family]
                if w is not None and w.env_key != (fam.variant,
                                                   tuple(
                                                       sorted(
                                                           fam.env.items()))):
                    w.kill()
                    w = None
                if w is None:
                    w = self.spawn(fam, scratch)
                try:
                    w.send([family, idx])
                    r = w.recv(fam.cpu_s, max(240, 4 * fam.cpu_s))
                except (BrokenPipeError, OSError):
                    r = ('dead', w.p.wait())
                if isinstance(r, dict):
                    self.record(r)
                    continue
                msg, context = w.stderr(), w.notes()
                w.kill()
                w = None
                ans = {'context': context, 'family': family, 'idx': idx, 'status': 'inconclusive'}
                if r[0] == 'dead' and (r[1] < 0 and
                                       -r[1] in CRASH_SIGNALS or
                                       'runtime error:' in msg or
                                       'AddressSanitizer' in msg):
                    ans.update(status='violation',
                               what=f'the process died (exit {r[1]})',
                               key='crash',
                               trace=msg)
                elif r[0] == 'dead':
                    # e.g. ended for its memory use: try once more, then give up
                    if attempt == 0:
                        tasks.put((family, idx, 1))
                        continue
                    ans.update(what=f'worker ended with {r[1]}: {msg[-500:]}')
                elif attempt == 0:
                    tasks.put((family, idx, 1))
                    continue
                elif r[0] == 'cpu' or getattr(self.mod, 'HANG_IS_VIOLATION',
                                              False):
                    ans.update(
                        status='violation',
                        what=f'did not terminate within {fam.cpu_s} s of '
                        f'{"CPU" if r[0] == "cpu" else "wall-clock"} time, twice',
                        key='hang',
                        trace=msg)
                else:
                    ans.update(what='no answer (wall clock)')
                self.record(ans)
        except Exception as e:
            with self.lock:
                self.inconclusive.append({
                    'family': '-',
                    'idx': -1,
                    'what': f'{type(e).__name__}: {e}'
                })
            self.stop.set()
        finally:
            if w is not None:
                w.kill()


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t_start = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    mod = importlib.import_module(f'vf.checks.{prop.lower()}')

    replay = None
    if a.replay:
        replay = json.loads(Path(a.replay).read_text())
        tier, seed = replay['tier'], replay['seed']

    fams = [
        f for f in mod.FAMILIES
        if (not a.family or f.name in a.family.split(',')) and
        (replay is None or f.name == replay['family'])
    ]
    try:
        dirs, cached = {}, {}
        for v, r in build.ensure_all(
                {f.variant for f in fams} | set(getattr(mod, 'VARIANTS', ()))).items():
            dirs[v], cached[v] = r
    except Exception as e:
        print(f'INCONCLUSIVE property={prop} build: {e}')
        return 2
    t_build = time.monotonic() - t_start

    # Cases of every family, interleaved so that a deadline starves none
    keyed = []
    for f in fams:
        n = f.quick if tier == 'quick' else f.thorough
        if replay is not None:
            keyed = [(0, f.variant, f.name, replay['idx'])]
            break
        n = max(1, round(n * a.scale))
        keyed += [((i + .5) / n, f.variant, f.name, i) for i in range(n)]
    # One variant after the other, as each needs its own processes
    keyed.sort(key=lambda k: (k[1], k[0]))
    tasks = queue.Queue()
    by_variant = {}
    for _, variant, name, i in keyed:
        by_variant.setdefault(
            (variant, tuple(sorted(
                {f.name: f for f in fams}[name].env.items()))), []).append(
                    (name, i, 0))
    scratch = tempfile.mkdtemp(prefix='vf-')
    budget = 520 if tier == 'quick' else 3600
    deadline = t_start + budget
    run = Run(prop, mod, tier, seed, dirs)
    planned = 0
    try:
        for _, ts in by_variant.items():
            for t in ts:
                tasks.put(t)
            planned += len(ts)
            threads = [
                threading.Thread(target=run.loop,
                                 args=(tasks, scratch, deadline))
                for _ in range(min(a.jobs, len(ts)))
            ]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            # A retry may have been queued after the other threads left
            run.loop(tasks, scratch, deadline)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.monotonic() - t_start
    out_of_time = run.evaluations < planned and not run.stop.is_set()
    # Deciding monitors that have to have been reached
    missing = [
        f'{k}={run.events.get(k, 0)}' for k in getattr(mod, 'NEEDED', ())
        if run.events.get(k, 0) == 0
    ] if replay is None and not a.family and not run.violations else []

    (VERIF / 'evidence').mkdir(exist_ok=True)
    if replay is None:
        ev = {
            'property': prop,
            'tier': tier,
            'seed': seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': run.evaluations,
                'distinct_nontrivial': len(run.sigs),
                'rule': mod.RULE,
                'samples': run.samples[:12],
                'cases_per_family': dict(run.per_family),
                'events': dict(sorted(run.events.items())),
                'planned_cases': planned,
                'out_of_time': out_of_time,
                'variants': {
                    v: ('cached' if c else 'built') for v, c in cached.items()
                },
                'inconclusive_cases': len(run.inconclusive),
                'slowest_case_s': run.max_t,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 2),
            'violations': len(run.violations),
        }
        (VERIF / 'evidence' / f'{prop}.json').write_text(
            json.dumps(ev, indent=1) + '\n')

    print(f'{prop} tier={tier} seed={seed}: {run.evaluations}/{planned} cases, '
          f'{len(run.sigs)} distinct, {run.events.get("assertions", 0)} '
          f'assertions, {sum(run.events.values())} events, build '
          f'{t_build:.0f}s {cached}, wall {wall:.0f}s, '
          f'inconclusive {len(run.inconclusive)}')
    if a.v:
        for k, n in run.per_family.items():
            print(f'   {k}: {n} cases, {run.family_time[k]:.1f} s')
        print('  ', dict(sorted(run.events.items())))
    for k in run.known_findings:
        what = k['what']
        print(f'KNOWN-FINDING: property={prop} {what} '
              f'(seen {run.known.get(k["key"], 0)} times)')
    if run.violations:
        rd = VERIF / 'replays'
        rd.mkdir(exist_ok=True)
        seen = set()
        for v in run.violations:
            if v.get('key') in seen:
                continue
            seen.add(v.get('key'))
            path = rd / f'{prop}-{v["family"]}-{v["idx"]}-{seed}-{tier}.json'
            path.write_text(
                json.dumps({
                    'property': prop,
                    'tier': tier,
                    'seed': seed,
                    **{
                        k: v.get(k) for k in ('family', 'idx', 'what', 'key', 'details', 'context', 'trace')
                    }
                },
                           indent=1) + '\n')
            print(f'  {v.get("what")}'[:600])
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    for i in run.inconclusive[:5]:
        print('  inconclusive:', str(i.get('family')), i.get('idx'),
              str(i.get('what'))[:1500])
    if run.evaluations == 0 or missing or len(run.inconclusive) > max(
            2, 0.02 * run.evaluations):
        print(f'INCONCLUSIVE property={prop} {missing}')
        return 2
    return 0
