"""Runner shared by all checks: shards a finite space over worker processes, collects the measured
counts, turns the first (simplest) failing case into a replay script and writes the evidence file.

A property module (mc/props/cNN.py) provides
    TITLE, BOUNDS, ASSUMPTIONS       texts for the evidence file
    shards(tier) -> [shard, ...]     a partition of the bounded space (every shard is explored completely)
    run(shard, ctx)                  explores one shard on the real code, simplest cases first
ctx.case is set to a description (string or callable returning one) of the case being evaluated: any
exception that escapes the library while a case is evaluated is a violation of that case.
"""
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('MC_REPO_SRC', '/repo/src')
HANG_CPU_S = 30.0
OUT = os.environ.get('MC_SCRATCH', ROOT)      # where evidence/ and out/ are written (elsewhere for campaigns on mutants)


class Violation(Exception):
    def __init__(self, msg, code=None):
        super().__init__(msg)
        self.msg, self.code = msg, code


def text(c):
    try:
        return str(c() if callable(c) else c)
    except Exception as e:  # noqa
        return f'<case description failed: {e!r}>'


class Ctx:
    def __init__(self, tier, shard_no):
        self.tier, self.shard_no = tier, shard_no
        self.states = 0          # configurations / model states visited
        self.transitions = 0     # calls of the real code compared with the model
        self.traces = 0          # complete cases / histories replayed on the implementation
        self.outcomes = {}       # distribution of expected outcomes (to read for vacuity)
        self.samples = []
        self.known = {}          # known-finding key -> (count, example)
        self.case = None
        self.capped = []
        self.seen = set()        # distinct canonical states (merged over the shards)

    def outcome(self, key, n=1):
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, str) else text(s))

    def fail(self, msg, code=None):
        raise Violation(msg, code if code is not None else text(self.case))

    def known_finding(self, key, example):
        n, ex = self.known.get(key, (0, None))
        self.known[key] = (n + 1, ex or text(example))

    def result(self, violation=None):
        return dict(shard=self.shard_no, states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=self.outcomes, samples=self.samples, known=self.known, violation=violation, capped=self.capped,
                    seen=self.seen)


def load_library():
    """Import every module of the library from the working tree (never from a .pyc or an installed copy)."""
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import pyrusgeom.geom_2d as g
    import pyrusgeom.convex_hull, pyrusgeom.polygon_2d, pyrusgeom.soccer_math, pyrusgeom.sector_2d  # noqa
    real = os.path.realpath(g.__file__)
    if not real.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError(f'pyrusgeom imported from {real}')
    return g


def _limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def _arm_watchdog(ctx):
    state = {'last': object(), 'n': -1}

    def on_tick(_sig, _frm):
        key = (ctx.states, ctx.transitions, ctx.traces)
        if ctx.case is state['last'] and key == state['n']:
            signal.setitimer(signal.ITIMER_PROF, 0)
            raise Violation(f'the call did not return within {HANG_CPU_S:.0f} s of CPU time', text(ctx.case))
        state['last'], state['n'] = ctx.case, key
    signal.signal(signal.SIGPROF, on_tick)
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S, HANG_CPU_S)


def run_shard(arg):
    modname, tier, no, shard = arg
    ctx = Ctx(tier, no)
    viol = None
    _arm_watchdog(ctx)
    try:
        mod = importlib.import_module(modname)
        with contextlib.redirect_stdout(io.StringIO()):
            mod.run(shard, ctx)
    except Violation as v:
        viol = dict(msg=v.msg, code=v.code)
    except RecursionError:
        viol = dict(msg='unbounded recursion', code=text(ctx.case))
    except Exception:  # noqa - an exception while evaluating a case is a failure of that case
        viol = dict(msg='unexpected exception:\n' + traceback.format_exc(limit=-6), code=text(ctx.case))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx.result(viol)


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p))['known'] if os.path.exists(p) else []


def main(argv):
    pid, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    modname = f'mc.props.{pid.lower()}'
    results, n_shards = [], 0
    title, bounds, assumptions = pid, '', []
    try:
        load_library()
        mod = importlib.import_module(modname)
        title, bounds, assumptions = mod.TITLE, mod.BOUNDS, list(mod.ASSUMPTIONS)
        shards = mod.shards(tier)
        n_shards = len(shards)
    except Exception:  # noqa - the library cannot even be imported / enumerated
        results = [dict(shard=0, states=0, transitions=0, traces=0, outcomes={}, samples=[], known={}, capped=[],
                        violation=dict(msg='the library could not be loaded:\n' + traceback.format_exc(limit=-6), code=''))]
        shards = []
    jobs = [(modname, tier, i, s) for i, s in enumerate(shards)]
    if jobs:
        procs = max(1, min(int(os.environ.get('MC_PROCS', os.cpu_count() or 1)), len(jobs)))
        stop_on_first = True     # a violation decides the verdict; shards not yet started are dropped
        if procs == 1:
            for j in jobs:
                results.append(run_shard(j))
                if stop_on_first and results[-1]['violation']:
                    break
        else:
            import concurrent.futures as cf
            with cf.ProcessPoolExecutor(procs, mp_context=multiprocessing.get_context('fork'), initializer=_limit_memory) as pool:
                futs = {pool.submit(run_shard, j): j[2] for j in jobs}
                for fut in cf.as_completed(futs):
                    try:
                        r = fut.result()
                    except cf.CancelledError:
                        continue
                    except Exception as e:  # noqa - the worker process was killed by the case it evaluated
                        r = Ctx(tier, futs[fut]).result(dict(msg=f'a worker process died in shard {jobs[futs[fut]][3]!r}: {e!r}', code=''))
                    results.append(r)
                    if stop_on_first and r['violation']:
                        for f in futs:
                            f.cancel()
    results.sort(key=lambda r: r['shard'])
    viols = [r for r in results if r['violation']]
    tot = {k: sum(r[k] for r in results) for k in ('states', 'transitions', 'traces')}
    seen = set()
    for r in results:
        seen |= r.get('seen', set())
    tot['states'] += len(seen)
    outcomes, known = {}, {}
    for r in results:
        for k, n in r['outcomes'].items():
            outcomes[str(k)] = outcomes.get(str(k), 0) + n
        for k, (n, ex) in r['known'].items():
            m, e = known.get(k, (0, ex))
            known[k] = (m + n, e)
    samples = []
    for r in results:
        samples += r['samples']
    step = max(1, len(samples) // 8)
    capped = sorted({c for r in results for c in r['capped']})
    listed = {k['key']: k for k in load_known() if k['property'] == pid}
    unlisted = [k for k in known if k not in listed]
    for k in unlisted:
        viols.append(dict(shard=-1, violation=dict(msg=f'defect {k} is not a listed finding', code=known[k][1])))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier='thorough' if tier == 'thorough' else 'quick', seed=seed, level='model_checking',
              coverage=dict(states=tot['states'], transitions=tot['transitions'],
                            traces_validated_against_impl=tot['traces'], shards=n_shards,
                            shards_completed=sum(1 for r in results if not r['violation']),
                            exhaustive=not viols and not capped, caps_hit=capped, bounds=bounds, outcomes=outcomes,
                            known_findings={k: v[0] for k, v in known.items()}, samples=samples[::step][:8]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print(f'{pid} {tier}: {title}')
    print(f'{pid}: states={tot["states"]} transitions={tot["transitions"]} traces={tot["traces"]} shards={n_shards} '
          f'outcomes={outcomes} wall={time.time() - t0:.1f}s')
    for k in sorted(known):
        if k in listed:
            print(f'KNOWN-FINDING: property={pid} {listed[k]["what"]} ({known[k][0]} configurations, e.g. {known[k][1].replace(chr(10), "; ")})')
    if viols:
        os.makedirs(os.path.join(OUT, 'out'), exist_ok=True)
        path = os.path.join(OUT, 'out', f'{pid}.py')
        v = viols[0]['violation']
        with open(path, 'w') as f:
            f.write(replay_script(pid, title, v))
        print(v['msg'])
        print(v['code'])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


def replay_script(pid, title, v):
    msg = '\n'.join('# ' + ln for ln in v['msg'].splitlines())
    return (f'# {pid}: {title}\n{msg}\n# Stand-alone replay of the failing case (PYTHONPATH=/repo/src python3 <this file>):\n'
            'from pyrusgeom.geom_2d import *\nfrom pyrusgeom.polygon_2d import *\nfrom pyrusgeom.convex_hull import *\n'
            'from pyrusgeom.soccer_math import *\nfrom pyrusgeom.sector_2d import *\nfrom pyrusgeom.size_2d import Size2D\n'
            f'{v["code"]}\n')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
