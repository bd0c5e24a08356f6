"""Search driver: seeded batch of cases over a pool of forked workers, minimiser, replay, evidence."""

import argparse
import gc
import collections
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from sim import kernel

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


def case_rng(prop, seed, i):
    h = hashlib.sha256(f'{prop}:{seed}:{i}'.encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def matches(known, v):
    return v['kind'] == known['kind'] and all(s in v['detail'] for s in known.get('detail_contains', []))


def split_known(known, violations):
    new, old = [], []
    for v in violations:
        hit = next((k for k in known if matches(k, v)), None)
        (old if hit else new).append((v, hit) if hit else v)
    return new, old


def run_isolated(module, case, limit=600):
    """run_case in a forked child, so the zygote stays pristine."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            res = kernel.run_case(module, case)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
        except BaseException:
            traceback.print_exc()
            os._exit(97)
        os._exit(0)
    os.close(w)
    chunks = []
    end = time.monotonic() + limit
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.close(r)
            os.waitpid(pid, 0)
            return dict(violations=[], harness='case exceeded its wall-clock limit', wall=limit)
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        return dict(violations=[], harness='case process died', wall=0)
    return pickle.loads(data)


# --------------------------------------------------------------------------------------------------
def _worker(module, seed, tier, indices, wfd, deadline):
    out = os.fdopen(wfd, 'wb')

    def put(obj):
        b = pickle.dumps(obj)
        out.write(struct.pack('>I', len(b)) + b)
        out.flush()

    for i in indices:
        if time.monotonic() > deadline:
            break
        try:
            case = module.gen(case_rng(module.ID, seed, i), i, tier)
            case = json.loads(json.dumps(case))  # what a replay file would hold
        except Exception:
            put((i, None, dict(violations=[], harness='gen: ' + traceback.format_exc(), wall=0)))
            continue
        put((i, case, kernel.run_case(module, case)))
    put(None)
    out.close()


def run_batch(module, seed, tier, n, workers, deadline, hard, on_result):
    """Cases 0..n-1 spread over workers; calls on_result(i, case, res). Returns a list of errors."""
    procs = {}
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for fd in procs:
                    os.close(fd)
                _worker(module, seed, tier, range(k, n, workers), w, deadline)
            except BaseException:
                traceback.print_exc()
                code = 97
            os._exit(code)
        os.close(w)
        procs[r] = [pid, b'', False]
    errors = []
    while procs:
        left = hard - time.monotonic()
        if left <= 0:
            for fd, (pid, _, _) in procs.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            errors.append('hard wall-clock limit reached; workers killed')
            break
        ready, _, _ = select.select(list(procs), [], [], min(left, 5.0))
        for fd in ready:
            b = os.read(fd, 1 << 20)
            ent = procs[fd]
            if not b:
                os.close(fd)
                _, st = os.waitpid(ent[0], 0)
                if not ent[2]:
                    errors.append(f'a worker ended early (status {st})')
                del procs[fd]
                continue
            buf = ent[1] + b
            while len(buf) >= 4:
                (ln,) = struct.unpack('>I', buf[:4])
                if len(buf) < 4 + ln:
                    break
                obj = pickle.loads(buf[4 : 4 + ln])
                buf = buf[4 + ln :]
                if obj is None:
                    ent[2] = True
                else:
                    on_result(*obj)
            ent[1] = buf
    return errors


# --------------------------------------------------------------------------------------------------
def minimise(module, case, kind, known, budget=90.0, quiet=False):
    """Greedy delta debugging on the case's lists, then the module's own simplifications."""
    end = time.monotonic() + budget
    tried = 0

    def bad(c):
        nonlocal tried
        if time.monotonic() > end:
            return False
        tried += 1
        res = run_isolated(module, c)
        new, _ = split_known(known, res['violations'])
        return any(v['kind'] == kind for v in new)

    best = copy.deepcopy(case)
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for key in getattr(module, 'SHRINK', ('faults', 'ops')):
            lst = best.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and time.monotonic() < end:
                i = 0
                while i < len(best[key]) and time.monotonic() < end:
                    c = copy.deepcopy(best)
                    del c[key][i : i + size]
                    if bad(c):
                        best = c
                        changed = True
                    else:
                        i += size
                size //= 2
        simp = getattr(module, 'simplify', None)
        if simp is not None:
            again = True
            while again and time.monotonic() < end:
                again = False
                for c in simp(copy.deepcopy(best)):
                    if c != best and bad(c):
                        best = c
                        again = changed = True
                        break
    return best, tried


def write_replay(prop, case, v, extra=None):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, kind=v['kind'], detail=v['detail'], case=case, **(extra or {}))
    h = hashlib.sha1(json.dumps([v['kind'], case], sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, f'{prop}-{h}.json')
    with open(p, 'w') as f:
        json.dump(body, f, indent=1)
    return p


def replay(module, path):
    d = json.load(open(path))
    res = run_isolated(module, d['case'])
    if res['harness']:
        print('HARNESS-ERROR:', res['harness'])
        return 2
    for v in res['violations']:
        print(f"  {v['kind']}: {v['detail']}")
    print('digest', res['digest'])
    if any(v['kind'] == d['kind'] for v in res['violations']):
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print('the recorded violation did not occur')
    return 0


# --------------------------------------------------------------------------------------------------
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('AVSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--digests', help='write one event-log digest per case to this file; no evidence')
    ap.add_argument('--show', type=int, help='print case number N')
    ap.add_argument('--only', type=int, help='run only case number N, printing its violations')
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.monotonic()
    print(f'seed={a.seed} property={a.prop} tier={a.tier} workers={a.workers}', flush=True)
    os.makedirs(kernel.SCRATCH, exist_ok=True)
    module = importlib.import_module(f'sim.props.{a.prop.lower()}')
    if hasattr(module, 'setup'):
        module.setup(a.tier)
    gc.collect()
    gc.freeze()
    setup_s = time.monotonic() - t0

    if a.replay:
        return replay(module, a.replay)
    if a.show is not None:
        print(json.dumps(module.gen(case_rng(a.prop, a.seed, a.show), a.show, a.tier), indent=1))
        return 0
    if a.only is not None:
        case = json.loads(json.dumps(module.gen(case_rng(a.prop, a.seed, a.only), a.only, a.tier)))
        os.environ['AVSIM_KEEP_LOG'] = '1'
        res = run_isolated(module, case)
        for e in res.get('log') or []:
            print('  ', str(e)[:400])
        print(json.dumps({k: v for k, v in res.items() if k not in ('states', 'log')}, indent=1, default=str))
        return 1 if res['violations'] else 0

    cfg = module.TIERS[a.tier]
    n = a.cases or cfg['cases']
    budget = a.budget or cfg['budget']
    known = load_known(a.prop)

    agg = dict(counts=collections.Counter(), faults=collections.Counter(), planned=collections.Counter())
    states, sigs, digests, samples, found, harness = set(), set(), {}, [], [], []
    done = [0, 0, 0.0, 0.0]
    known_hits = {}

    def on_result(i, case, res):
        done[0] += 1
        done[2] += res['wall']
        if res['harness']:
            harness.append((i, res['harness']))
        for k in ('counts', 'faults', 'planned'):
            agg[k].update(res.get(k) or {})
        done[3] += res.get('sim_time', 0.0)
        states.update(res.get('states') or ())
        if res.get('digest'):
            digests[i] = res['digest']
            if res['nontrivial']:
                done[1] += 1
                sigs.add(res['digest'])
        if case is not None and len(samples) < 3 and (res.get('nontrivial') and i % 7 in (1, 2, 4)):
            samples.append(dict(index=i, case=case, log_digest=res.get('digest'), faults=res.get('faults')))
        new, old = split_known(known, res['violations'])
        for v, k in old:
            known_hits.setdefault(k['id'], v)
        if new:
            found.append((i, case, new))

    start = time.monotonic()
    errors = run_batch(module, a.seed, a.tier, n, a.workers, start + budget, start + budget + cfg.get('grace', 240), on_result)

    if a.digests:
        with open(a.digests, 'w') as f:
            for i in sorted(digests):
                f.write(f'{i} {digests[i]}\n')
        print(f'{len(digests)} digests, violations in {len(found)} cases, harness errors {len(harness)} {errors}')
        return 0 if not harness and not errors else 2

    # reproduce the listed findings on their own
    for k in known:
        if k['id'] not in known_hits and 'case' in k:
            res = run_isolated(module, k['case'])
            for v in res['violations']:
                if matches(k, v):
                    known_hits[k['id']] = v
    for k in known:
        if k['id'] in known_hits:
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")

    found.sort(key=lambda t: t[0])
    reported, n_viol = set(), sum(len(v) for _, _, v in found)
    for i, case, vs in found:
        for v in vs:
            if v['kind'] in reported or len(reported) >= (6 if a.keep_going else 2):
                continue
            reported.add(v['kind'])
            print(f"case {i} seed {a.seed}: {v['kind']}: {v['detail']}", flush=True)
            small, tried = minimise(module, case, v['kind'], known, budget=cfg.get('minimise', 60.0))
            res = run_isolated(module, small)
            v2 = next((x for x in res['violations'] if x['kind'] == v['kind']), v)
            path = write_replay(a.prop, small, v2, dict(seed=a.seed, index=i, tier=a.tier, minimise_runs=tried, log_digest=res.get('digest')))
            rc = subprocess.run([os.path.join(VERIF, 'check.sh'), a.prop, '--replay', path], capture_output=True, text=True)
            note = '' if rc.returncode == 1 else f' (note: replay in a fresh process ended with {rc.returncode})'
            print(f"  minimised ({tried} runs): {v2['kind']}: {v2['detail']}{note}")
            print(f'VIOLATION property={a.prop} replay={path}', flush=True)

    wall = time.monotonic() - t0
    ev = dict(
        property=a.prop, tier=a.tier, seed=a.seed, level='exploration',
        coverage=dict(
            evaluations=done[0],
            distinct_nontrivial=len(sigs),
            rule=module.RULE,
            samples=samples or [dict(note='no non-trivial case')],
            simulated_runs=done[0],
            runs_per_hour=round(done[0] / max(1e-9, time.monotonic() - start) * 3600),
            seeds_per_hour=round(done[0] / max(1e-9, time.monotonic() - start) * 3600),
            simulated_seconds=round(done[3], 1),
            simulated_processes=agg['counts'].get('processes', 0),
            io_steps=agg['counts'].get('io_steps', 0),
            faults_fired=dict(sorted(agg['faults'].items())),
            faults_planned=dict(sorted(agg['planned'].items())),
            probes={k: v for k, v in sorted(agg['counts'].items()) if k not in ('processes', 'io_steps')},
            distinct_states=len(states),
            state_measure=getattr(module, 'STATE_MEASURE', 'hash of the observed outcome after each step'),
            distinct_event_logs=len(set(digests.values())),
            real_components=module.REAL,
            stubbed_components=module.STUB,
            workers=a.workers, setup_s=round(setup_s, 1), cpu_s_in_cases=round(done[2], 1),
            harness_errors=len(harness) + len(errors),
            known_findings_seen=sorted(known_hits),
        ),
        assumptions=list(module.ASSUMPTIONS),
        wall_s=round(wall, 1),
        violations=n_viol,
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{done[0]} runs, {len(sigs)} distinct non-trivial, faults fired {sum(agg["faults"].values())}, '
          f'violations {n_viol}, harness errors {len(harness) + len(errors)}, {wall:.1f} s')
    if n_viol:
        return 1
    for i, h in harness[:3]:
        print(f'HARNESS-ERROR case {i}: {h}')
    for e in errors:
        print('HARNESS-ERROR', e)
    if harness or errors:
        return 2
    floor = cfg.get('floor', max(1, n // 10))
    if done[0] < floor:
        print(f'HARNESS-ERROR only {done[0]} of {n} runs within the time budget')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
