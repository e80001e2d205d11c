"""Proves that one seed is one execution: the same runs in different processes, compared event log by event log."""

import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time

from . import driver, scenario

# (workers, PYTHONHASHSEED) of the fresh interpreters whose logs are compared.
SETTINGS = ((8, '0'), (3, '0'), (5, '4711'))


def canonical(x):
    if isinstance(x, dict):
        return {repr(k): canonical(v) for k, v in sorted(x.items(), key=lambda item: repr(item[0])) if k != 'hash'}
    if isinstance(x, (set, frozenset)):
        return sorted(repr(canonical(y)) for y in x)
    if isinstance(x, (list, tuple)):
        return [canonical(y) for y in x]
    return repr(x)


def dump(prop, seed, count, path):
    """Run the first `count` runs of a seed and write a digest of everything recorded in each."""
    driver.prepare_process(prop)

    def part(out, k):
        ctx = driver.Context(prop, seed)
        for index in range(k, count, driver.WORKERS):
            run_seed = driver.derive(seed, prop.id, index)
            scn = prop.generate(ctx, random.Random(run_seed), index, 'quick')
            if scn is None:
                continue
            scn = driver._canon(scn)
            scn.setdefault('seed', run_seed)
            result, violations = driver.run_once(prop, ctx, scn)
            # The written-out schedule is the same execution.
            pinned = driver._canon(prop.pin(scn, result)) if 'crash' not in result else scn
            if pinned != scn:
                again, verdict = driver.run_once(prop, ctx, pinned)
                if (again.get('hash'), canonical(again.get('results')), verdict) != (
                        result.get('hash'), canonical(result.get('results')), violations):
                    raise RuntimeError(f'run {index} is not reproduced by its written-out schedule: {json.dumps(pinned)[:3000]}')
            body = json.dumps([scn, canonical(result), canonical(violations)], sort_keys=True)
            out({'index': index, 'digest': hashlib.sha256(body.encode()).hexdigest(), 'body': body if count <= 500 else None})

    fns = [(lambda out, k=k: part(out, k)) for k in range(driver.WORKERS)]
    records = {}
    for r in driver.gather(fns, time.monotonic() + 3600):
        records[r['index']] = [r['digest'], r['body']]
    with open(path, 'w') as f:
        json.dump(records, f)
    return 0


def determinism(prop, seed, count):
    target = os.environ.get('VERIF_DUMP')
    if target:
        return dump(prop, seed, count, target)
    logs = []
    with tempfile.TemporaryDirectory(prefix='verif_det_') as folder:
        for i, (workers, hashseed) in enumerate(SETTINGS):
            env = {k: v for k, v in os.environ.items() if k not in ('VERIF_BOOTED', 'VERIF_MPLCONFIGDIR')}
            path = os.path.join(folder, f'{i}.json')
            env.update(VERIF_DUMP=path, VERIF_WORKERS=str(workers), PYTHONHASHSEED=hashseed)
            argv = [sys.executable, os.path.join(driver.VERIF, 'check.py'), prop.id, '--determinism', '--seed', str(seed), '--count', str(count)]
            subprocess.run(argv, env=env, check=True)
            logs.append(json.load(open(path)))
    bad = sorted({k for log in logs[1:] for k in logs[0] if log.get(k, [None])[0] != logs[0][k][0]}, key=int)
    for k in bad[:10]:
        print(f'run {k} differs: {[log.get(k, [None])[0][:12] for log in logs]}')
        bodies = [log[k][1] for log in logs]
        for body in bodies[1:]:
            if bodies[0] and body != bodies[0]:
                at = next(i for i in range(min(len(body), len(bodies[0]))) if body[i] != bodies[0][i])
                print('   ', bodies[0][max(0, at - 300):at + 200], '\n -->', body[max(0, at - 300):at + 200])
    print(f'{prop.id}: {len(logs[0])} runs of seed {seed} under {SETTINGS}: {len(bad)} differ')
    return 1 if bad else 0
