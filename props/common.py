"""Shared pieces of the thread-scenario properties."""

import copy

from sim import catalog, scenario
from sim.driver import Property, thread_candidates
from sim.values import same, show

POLICIES = (
    {'kind': 'geo', 'mean': 1.3},
    {'kind': 'geo', 'mean': 3},
    {'kind': 'geo', 'mean': 8},
    {'kind': 'geo', 'mean': 25},
    {'kind': 'geo', 'mean': 80},
    {'kind': 'burst', 'short': 0.5, 'mean': 60},
    {'kind': 'burst', 'short': 0.2, 'mean': 300},
)

CONFIGS = (
    None,
    None,
    None,
    {'errstate': {'all': 'raise'}},
    {'errstate': {'all': 'ignore'}},
    {'warnings': 'error'},
    {'warnings': 'always', 'errstate': {'divide': 'raise', 'invalid': 'warn'}},
    {'print': {'precision': 3, 'suppress': True, 'threshold': 4}},
    {'seed': 1234},
)


def draw_policy(rng, n_threads):
    policy = dict(rng.choice(POLICIES))
    if n_threads > 1 and rng.random() < 0.3:
        policy['stall'] = rng.randrange(n_threads)
        policy['stall_p'] = rng.choice((0.7, 0.95, 1.0))
    return policy


def total_cost(ops):
    return sum(60 if (op['f'], op['n'], op.get('c')) == ('cm', 'best_fit', 'Cylinder') else 1 for op in ops)


def draw_ops(gen, rng, n, hot=None, hot_p=0.6, twin_p=0.3, families=None):
    """Operations, biased to a few hot templates and to twins of earlier operations."""
    ops = []
    heavy = 0
    while len(ops) < n:
        if ops and rng.random() < twin_p:
            op = gen.twin(rng.choice(ops))
        elif hot and rng.random() < hot_p:
            op = gen.op(rng.choice(hot))
        else:
            op = gen.op(families=families)
        cost = total_cost([op])
        if cost > 1 and heavy >= 1:
            continue
        heavy += cost > 1
        ops.append(op)
    return ops


def draw_hot(gen, rng, families=None, n=2):
    """Templates a scenario concentrates on; each template is equally likely."""
    chosen = sorted({id(t): t for t in catalog.usable(gen.dim, families)}.values(), key=lambda t: t.label)
    hot = [t for t in rng.sample(chosen, min(n, len(chosen)))]
    return hot


def op_names(scn):
    out = {}
    for ops in scn['threads']:
        for op in ops:
            name = op['n'] if op['f'] in ('new', 'fn') else f'{op.get("c") or _cls(scn, op)}.{op["n"]}'
            out[name] = out.get(name, 0) + 1
    return out


def _cls(scn, op):
    spec = op.get('r') or (op['a'][0] if op['a'] else {})
    if spec.get('k') == 'ref':
        if spec.get('path'):
            return 'Vector' if spec['path'][-1] in ('vector', 'direction', 'normal') else 'Point'
        spec = scn['pool'].get(spec['n'], {})
    return spec.get('c', '?')


class ThreadProperty(Property):
    """A property decided on scenarios of threads performing operations on shared objects."""

    step_cap = 6_000_000

    def execute(self, scn):
        import os
        import sys

        sys.stderr = open(os.devnull, 'w')
        world = scenario.World(scn)
        scenario.Configured.process(scn.get('config'))
        world.build_pool()
        world.prepare_ops()
        world.warm_up()
        observers, after_op, after_thread = self.instruments(world)
        world.run(observers=observers, after_op=after_op, after_thread=after_thread, step_cap=self.step_cap)
        self.finish(world)
        return world.report()

    def instruments(self, world):
        return (), (), ()

    def finish(self, world):
        pass

    def candidates(self, scn):
        return thread_candidates(scn)

    def specs_of(self, scn, key):
        """The operation a result belongs to."""
        t, path = key
        op = scn['threads'][t][path[0]]
        rest = path[1:]
        while rest:
            fault_id, j = rest[0], rest[1]
            fault = next(f for f in scn['faults'] if f['kind'] == 'nest' and f['id'] == fault_id)
            op = fault['ops'][j]
            rest = rest[2:]
        return op

    def differences(self, ctx, scn, result, skip=()):
        """Outcomes that differ from the same operation run alone."""
        out = []
        for key in sorted(result['results'], key=str):
            if key in skip:
                continue
            op = self.specs_of(scn, key)
            expected = ctx.refs.get(op, scn['pool'], scn.get('config'))
            got = result['results'][key]
            if got == expected or same(got, expected):
                continue
            out.append((key, op, expected, got))
        return out

    def generic(self, ctx, scn, result, skip=()):
        out = []
        if result['deadlock']:
            out.append(('deadlock', 'a thread waits for a lock that nobody will release'))
        if result['overrun']:
            out.append(('livelock', f'not finished after {result["steps"]} steps'))
        for key, op, expected, got in self.differences(ctx, scn, result, skip):
            if got[0] == 'raise' and got[1][1] == 'SimDeadlock':
                continue
            out.append((
                'wrong-outcome',
                f'thread {key[0]} operation {list(key[1])} {catalog.describe(op)}: {show(got)}; alone: {show(expected)}',
            ))
        return out

    def measures(self, scn, result):
        fired = {}
        for f in result['fired']:
            fired[f['kind']] = fired.get(f['kind'], 0) + 1
        return {
            'steps': result['steps'],
            'context_switches': result['switches'],
            'operations': len(result['results']),
            'threads': {str(len(scn['threads'])): 1},
            'faults_injected': fired,
            'operations_by_name': op_names(scn),
            'operations_raising': sum(1 for o in result['results'].values() if o[0] == 'raise'),
        }

    def state_key(self, scn, result):
        return result['hash']

    def sample(self, scn, result):
        return scn


def near(ctx, events, p, rng):
    """Event numbers near code that touches lasting state, with some probability; else nothing."""
    if ctx.focus and rng.random() < p:
        return set(ctx.focus.window(events))
    return set()


def draw_site(rng, sites):
    """One occurrence of one code location; locations are equally likely."""
    site = rng.choice(sorted(sites))
    return rng.choice(sites[site][:40])


def guarded(ctx, events, p, rng):
    """Event numbers inside one statement that deals with errors, with some probability; else nothing."""
    if ctx.focus is not None and ctx.focus.guards and rng.random() < p:
        blocks = ctx.focus.guarded(events)
        if blocks:
            return set(blocks[rng.choice(sorted(blocks))])
    return set()


def draw_abort(ctx, rng, scn_pool, op, config, kinds, p=0.75):
    """A fault position inside the operation at which the kind of fault can really occur: (at, kind) or None."""
    from sim import engine

    events, total = ctx.profiles.get(op, scn_pool, config)
    kind = rng.choice(kinds)
    allowed = engine.ASYNC_KINDS if kind in engine.ASYNC else engine.SYNC_KINDS
    chosen = guarded(ctx, events, 0.3, rng) or near(ctx, events, p, rng)
    sites, marked = {}, {}
    for n, (k, number, x, callee) in enumerate(events, 1):
        if k in allowed and callee not in engine.PROTECTED:
            sites.setdefault((k, number, x), []).append(n)
            if n in chosen:
                marked.setdefault((k, number, x), []).append(n)
    if not sites:
        return None
    return draw_site(rng, marked or sites), kind


def draw_point(ctx, rng, scn_pool, op, config, p=0.75, prelude=()):
    """Any event inside the operation: its number, or None."""
    from sim import engine

    events, total = ctx.profiles.get(op, scn_pool, config, prelude)
    chosen = near(ctx, events, p, rng)
    sites, marked = {}, {}
    for n, (k, number, x, callee) in enumerate(events, 1):
        if callee not in engine.PROTECTED:
            sites.setdefault((k, number, x), []).append(n)
            if n in chosen:
                marked.setdefault((k, number, x), []).append(n)
    if not sites:
        return None
    return draw_site(rng, marked or sites)


def hot_templates(ctx, dim, families):
    """Operations that run code touching lasting state (see sim/focus.py); none on code without any."""
    return ctx.focus.hot_templates(dim, families) if ctx.focus else []


def draw_dim(ctx, rng, dims, families):
    """A dimension, preferring those with operations worth looking at."""
    if ctx.focus and rng.random() < 0.75:
        weighted = [d for d in dims if hot_templates(ctx, d, families)]
        if weighted:
            return rng.choice(weighted)
    return rng.choice(dims)


def leading(ctx, rng, gen, families, fallback, p=0.7, guard=0.0):
    """The template a run is about."""
    if ctx.focus is not None and rng.random() < guard:
        statements = ctx.focus.guarded_templates(gen.dim, families)
        if statements:
            return rng.choice(rng.choice(statements))
    hot = hot_templates(ctx, gen.dim, families)
    if hot and rng.random() < p:
        return rng.choice(hot)
    return fallback


def reaching(ctx, gen, template, config=None, tries=8):
    """An operation of the template that really comes near such code, if one is found."""
    for _ in range(tries):
        op = gen.op(template)
        if not ctx.focus or ctx.focus.window(ctx.profiles.get(op, gen.pool, config)[0]):
            break
    return op


def spread(index, size=8, lanes=8):
    """Numbers the runs so that `size` of them share one set of operations: (group, member)."""
    block, lane = divmod(index, lanes)
    group, member = divmod(block, size)
    return group * lanes + lane, member


# Events within which an operation ends, unless it waits for another thread in a busy loop.
REST = 500_000


def draw_prelude(ctx, rng, gen, ops, config=None):
    """Calls made before the scenario starts, on ever new values: bounded caches are full, pools are in use."""
    base = [op for op in ops if op['f'] not in ('write', 'sattr', 'figure') and total_cost([op]) == 1]
    if not base or rng.random() >= (0.35 if ctx.focus else 0.04):
        return []
    n = max(1, rng.choice((2, 4, 8, 16, 16, 32, 32, 64, 64, 128, 128, 256)) + rng.randint(-3, 1))
    main = base if rng.random() < 0.4 else base[:1]
    to_limit = ctx.focus and rng.random() < 0.8
    # The calls made before may include the calls to come, some of them, or none: a hit in one thread, a miss in another.
    included = rng.choice((base, base[:1], base[:1], base[:1], base[1:], []))
    out = [copy.deepcopy(op) for op in included]

    def vary(n):
        while len(out) < n:
            op = rng.choice(main)
            for _ in range(rng.choice((1, 2, 2, 3))):
                op = gen.twin(op)
            out.append(op)

    if to_limit:
        # As many calls as bring something the library keeps to its limit.
        for size in (40, 300):
            vary(size)
            grown, limits = ctx.fillings.get(out, gen.pool, config)
            if limits:
                return out[:max(0, (limits[0] if rng.random() < 0.6 else rng.choice(limits[:4])) + rng.choice((-1, 0, 0, 0, 1)))]
            if not grown:
                return []
    vary(n)
    return out[:max(n, len(base))]


ABORT_KINDS = ('KeyboardInterrupt', 'Cancelled', 'CancelledError', 'TimeoutError', 'Signalled', 'MemoryError',
               'RecursionError', 'SystemExit')
