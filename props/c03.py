"""C03: a call aborted at any point leaves no trace and blocks nobody."""

import copy

from sim import catalog, scenario
from sim.focus import distinct
from sim.values import names_in, same, show

from . import c07
from .common import (
    ABORT_KINDS, CONFIGS, REST, ThreadProperty, draw_abort, draw_dim, draw_ops, draw_point, draw_policy, draw_prelude,
    hot_templates, leading, reaching,
)

FAMILIES = ('query', 'new', 'py', 'plotter')


class Prop(ThreadProperty):
    id = 'C03'
    level = 'fault_enumeration'
    guarded = True
    runs = {'quick': 12000, 'thorough': 150_000}
    budget = {'quick': 160, 'thorough': 1800}
    rule = (
        'A run aborts one to three public operations, each at a seeded point where the interpreter can deliver the '
        'exception (function entries and call returns for asynchronous kinds, calls for memory and stack exhaustion), '
        'and goes on (holding on to the objects of the aborted call, or updating operands in place, at times): the same call again, twins of it and other calls on the same operands, from the same and from '
        'other threads. The abort must be what the caller sees; all else must equal the same call alone. Non-trivial: '
        'an abort fired inside an operation.'
    )
    assumptions = (
        'Aborts are not delivered inside the acquire, release, enter or exit of a lock or context manager, a hazard '
        'of the language itself.',
    )

    def generate(self, ctx, rng, index, tier):
        gen = catalog.Gen(rng, dim=draw_dim(ctx, rng, (2, 2, 3, 3, 3, 3, 3, 1, 4), FAMILIES), n_pool=rng.randint(1, 5),
                          shared=rng.choice((0.9, 0.6)))
        chosen = distinct(gen.dim, FAMILIES)
        t0 = leading(ctx, rng, gen, FAMILIES, chosen[index % len(chosen)], guard=0.15)
        config = rng.choice(CONFIGS) if rng.random() < 0.3 else None
        victim = reaching(ctx, gen, t0, config)
        roll = rng.random()
        if roll < 0.18:
            scn = self.evolving(ctx, rng, gen, t0, victim, config)
        elif roll < 0.36:
            scn = self.handed_over(ctx, rng, gen, t0, victim, config)
        else:
            scn = self.scattered(ctx, rng, gen, t0, victim, config)
        scn['prelude'] = draw_prelude(ctx, rng, gen, [victim] + [op for ops in scn['threads'] for op in ops], config)
        return scn

    def follow_up(self, ctx, rng, gen, t0, victim):
        """A call made after the aborted one."""
        hot = hot_templates(ctx, gen.dim, FAMILIES)
        how = rng.choice(('again', 'again', 'twin', 'hot', 'hot', 'mirror', 'other', 'other'))
        if how == 'again':
            return copy.deepcopy(victim)
        if how == 'twin':
            return gen.twin(victim)
        if how == 'mirror':
            return gen.mirror(victim) or gen.twin(victim)
        if how == 'hot':
            return gen.op(rng.choice(hot) if hot and rng.random() < 0.5 else t0)
        return draw_ops(gen, rng, 1, None, 0, 0, FAMILIES)[0]

    def scattered(self, ctx, rng, gen, t0, victim, config):
        """One to three threads under a random schedule."""
        n = rng.choice((1, 1, 1, 2, 2, 3))
        threads = []
        faults = []
        for t in range(n):
            if t == 0:
                ops = []
                if rng.random() < 0.5:
                    ops += draw_ops(gen, rng, 1, [t0], 0.7, 0, FAMILIES)
                ops.append(victim)
                at = len(ops) - 1
                ops += [self.follow_up(ctx, rng, gen, t0, victim) for _ in range(rng.randint(2, 4))]
                targets = [at] + [i for i in range(at + 1, len(ops)) if rng.random() < 0.25]
            else:
                ops = [gen.twin(victim) if rng.random() < 0.5 else copy.deepcopy(victim)]
                ops += draw_ops(gen, rng, rng.choice((0, 1, 2)), [t0], 0.6, 0.2, FAMILIES)
                targets = [i for i in range(len(ops)) if rng.random() < 0.2]
            for i in targets:
                drawn = draw_abort(ctx, rng, gen.pool, ops[i], config, ABORT_KINDS)
                if drawn:
                    faults.append({'t': t, 'op': [i], 'at': drawn[0], 'kind': drawn[1]})
            threads.append(ops)
        return {'pool': gen.pool, 'threads': threads, 'policy': draw_policy(rng, n), 'config': config, 'faults': faults}

    def handed_over(self, ctx, rng, gen, t0, victim, config):
        """The call is aborted on one thread; another thread goes on, from then or from a little before."""
        if rng.random() < 0.4:
            victim = gen.share(victim)
        first = [victim]
        main = 0
        if rng.random() < 0.25:
            first.insert(0, self.follow_up(ctx, rng, gen, t0, victim))
            main = 1
        if rng.random() < 0.4:
            first.append(self.follow_up(ctx, rng, gen, t0, victim))
        second = [self.follow_up(ctx, rng, gen, t0, victim) for _ in range(rng.choice((1, 1, 2)))]
        heavy = [op for op in first + second if op.get('c') == 'Cylinder' and op['n'] == 'best_fit']
        if len(heavy) > 3:
            second = second[:1]
        faults = []
        drawn = draw_abort(ctx, rng, gen.pool, victim, config, ABORT_KINDS, 0.9)
        if drawn:
            faults.append({'t': 0, 'op': [main], 'at': drawn[0], 'kind': drawn[1]})
        segments = []
        if rng.random() < 0.4:
            # The second thread is already inside its call when the first one's is aborted.
            at = draw_point(ctx, rng, gen.pool, second[0], config, 0.9)
            if at and at > 1:
                segments.append([1, at - 1])
        segments += [[0, REST], [1, REST], [0, REST]]
        return {'pool': gen.pool, 'threads': [first, second], 'segments': segments, 'policy': None, 'config': config, 'faults': faults}

    def evolving(self, ctx, rng, gen, t0, victim, config):
        """The owner changes operands in place between the aborted call and later ones."""
        if rng.random() < 0.6:
            victim = gen.share(victim)
        c07._unlock(victim)
        for spec in gen.pool.values():
            c07._unlock(spec)
        ops = []
        if rng.random() < 0.5:
            ops.append(copy.deepcopy(victim) if rng.random() < 0.6 else self.follow_up(ctx, rng, gen, t0, victim))
        specs = dict(gen.pool)
        faults = []
        for _ in range(rng.choice((1, 1, 2))):
            drawn = draw_abort(ctx, rng, specs, victim, config, ABORT_KINDS, 0.9)
            if drawn:
                faults.append({'t': 0, 'op': [len(ops)], 'at': drawn[0], 'kind': drawn[1]})
            ops.append(copy.deepcopy(victim))
            for _ in range(rng.choice((1, 1, 2))):
                step = c07.Prop().mutation(rng, specs, [victim])
                if step is None:
                    continue
                after = c07.evolve(specs, step)
                if c07.valid(after, step['n']):
                    if rng.random() < 0.3:
                        ops.append(copy.deepcopy(victim))
                    specs = after
                    ops.append({'f': 'write', 'n': 'write', 'r': {'k': 'ref', 'n': step['n']}, 'a': [], 'step': step})
            ops.append(copy.deepcopy(victim))
            if rng.random() < 0.5:
                ops.append(self.follow_up(ctx, rng, gen, t0, victim))
        for name, spec in gen.pool.items():
            c07._unlock(spec)
        return {'pool': gen.pool, 'threads': [ops], 'policy': None, 'config': config, 'faults': faults, 'evolving': True}

    def instruments(self, world):
        if world.scn.get('evolving'):
            return (), (), ()
        look, after = scenario.watch_operands(world)
        return (), [after], ()

    def judge(self, ctx, scn, result):
        out = []
        aborted = set()
        for n, f in enumerate(result['fired']):
            key = (f['t'], tuple(f['op']))
            aborted.add(key)
            if result['matched'].get(key) != n:
                got = result['results'].get(key)
                out.append((
                    'abort-lost',
                    f'{f["kind"]} delivered in {f["in"]} ({f["event"]}, event {f["at"]}) during '
                    f'{catalog.describe(self.specs_of(scn, key))} did not reach the caller: '
                    f'{show(got) if got else "no outcome"}',
                ))
        if scn.get('evolving'):
            return out + self.judge_evolving(ctx, scn, result, aborted)
        for note in result['notes']:
            out.append(('operand-changed', f'{note["label"]} changed by an aborted or later call: {note["before"]} -> {note["now"]}'))
        return out + self.generic(ctx, scn, result, skip=aborted)

    def judge_evolving(self, ctx, scn, result, aborted):
        out = []
        if result['deadlock'] or result['overrun']:
            return self.generic(ctx, scn, result, skip=set(result['results']))
        without = None
        specs = scn['pool']
        unusable = set()
        for i, op in enumerate(scn['threads'][0]):
            key = (0, (i,))
            got = result['results'].get(key)
            if op['f'] == 'write':
                specs = c07.evolve(specs, op['step'])
                if got is None or got[0] == 'raise':
                    unusable.add(op['r']['n'])
                continue
            names = names_in(op)
            if got is None or key in aborted or names & unusable:
                continue
            if any(not c07.valid(specs, n) and scn['pool'][n] is not specs[n] for n in names):
                continue
            expected = ctx.refs.get(op, specs, scn.get('config'))
            if got == expected or same(got, expected):
                continue
            # Is it the abort that made the difference?
            if without is None:
                without = scenario.forked(lambda: self.execute(dict(scn, faults=[])), self.child_timeout)['results']
            if same(got, without.get(key)):
                continue
            out.append((
                'wrong-outcome',
                f'operation {i} {catalog.describe(op)} after an aborted call and a change of an operand: {show(got)}; '
                f'on fresh operands with the same values: {show(expected)}',
            ))
        return out

    def nontrivial(self, scn, result):
        return bool(result['fired'])

    def measures(self, scn, result):
        out = super().measures(scn, result)
        out['abort_sites'] = {}
        for f in result['fired']:
            site = f'{f["in"]}/{f["event"]}'
            out['abort_sites'][site] = out['abort_sites'].get(site, 0) + 1
        return out
