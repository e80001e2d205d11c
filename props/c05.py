"""C05: a call nested inside another interrupted call disturbs neither."""

import copy

from sim import catalog
from sim.values import show

from .common import CONFIGS, ThreadProperty, draw_dim, draw_ops, draw_point, draw_policy, draw_prelude, hot_templates, leading, reaching


class Prop(ThreadProperty):
    id = 'C05'
    level = 'fault_enumeration'
    runs = {'quick': 10000, 'thorough': 150_000}
    budget = {'quick': 160, 'thorough': 1800}
    rule = (
        'A run interrupts public operations at seeded events (any line, call, return, function entry of library code) '
        'with code on the same thread that performs one to three further operations - the same one on the same or other '
        'operands, twins, others - possibly interrupted in turn, possibly ending with an exception that aborts the '
        'outer call, possibly while other threads run. Every outcome is compared with the same call alone. '
        'Non-trivial: a nested call ran inside an operation.'
    )

    def generate(self, ctx, rng, index, tier):
        families = ('query', 'new', 'py', 'plotter')
        gen = catalog.Gen(rng, dim=draw_dim(ctx, rng, (2, 2, 3, 3, 3, 3, 3, 1, 4), families), n_pool=rng.randint(1, 5),
                          shared=rng.choice((0.9, 0.6, 0.3)))
        chosen = sorted({id(t): t for t in catalog.usable(gen.dim, families)}.values(), key=lambda t: t.label)
        t0 = leading(ctx, rng, gen, families, chosen[index % len(chosen)])
        hot = hot_templates(ctx, gen.dim, families)
        config = rng.choice(CONFIGS) if rng.random() < 0.3 else None
        n = rng.choice((1, 1, 1, 1, 2))
        threads = []
        faults = []

        def nested_ops(outer):
            ops = []
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                roll = rng.random()
                if roll < 0.3:
                    ops.append(gen.twin(outer))
                elif roll < 0.5:
                    ops.append(gen.op(t0))
                elif roll < 0.6:
                    ops.append(gen.op(rng.choice(hot or [t0])))
                elif roll < 0.7:
                    ops.append(copy.deepcopy(outer))
                else:
                    ops += draw_ops(gen, rng, 1, None, 0, 0, families)
            return ops

        def interrupt(t, path, op, depth):
            for _ in range(rng.choice((1, 1, 2))):
                at = draw_point(ctx, rng, gen.pool, op, config)
                if at is None or any(f['t'] == t and f['op'] == path and f['at'] == at for f in faults):
                    continue
                fault = {'t': t, 'op': path, 'at': at, 'kind': 'nest', 'id': len(faults), 'ops': nested_ops(op)}
                if rng.random() < 0.12:
                    fault['then'] = rng.choice(('Signalled', 'KeyboardInterrupt', 'TimeoutError'))
                faults.append(fault)
                if depth < 2 and rng.random() < 0.3:
                    j = rng.randrange(len(fault['ops']))
                    interrupt(t, path + [fault['id'], j], fault['ops'][j], depth + 1)

        for t in range(n):
            ops = [reaching(ctx, gen, t0, config)]
            if rng.random() < 0.5:
                ops.append(copy.deepcopy(ops[0]) if rng.random() < 0.4 else gen.twin(ops[0]))
            if rng.random() < 0.3:
                ops += draw_ops(gen, rng, 1, None, 0, 0, families)
            for i, op in enumerate(ops):
                if i == 0 or rng.random() < 0.5:
                    interrupt(t, [i], op, 0)
            threads.append(ops)
        prelude = draw_prelude(ctx, rng, gen, [op for ops in threads for op in ops], config)
        return {'pool': gen.pool, 'threads': threads, 'policy': draw_policy(rng, n), 'config': config, 'faults': faults, 'prelude': prelude}

    def judge(self, ctx, scn, result):
        aborted = {}
        out = []
        for n, f in enumerate(result['fired']):
            if f['raised']:
                # A later interruption while the first exception is on its way replaces it.
                aborted[f['t'], tuple(f['op'])] = n
        for key, n in sorted(aborted.items(), key=str):
            if result['matched'].get(key) != n:
                got = result['results'].get(key)
                out.append((
                    'abort-lost',
                    f'the exception of the interrupting code in {catalog.describe(self.specs_of(scn, key))} did not '
                    f'reach the caller: {show(got) if got else "no outcome"}',
                ))
        # An operation interrupted by code that was aborted in turn is not judged; the rest is.
        return out + self.generic(ctx, scn, result, skip=aborted)

    def nontrivial(self, scn, result):
        return bool(result['fired'])

    def measures(self, scn, result):
        out = super().measures(scn, result)
        depth = max([(len(k[1]) - 1) // 2 for k in result['results']], default=0)
        out['deepest_nesting'] = {str(depth): 1}
        return out
