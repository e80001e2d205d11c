"""C02: no operation changes its receiver or arguments, not even temporarily."""

from sim import catalog, scenario

from .common import ABORT_KINDS, CONFIGS, ThreadProperty, draw_abort, draw_dim, draw_ops, draw_policy, leading


class Prop(ThreadProperty):
    id = 'C02'
    level = 'fault_enumeration'
    focus_families = ('query', 'new', 'py', 'np', 'plotter', 'plot')
    plotting = True
    runs = {'quick': 16000, 'thorough': 120_000}
    budget = {'quick': 160, 'thorough': 1800}
    stubs = ThreadProperty.stubs + ', matplotlib axes (recording stand-ins)'
    rule = (
        'A run performs 1-6 public operations (plotting included, on stub axes) on shared and private operands, on one '
        'or two threads, aborting some at seeded points. An onlooker compares every operand - type, dtype, shape, '
        'strides, flags, bytes, public attributes, list items - with its original at every line, call, return and '
        'function entry of library code and after every call. Non-trivial: at least one operation ran with events.'
    )
    assumptions = ('An onlooker looks at events of library code, not inside a single NumPy C call.',)

    def generate(self, ctx, rng, index, tier):
        families = ('query', 'new', 'py', 'np', 'plotter', 'plot')
        gen = catalog.Gen(rng, dim=draw_dim(ctx, rng, (2, 2, 2, 3, 3, 3, 3, 3, 1, 4), families), n_pool=rng.randint(1, 5),
                          shared=rng.choice((0.8, 0.4, 0.1)))
        n = rng.choice((1, 1, 1, 2))
        # Templates in rotation, so that every operation is visited equally often.
        chosen = sorted({id(t): t for t in catalog.usable(gen.dim, families)}.values(), key=lambda t: t.label)
        hot = [leading(ctx, rng, gen, families, chosen[(index * 7 + k * 31) % len(chosen)], 0.5) for k in range(2)]
        threads = [draw_ops(gen, rng, rng.choice((1, 2, 3)), hot, 0.7, 0.2, families) for _ in range(n)]
        config = rng.choice(CONFIGS)
        faults = []
        if rng.random() < 0.5:
            for t, ops in enumerate(threads):
                for i, op in enumerate(ops):
                    if rng.random() < 0.6:
                        drawn = draw_abort(ctx, rng, gen.pool, op, config, ABORT_KINDS)
                        if drawn:
                            faults.append({'t': t, 'op': [i], 'at': drawn[0], 'kind': drawn[1]})
        return {'pool': gen.pool, 'threads': threads, 'policy': draw_policy(rng, n), 'config': config, 'faults': faults}

    def instruments(self, world):
        look, after = scenario.watch_operands(world)
        return [look], [after], ()

    def judge(self, ctx, scn, result):
        out = []
        for note in result['notes']:
            when = f'at event {note["at"]} ({note["where"]})' if note['at'] >= 0 else 'after the call'
            op = self.specs_of(scn, (note['by'][0], tuple(note['by'][1])))
            out.append((
                'operand-changed',
                f'{note["label"]} changed during {catalog.describe(op)} {when}: {note["before"]} -> {note["now"]}',
            ))
        return out

    def nontrivial(self, scn, result):
        return result['steps'] > 0
