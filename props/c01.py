"""C01: concurrent calls on shared objects each behave as if run alone."""

import copy
import random

from sim import catalog
from sim.driver import derive
from sim.focus import distinct

from .common import (
    CONFIGS, REST, ThreadProperty, draw_dim, draw_hot, draw_ops, draw_point, draw_policy, hot_templates, draw_prelude, leading, reaching, spread,
)

FAMILIES = ('query', 'new', 'py', 'plotter')


class Prop(ThreadProperty):
    id = 'C01'
    runs = {'quick': 11200, 'thorough': 200_000}
    budget = {'quick': 160, 'thorough': 1800}
    rule = (
        'A run draws shared objects and 2-5 threads of 1-5 public operations on them (concentrated on one or two '
        'operations, with equal and nearly equal operands) and a seeded schedule that may switch threads at every '
        'line, call, return and function entry of library code, or two or three operations that runs of a group stop '
        'at ever other places; some runs begin with calls that fill what the library keeps. Non-trivial: at least one switch inside an operation. '
        'Every outcome is compared with the same operation alone in a pristine process.'
    )
    assumptions = (
        'Threads switch at events of library code; code inside one C call of NumPy is atomic, as under the GIL.',
    )

    def generate(self, ctx, rng, index, tier):
        group, member = spread(index)
        shared = random.Random(derive(ctx.seed, f'{self.id}/group', group))
        if shared.random() < (0.7 if ctx.focus else 0.3):
            return self.placed(ctx, shared, rng, group)
        return self.scattered(ctx, rng)

    def placed(self, ctx, shared, rng, group):
        """Few operations, drawn once per group of runs; each run stops one of them at another place."""
        dim = draw_dim(ctx, shared, (2, 2, 3, 3, 3, 3), FAMILIES)
        gen = catalog.Gen(shared, dim=dim, n_pool=shared.randint(2, 5), shared=shared.choice((0.9, 0.7, 0.3)))
        chosen = distinct(dim, FAMILIES)
        t0 = leading(ctx, shared, gen, FAMILIES, chosen[group % len(chosen)], 0.9)
        config = shared.choice(CONFIGS) if shared.random() < 0.2 else None
        hot = hot_templates(ctx, dim, FAMILIES)

        def partner(op):
            roll = shared.random()
            if roll < 0.15:
                return gen.mirror(op) or gen.twin(op)
            if roll < 0.3:
                return copy.deepcopy(op)
            if roll < 0.5:
                return gen.twin(op)
            if roll < 0.7:
                return reaching(ctx, gen, t0, config, 4)
            if hot and roll < 0.9:
                return reaching(ctx, gen, shared.choice(hot), config, 4)
            return draw_ops(gen, shared, 1, None, 0, 0, FAMILIES)[0]

        first = reaching(ctx, gen, t0, config)
        if shared.random() < 0.4:
            first = gen.share(first)
        n = 2 if shared.random() < 0.85 else 3
        threads = [[first]] + [[partner(first)] for _ in range(n - 1)]
        main = [0] * n
        for t in range(n):
            if shared.random() < 0.25:
                threads[t].insert(0, partner(first))
                main[t] = 1
            if shared.random() < 0.3:
                threads[t].append(partner(first))

        prelude = draw_prelude(ctx, shared, gen, [first] + [op for ops in threads for op in ops], config)

        def stop(t):
            """Number of the thread's event at a place inside its main operation."""
            ops = threads[t]
            before = sum(ctx.profiles.get(op, gen.pool, config, prelude)[1] for op in ops[:main[t]])
            at = draw_point(ctx, rng, gen.pool, ops[main[t]], config, 0.9, prelude)
            return before + (at or 1) - 1

        order = rng.sample(range(n), n)
        segments = []
        for k, t in enumerate(order):
            last = k == n - 1
            segments.append([t, REST if (last and rng.random() < 0.55) or rng.random() < 0.05 else stop(t)])
        if rng.random() < 0.35:
            # A few short turns before everybody finishes.
            for _ in range(rng.randint(1, 4)):
                segments.append([rng.choice(order), rng.choice((1, 2, 3, 5, 9, 20, 60))])
        order = order if rng.random() < 0.6 else rng.sample(order, n)
        segments += [[t, REST] for t in order]
        return {
            'pool': gen.pool, 'threads': threads, 'segments': [s for s in segments if s[1] > 0], 'policy': None, 'config': config,
            'faults': [], 'prelude': prelude,
        }

    def scattered(self, ctx, rng):
        gen = catalog.Gen(rng, dim=rng.choice((2, 2, 3, 3, 3, 3, 3, 1, 4, 5)), n_pool=rng.randint(2, 7),
                          shared=rng.choice((0.9, 0.7, 0.4)))
        n = rng.choice((2, 2, 2, 3, 3, 4, 5))
        families = FAMILIES
        hot = draw_hot(gen, rng, families, rng.choice((1, 1, 2, 3)))
        everything = []
        threads = []
        for _ in range(n):
            ops = draw_ops(gen, rng, rng.choice((1, 2, 2, 3, 5)), hot, rng.choice((0.5, 0.9)), 0.3, families)
            if everything and rng.random() < 0.5:
                other = rng.choice(everything)
                ops.append(gen.twin(other) if rng.random() < 0.6 else other)
            everything += ops
            threads.append(ops)
        config = rng.choice(CONFIGS)
        return {
            'pool': gen.pool,
            'threads': threads,
            'policy': draw_policy(rng, n),
            'config': config,
            'faults': [],
            'prelude': draw_prelude(ctx, rng, gen, [op for ops in threads for op in ops], config),
        }

    def judge(self, ctx, scn, result):
        return self.generic(ctx, scn, result)

    def nontrivial(self, scn, result):
        return result['switches'] > 0
