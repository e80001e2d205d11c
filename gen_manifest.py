"""Writes MANIFEST.json."""

import json
import os

DST = 'deterministic simulation with fault injection: '
TRUST = ('Sampled, not exhaustive: a clean batch is evidence, not proof. Trusts CPython, NumPy, SciPy{more} and the simulator; '
         'switches and asynchronous faults happen at interpreter events of library code (line, call, return), never inside one C call.')
CHECKS = {
    'C01': ('seeded thread schedules over library bytecode events, each outcome compared with the same call alone in a forked pristine process',
            'Thousands of seeded schedules of 2-6 simulated threads over every public operation.'),
    'C02': ('seeded schedules with aborts, operands fingerprinted at every library event and by other threads',
            'Operand fingerprints are compared at every event of every run, including aborted and nested calls.'),
    'C03': ('seeded abort injection at any library event, then retries and probes compared with a process where the call never happened',
            'Aborts of nine exception types at seeded instants, with concurrent threads, retries and probes.'),
    'C04': ('enumerated allocation, kernel and stack failures against the fault-free outcome of the same call',
            'For each generated call, allocation and kernel failures are swept over k (all k where few), stack depths and call sites sampled.'),
    'C05': ('seeded nested activations at library events (signal handler, finalizer and lazy-read models), outcomes compared with solo runs',
            'Nested calls at seeded instants up to depth 3, every result compared with the call alone.'),
    'C06': ('seeded schedules and aborts with process-wide settings fingerprinted at every event and thread-wide ones at call end',
            'Some thirty settings watched at every event under several caller configurations.'),
    'C07': ('seeded single-thread histories with in-place updates, object churn and clock jumps against a history-free replay in a pristine process',
            'Each outcome of each history is recomputed without the history.'),
    'C08': ('seeded interleaving of constructors with writers and read faults at every element access of the source',
            'Every element access of the source is a scheduling point; the constructed object is judged against all values the source ever held.'),
    'C09': ('seeded histories of NumPy operations with aborts, threads and allocation failures; dimension checked at every event against shape',
            'An independent formula (size or width) is the oracle at every event for every live object.'),
    'C10': ('seeded process incarnations with checkpoints on a simulated failing disk, crash and restart, against freshly built twins',
            'Model values decide what each original, clone and restored object must answer.'),
    'C11': ('seeded process lives under a simulated installation whose matplotlib appears, disappears and breaks at any import',
            'The import system is real; the finder and loaders of matplotlib are the simulator\'s.'),
    'C12': ('seeded drawing histories with failing backends, switching current figures and interleaved threads, against the same drawing calls alone',
            'Real matplotlib figures and axes; each axes compared artist by artist with a history-free process.'),
    'C13': ('seeded long process lives (repeated, aborted, failing and concurrent calls) with memory and resources counted between rounds',
            'Lives of 80 rounds, prolonged to 10,000 where anything still grows; growth of one block per five rounds is noticed.'),
}
PURE = ('A pure function of its numeric input: no schedule, clock, I/O, allocation or history can change the answer (that part is what '
        'C01-C07 decide), so simulation would only be input generation under another name. ')
NOT = {
    'G01': PURE + 'Deciding the algebraic laws needs numerical or symbolic reasoning over inputs.',
    'G02': PURE + 'Agreement of distance forms is a relation between return values of the same inputs.',
    'G03': PURE + 'Projection optimality is a statement of real geometry over inputs.',
    'G04': PURE + 'Intersection soundness and completeness range over pairs of inputs only.',
    'G05': PURE + 'Predicates and tolerances range over inputs only.',
    'G06': PURE + 'Fit optimality ranges over point sets; the optimiser is deterministic and its failures are covered by C04.',
    'G07': PURE + 'Consistency of measures ranges over inputs only.',
    'G08': PURE + 'Triangle identities range over inputs only.',
    'G09': PURE + 'Affine-map identities range over inputs only.',
    'G10': PURE + 'Only the part with changing or failing sources has a schedule, and that is C08.',
    'G11': PURE + 'Mesh membership ranges over objects and resolutions only.',
}

manifest = {
    'version': 1,
    'setup_cmd': 'python3 setup_check.py',
    'checks': [
        {
            'property': id,
            'quick_cmd': f'python3 check.py {id} --tier quick',
            'thorough_cmd': f'python3 check.py {id} --tier thorough',
            'evidence_file': f'evidence/{id}.json',
            'technique': DST + technique,
            'level': 'fault_enumeration' if id == 'C04' else 'exploration',
            'level_note': note + ' ' + TRUST.format(more=' and matplotlib' if id in ('C11', 'C12') else ''),
        }
        for id, (technique, note) in CHECKS.items()
    ],
    'not_applicable': [{'property': id, 'reason': reason} for id, reason in NOT.items()],
    'notes': 'No hooks in /repo are needed: the seams are sys.monitoring events, simulated locks and clocks, the NEP 49 allocator, '
             'import finders and process forks. Replay: python3 check.py --replay FILE. Determinism: python3 check.py ID --determinism.',
}
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
