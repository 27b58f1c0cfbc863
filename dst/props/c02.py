"""C02: outcomes never depend on earlier operations, even failed or interrupted ones."""
import json
import zlib

from dst import ops, opgen
from dst import userland as U
from dst.common import Viol, forked, short, diff_outcome, norm
from dst.gen import flavour

ID = 'C02'
QUICK = 14000
THOROUGH = 120000
RULE = ('a seeded world and a history of 2-12 public operations on it (any callback failing by a seeded fault plan, operations '
        'interrupted asynchronously at a seeded step, assignments to mutable records), then 1-3 probe operations whose outcome '
        'is compared with that in a process that executed only the assignments; probes are often equal-but-not-identical '
        'variants of operations of the history; non-trivial: at least one history operation failed or was interrupted, or a '
        'probe repeats the class of a history operation')
MEASURE = 'crc of (history operations with their outcomes, probe)'
REAL = ['records (all of it)', 'json', 'pickle', 'copy', 'process fork for the fresh reference']
STUB = ['user callbacks', 'asynchronous interrupts (raised by the simulator between two steps)', 'locks and clocks', 'streams']
ASSUMPTIONS = []

# what is raised between two steps of a history operation: cancellations, failing allocations, exhausted stacks
INTR = sorted(U.BASE) + ['MemoryError', 'MemoryError', 'RecursionError']

TWIST = [(['i', 1], ['b', 1]), (['i', 0], ['b', 0]), (['b', 1], ['i', 1]), (['b', 0], ['i', 0]), (['i', 1], ['f', 1.0]),
         (['i', 0], ['f', 0.0]), (['f', 1.0], ['i', 1]), (['i', 2], ['fs', 2.0]), (['i', 3], ['is', 3]), (['f', 3.0], ['i', 3])]


def twist(rng, x):
    """the same structure with some values replaced by equal values of another type, or by other values"""
    if isinstance(x, list):
        for a, b in TWIST:
            if x == a and rng.random() < 0.6:
                return list(b)
        if len(x) == 2 and x[0] == 's' and isinstance(x[1], str) and rng.random() < 0.12:
            return ['ss', x[1]]
        if len(x) == 2 and x[0] == 'i' and rng.random() < 0.2:
            return ['i', rng.choice([0, 1, 2, 5, -3])]
        if x and x[0] == 'ref':
            return x
        return [twist(rng, y) for y in x]
    if isinstance(x, dict):
        return {k: (v if k in ('o', 'c', 'n', 'sel', 'ex', 'faults', 'h', 's', 'ss') else twist(rng, v)) for k, v in x.items()}
    return x


def retwist(g, og, op):
    """a variant of an earlier operation"""
    op = twist(g.rng, op)
    if op['o'] in ('to_dict', 'to_json') and g.p(0.5):
        n = op['r'][1] if op['r'][0] == 'r' else next((c for i, c in og.recs if i == op['r'][1]), None)
        if n is not None:
            ex = op.get('ex') or {}
            if g.p(0.3):
                op['ex'] = g.export_args(n)
            else:  # another value of one argument
                k = g.ch(sorted(ex) or ['blacklist', 'whitelist', 'include_defaults', 'sort'])
                for _ in range(20):
                    new = g.export_args(n)
                    if k in new and (k not in ex or new[k] != ex[k] and (not isinstance(ex[k], list) or not isinstance(new[k], list) or new[k][0] == ex[k][0])):
                        op['ex'] = {**ex, k: new[k]}
                        break
    return op


def gen_fills(rng):
    """many constructions from similar values"""
    g = flavour(rng, share=rng.random() < 0.3)
    g.p_reuse = rng.choice([0.2, 0.5])
    g.focus_node = rng.choice([g.focus_node, 'union', 'optional', 'iter', 'map', 'tupv', 'tup'])
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.1, p_parsers=0.15, style=g.ch(['check', 'check', 'strict', 'hollow']))
    og = opgen.OpGen(g)
    og.fill_pool(1, 1)

    def one(faults):
        return og.op(g.ch(['new', 'new', 'new', 'new', 'from_mapping', 'parse']), faults=faults)

    hist = [one(0.15) for _ in range(rng.choice([6, 10, 16]))]
    probes = []
    for _ in range(4):
        op = json.loads(json.dumps(g.ch(hist)))
        if rng.random() < 0.7:
            op.pop('faults', None)
        probes.append(twist(rng, op) if rng.random() < 0.6 else one(0.05))
    scn = og.world()
    scn['history'] = hist
    scn['probes'] = probes
    return scn


def gen(rng, i):
    if rng.random() < 0.3:
        return gen_fills(rng)
    g = flavour(rng, share=rng.random() < 0.4)
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.25, p_parsers=0.3)
    og = opgen.OpGen(g)
    og.fill_pool(rng.choice([0, 1, 3, 3]), rng.choice([0, 2, 3]))
    og.fill_selects(rng.choice([0, 1, 2]))
    og.fill_handles(rng.choice([0, 1, 2]))
    hist = []
    c = g.ch(sorted(g.specs))
    p_again = rng.choice([0.15, 0.15, 0.3, 0.7])  # how often operations are variants of earlier ones
    for _ in range(rng.choice([2, 3, 4, 6, 9, 12])):
        k = rng.random()
        if k < 0.15:
            op = og.op(g.ch(['setattr', 'setattr', 'setattr', 'delattr']), faults=0)
        elif k < 0.15 + p_again and hist:
            op = json.loads(json.dumps(g.ch(hist)))
            op.pop('intr', None)
            op = retwist(g, og, op)
        else:
            op = og.op(None, c if g.p(0.7) else None, faults=0.35)
        if op['o'] not in ('setattr', 'delattr') and rng.random() < 0.3:
            op['intr'] = [g.ch(INTR), rng.random()]
        if op['o'] in ('from_json_io', 'to_json', 'pickle_rt') and op.get('io', op['o'] == 'from_json_io') and rng.random() < 0.3:
            op['fail_at'] = rng.choice([1, 2, 3])
            op['exc'] = g.ch(['OSError', 'ValueError', 'KeyboardInterrupt'])
        hist.append(op)
    probes = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        if rng.random() < 0.6:
            src = [o for o in hist if o['o'] not in ('setattr', 'delattr')]
            if src:
                op = json.loads(json.dumps(g.ch(src)))
                for k in ('intr', 'fail_at', 'exc'):
                    op.pop(k, None)
                if rng.random() < 0.6:
                    op.pop('faults', None)
                if rng.random() < 0.6:
                    op = retwist(g, og, op)
                probes.append(op)
                continue
        probes.append(og.op(None, c if g.p(0.7) else None, faults=0.15))
    scn = og.world()
    scn['history'] = hist
    scn['probes'] = probes
    return scn


def plan_interrupt(world, op):
    """turn a relative interruption point into a step number (found by running the operation in a fork)"""
    def f():
        o = {k: v for k, v in op.items() if k != 'intr'}
        _, _, ctx = ops.run_solo(world, o)
        return ctx.steps
    n = forked(f)
    return {**op, 'intr': op['intr'][0], 'intr_at': 1 + int(op['intr'][1] * n)}


def run(scn):
    world = opgen.build(scn)

    def probe(op):
        def f():
            out, log, ctx = ops.run_solo(world, op, trace=False)
            return out
        return norm(forked(f))

    # which assignments take effect
    hist = scn['history']

    def fresh():
        for j, op in enumerate(hist):
            if op['o'] in ('setattr', 'delattr'):
                ops.run_solo(world, op, trace=False)
        return [norm(ops.run_solo_forked(world, p)) for p in scn['probes']]

    expected = forked(fresh)
    s = {'history': len(hist), 'probes': len(scn['probes']), 'steps': 0}
    trail = []
    eventful = False
    for op in hist:
        o = plan_interrupt(world, op) if isinstance(op.get('intr'), list) else op
        out, log, ctx = ops.run_solo(world, o)
        trail.append([op['o'], out])
        s['steps'] += ctx.steps
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        eventful = eventful or 'err' in out
        del out, log, ctx
    for p, exp in zip(scn['probes'], expected):
        got = probe(p)
        if got != exp:
            raise Viol('history-' + diff_outcome(exp, got), f'{short(p)} gives {short(got)} after the history, {short(exp)} in a '
                                                            f'fresh process')
    same = any(p.get('c') == o.get('c') for p in scn['probes'] for o in hist)
    sig = zlib.crc32(json.dumps([norm(trail), scn['probes']]).encode())
    return {'nontrivial': eventful or same, 'sum': s, 'sigs': [sig], 'sample': eventful}
