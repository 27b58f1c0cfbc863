"""C01: concurrent callers get exactly the results they would get alone."""
import zlib
import json

from dst import ops, opgen, sched
from dst.common import Viol, forked, HarnessError, short, diff_outcome, norm
from dst.gen import flavour
from dst.userland import TL, Ctx, canon

ID = 'C01'
QUICK = 8000
THOROUGH = 60000
RULE = ('a seeded world (record classes with random hints, coercers, validators, factories, parsers, post_new; shared '
        'records, mappings, selections and exporters) and 2-4 threads of 1-3 public operations each, run under one seeded '
        'schedule (random walk, PCT, stalls, callback switches, round robin) at line or bytecode granularity with callback '
        'faults; non-trivial: at least two threads and one switch while an operation was in progress')
MEASURE = 'crc of (scenario index, full switch sequence)'
REAL = ['records (all of it)', 'CPython threads, released one at a time', 'json', 'pickle', 'copy']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'user callbacks', 'byte and text streams']
ASSUMPTIONS = ['switches are explored at line and bytecode boundaries of the code under test and at user callbacks; C code '
               'is atomic, as it is under the interpreter lock']

FOCUS = ['new', 'new', 'new', 'parse', 'parse', 'from_mapping', 'from_instance', 'from_json', 'to_dict', 'to_dict', 'to_json',
         'hash', 'eq', 'lt', 'copy', 'deepcopy', 'pickle_rt', 'repr', 'handle', 'handle', 'sel_merge', 'from_json_io', 'parser']


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.4)
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.25, p_parsers=0.3)
    og = opgen.OpGen(g)
    og.fill_pool(3, 3)
    og.fill_selects(rng.choice([0, 1, 2]))
    og.fill_handles(rng.choice([0, 1, 2]))
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    c = g.ch(sorted(g.specs))
    focus = rng.choice(FOCUS)
    threads = []
    for _ in range(nt):
        ops_ = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            if rng.random() < 0.6:
                ops_.append(og.op(focus, c, faults=0.3))
            elif rng.random() < 0.5:
                ops_.append(og.op(None, c, faults=0.3))
            else:
                ops_.append(og.op(None, None, faults=0.3))
        threads.append(ops_)
    scn = og.world()
    scn['threads'] = threads
    scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.4)}
    return scn


def run(scn):
    world = opgen.build(scn)
    opc = bool(scn['sched']['op'])
    before = norm([canon(p) for p in world.pool])
    flat = [(t, k, op) for t, ops_ in enumerate(scn['threads']) for k, op in enumerate(ops_)]

    def solo(op, trace=True):
        def f():
            out, log, ctx = ops.run_solo(world, op, opc, trace)
            return {'out': out, 'log': log, 'steps': ctx.steps, 'fired': ctx.fired}
        return forked(f)

    alone = {(t, k): solo(op) for t, k, op in flat}
    lengths = {t: 1 + sum(alone[t, k]['steps'] for k in range(len(ops_))) for t, ops_ in enumerate(scn['threads'])}
    strat = sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], lengths)
    sim = sched.Sim(strat, step_cap=50 * (sum(lengths.values()) + 2000))
    results = {}
    inop = [0]

    def body(t, ops_):
        def f():
            for k, op in enumerate(ops_):
                ctx = Ctx(sim, op.get('faults', ()))
                ctx.name = (t, k)
                out = ops.outcome(world, op, ctx, opc)
                results[t, k] = {'out': out, 'log': ctx.log, 'fired': ctx.fired}
        return f

    sim.run([body(t, ops_) for t, ops_ in enumerate(scn['threads'])])
    if sim.failure:
        kind, msg = sim.failure
        if kind in ('hang', 'deadlock'):
            raise Viol(kind, msg, schedule=sim.trace_desc())
        raise HarnessError(msg)
    tr = sim.trace_desc()
    for t, k, op in flat:
        a, b = norm(alone[t, k]), norm(results[t, k])
        if a['out'] != b['out']:
            raise Viol('outcome-' + diff_outcome(a['out'], b['out']),
                       f"thread {t} op {k} {short(op)}: alone {short(a['out'])}, concurrently {short(b['out'])}", schedule=tr)
        if a['log'] != b['log']:
            raise Viol('callbacks', f"thread {t} op {k} {short(op)}: callbacks alone {short(a['log'])}, "
                                    f"concurrently {short(b['log'])}", schedule=tr)
    after = norm([canon(p) for p in world.pool])
    if after != before:
        j = next(j for j in range(len(after)) if after[j] != before[j])
        raise Viol('shared-object', f'shared object {j} was {short(before[j])}, became {short(after[j])}', schedule=tr)
    for t, k, op in flat:
        a, b = norm(alone[t, k]), norm(solo(op, False))
        if a['out'] != b['out'] or a['log'] != b['log']:
            raise Viol('lasting', f"op {short(op)} gives {short(b['out'])} after the concurrent phase, {short(a['out'])} before "
                                  f"(callbacks {short(b['log'])} / {short(a['log'])})", schedule=tr)
    s = {'steps': sim.step, 'switches': len(sim.switches), 'ops': len(flat)}
    for r in results.values():
        for f in r['fired']:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        s['raised' if 'err' in r['out'] else 'returned'] = s.get('raised' if 'err' in r['out'] else 'returned', 0) + 1
    return {'nontrivial': len(scn['threads']) > 1 and len(sim.switches) >= len(scn['threads']), 'sum': s,
            'sigs': [zlib.crc32(json.dumps([scn['threads'], tr]).encode())],
            'states': [zlib.crc32(json.dumps(tr['sw']).encode())], 'sample': len(sim.switches) > 3}
