"""C18: operations that start in the middle of another one behave as they would alone, and leave that one alone."""
import json
import zlib

from dst import ops, opgen
from dst.common import Viol, forked, short, diff_outcome, norm
from dst.gen import flavour
from dst.userland import Ctx, canon

ID = 'C18'
QUICK = 14000
THOROUGH = 120000
RULE = ('a seeded world and 1-3 public operations (class definitions included); at seeded steps of each (any line or bytecode '
        'boundary of the code under test, as a signal handler or finaliser would, or a callback invocation, as a callback that '
        'itself uses the library would) other operations on the same classes, records, selections and exporters run to their '
        'compared with itself alone in a fork; non-trivial: an inner operation ran')
MEASURE = 'crc of (operations, steps at which the inner ones ran)'
REAL = ['records (all of it)', 'json', 'pickle', 'copy']
STUB = ['user callbacks', 'the moments at which inner operations start (chosen by the simulator)', 'locks and clocks', 'streams']
ASSUMPTIONS = ['inner operations run to their end before the outer one goes on, as they do in one thread']

FOCUS = ['new', 'new', 'new', 'parse', 'parse', 'parser', 'from_mapping', 'from_instance', 'from_json', 'to_dict', 'to_dict', 'to_json',
         'hash', 'eq', 'lt', 'repr', 'copy', 'deepcopy', 'pickle_rt', 'handle', 'sel_merge', 'sel_call', 'from_json_io', 'inset']


def gen(rng, i):
    with_defs = rng.random() < 0.15
    g = flavour(rng, share=not with_defs and rng.random() < 0.3)
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.25, p_parsers=0.3)
    og = opgen.OpGen(g)
    og.fill_pool(rng.choice([1, 3]), rng.choice([1, 3]))
    og.fill_selects(rng.choice([0, 1, 2]))
    og.fill_handles(rng.choice([0, 1, 2]))
    c = g.ch(sorted(g.specs))
    focus = rng.choice(FOCUS)
    n = [0]

    def define():
        name = f'D{n[0]}'
        n[0] += 1
        spec = g.cls(name, bases=[c] if rng.random() < 0.7 else [], p_post=0.1, p_parsers=0.2, no_self=True)
        op = {'o': 'define_use', 'spec': spec, 'kw': g.kwargs_for(name, complete=False)}
        del g.specs[name]
        return op

    def one(depth):
        k = rng.random()
        if with_defs and k < 0.5:
            op = define()
        elif made and rng.random() < 0.3:
            op = json.loads(json.dumps(strip(g.ch(made))))
            if rng.random() < 0.5:
                op.pop('faults', None)
        elif k < 0.6:
            op = og.op(focus, c, faults=0.25, base=rng.random() < 0.2)
        elif k < 0.85:
            op = og.op(None, c, faults=0.25)
        else:
            op = og.op(None, None, faults=0.25)
        made.append(op)
        if depth < 2 and (depth == 0 or rng.random() < 0.35):
            op['in'] = [[rng.choice(['any', 'any', 'cb']), rng.random(), one(depth + 1)]
                        for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else 1)]
        return op

    made = []
    scn_ops = [one(0) for _ in range(rng.choice([1, 1, 2, 3]))]
    scn = og.world()
    scn['ops'] = scn_ops
    scn['op'] = int(rng.random() < 0.4)
    return scn


def strip(op):
    return {k: v for k, v in op.items() if k != 'in'}


def walk(op):
    yield op
    for _, _, x in op.get('in', ()):
        yield from walk(x)


def run(scn):
    world = opgen.build(scn)
    opc = bool(scn.get('op'))
    before = norm([canon(p) for p in world.pool])
    refs = {}

    def alone(op, traced):
        """outcome, callbacks and steps of the operation on its own"""
        key = json.dumps([strip(op), traced])
        if key not in refs:
            def f():
                ctx = Ctx(None, op.get('faults', ()))
                marks = []
                real = ctx.callback

                def callback(*a, **k):
                    marks.append(ctx.steps + 1)
                    return real(*a, **k)

                ctx.callback = callback
                out = ops.outcome(world, op, ctx, opc, traced)
                return {'out': out, 'log': ctx.log, 'steps': ctx.steps, 'marks': marks}
            refs[key] = norm(forked(f))
        return refs[key]

    s = {'ops': 0, 'inner': 0, 'steps': 0}
    trail = []

    def check(op, traced, ctx, out, how):
        exp = alone(op, traced)
        got = norm({'out': out, 'log': ctx.log})
        s['ops'] += 1
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if got['out'] != exp['out']:
            bad.append([how + '-' + diff_outcome(exp['out'], got['out']),
                        f"{short(strip(op))} gives {short(got['out'])} {where[how]}, {short(exp['out'])} alone"])
        elif got['log'] != exp['log']:
            bad.append([how + '-callbacks', f"{short(strip(op))} calls {short(got['log'])} {where[how]}, {short(exp['log'])} alone"])

    where = {'inner': 'when started in the middle of another operation', 'outer': 'when other operations run in the middle of it'}
    bad = []

    def context(op, traced):
        ctx = Ctx(None, op.get('faults', ()))
        exp = alone(op, traced)
        plan = {}
        for kind, frac, inner in op.get('in', ()):
            marks = exp['marks'] if kind == 'cb' else None
            if kind == 'cb' and marks:
                at = marks[int(frac * len(marks))]
            elif exp['steps']:
                at = 1 + int(frac * exp['steps'])
            else:
                continue
            plan.setdefault(at, []).append(inside(inner))
            trail.append(at)
        ctx.nest = plan or None
        return ctx

    def inside(inner):
        def f():
            ctx = context(inner, False)
            out = ops.outcome_inside(world, inner, ctx)
            s['inner'] += 1
            check(inner, False, ctx, out, 'inner')
        return f

    def prepare(op, traced):
        alone(op, traced)
        for _, _, x in op.get('in', ()):
            prepare(x, False)

    for op in scn['ops']:
        prepare(op, True)
    for op in scn['ops']:
        ctx = context(op, True)
        out = ops.outcome(world, op, ctx, opc)
        s['steps'] += ctx.steps
        check(op, True, ctx, out, 'outer')
        if bad:
            raise Viol(*bad[0])
    after = norm([canon(p) for p in world.pool])
    if after != before:
        j = next(j for j in range(len(after)) if after[j] != before[j])
        raise Viol('shared-object', f'shared object {j} was {short(before[j])}, became {short(after[j])}')
    return {'nontrivial': s['inner'] > 0, 'sum': s, 'sigs': [zlib.crc32(json.dumps([scn['ops'], trail]).encode())],
            'sample': s['inner'] > 1}
