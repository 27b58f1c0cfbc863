"""Shared by C22 and C23: records under assignments, failing value comparisons and schedules, read and compared with a model."""
import json
import zlib

from dst import ops, opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.gen import flavour
from dst.userland import Ctx, TL, canon, dec

HKS = ('hk-eq', 'hk-lt', 'hk-hash')
INTR = sorted(U.BASE) + ['MemoryError', 'MemoryError', 'RecursionError']


def gen_world(rng, ordered, p_default):
    g = flavour(rng, share=rng.random() < 0.2)
    for k in range(rng.choice([1, 1, 2, 2])):
        g.cls(f'A{k}', p_post=0, p_parsers=0, p_pre=0.05, p_default=p_default, ordered=rng.random() < ordered, p_inherit=0.4,
              frozen=rng.random() < 0.4)
    hk = rng.random() < 0.5
    for c, spec in g.specs.items():
        for f in spec['fields']:
            if hk and f['node']['k'] != 'self' and rng.random() < 0.5:
                f['node'] = {'k': 'plain', 't': 'HK', 'toks': []}
                spec['pre_bind'] = [p for p in spec.get('pre_bind', ()) if p['field'] != f['name']]
                d = f.get('default')
                if d and d[0] != 'fac':
                    f['default'] = ['v', rng.choice([['o', 'HK', rng.choice([0, 1])], ['hs', rng.choice([0, 1])]])]
                elif d:
                    f['default'][2] = ['const', ['o', 'HK', rng.choice([0, 1])]]
            elif rng.random() < 0.15 and f['node']['k'] != 'self':
                f['node'] = {'k': 'any', 'toks': []}
                if (f.get('default') or ['fac'])[0] != 'fac' and rng.random() < 0.3:
                    f['default'] = ['v', ['nan']]
                spec['pre_bind'] = [p for p in spec.get('pre_bind', ()) if p['field'] != f['name']]
            elif rng.random() < 0.2 and f['node']['k'] != 'self':
                f['node'] = {'k': 'any', 'toks': []}
                spec['pre_bind'] = [p for p in spec.get('pre_bind', ()) if p['field'] != f['name']]
                if (f.get('default') or ['fac'])[0] != 'fac':
                    f['default'] = ['v', mutable_value(g)]
                f['mutable'] = 1
    return g


def mutable_value(g):
    if not g.o['jsonable'] and g.p(0.1):
        return ['o', 'Box', g.ch([0, 1, 5])]
    if g.p(0.6):
        return ['l', [['i', g.ch([0, 1])] for _ in range(g.ch([0, 1, 1, 2]))]]
    return ['d', [[['s', k], ['i', g.ch([0, 1])]] for k in ['a', 'more'][:g.ch([0, 1, 2])]]]


def field_value(g, f, near=1.0):
    rng = g.rng
    d = f.get('default')
    if d and d[0] != 'fac' and rng.random() < 0.4:
        v = json.loads(json.dumps(d[-1]))
        if rng.random() < 0.3:
            from dst.props.c02 import twist
            v = twist(rng, v)
        return v
    if f.get('mutable') and rng.random() < 0.8:
        return mutable_value(g)
    if f['node'].get('t') == 'HK':
        return [*rng.choice([['o', 'HK'], ['hs']]), rng.choice([0, 1, 2])]
    if f['node']['k'] == 'self':
        return ['n']
    if f['node']['k'] == 'any' and rng.random() < 0.2:
        return ['nan']
    return g.value_for(f['node'], near)


def gen_pool(g, og, n):
    """records, often differing in a single field"""
    rng = g.rng
    made = {}
    for i in range(n):
        c = g.ch(sorted(g.specs))
        fs = g.fields_of(c)

        def one():
            kw = {}
            for f in fs:
                if not f.get('default') or rng.random() < 0.6:
                    kw[f['name']] = field_value(g, f)
            return kw

        if c in made and rng.random() < 0.7:
            kw = json.loads(json.dumps(g.ch(made[c])))
            for f in rng.sample(fs, min(len(fs), rng.choice([0, 1, 1, 2]))):
                if f.get('default') and rng.random() < 0.2:
                    kw.pop(f['name'], None)
                else:
                    kw[f['name']] = field_value(g, f)
        else:
            kw = one()
        made.setdefault(c, []).append(kw)
        og.recs.append((og.add(['r', c, [kw, one(), one()]]), c))


def faults_for(rng, p):
    out = []
    if rng.random() < p:
        cb = rng.choice(HKS[:2])
        out.append({'cb': cb, 'when': rng.choice(['all', ['mod', 2, rng.randrange(2)], ['mod', 3, rng.randrange(3)]]),
                    'act': ['raise', rng.choice(U.ORDINARY)] if rng.random() < 0.8 else ['raiseB', rng.choice(sorted(U.BASE))]})
    return out


def gen(rng, read, ordered=0.5, p_default=0.5):
    """``read(g, og)`` makes one read operation"""
    g = gen_world(rng, ordered, p_default)
    og = opgen.OpGen(g)
    gen_pool(g, og, rng.choice([3, 4, 6]))
    threads = rng.random() < 0.3
    hist = []
    for _ in range(rng.choice([3, 5, 8, 12])):
        k = rng.random()
        if k < 0.3 and not threads:
            i, c = g.ch(og.recs)
            f = g.ch(g.fields_of(c))
            muts = [x for x in g.fields_of(c) if x.get('mutable')]
            if muts and rng.random() < 0.6:
                f = g.ch(muts)
                d = f.get('default')
                op = {'o': 'mutval', 'r': ['ref', i], 'n': f['name'], 'how': g.ch(['more', 'less', 'set', 'set']),
                      'v': json.loads(json.dumps(d[1])) if d and d[0] != 'fac' and g.p(0.7) else mutable_value(g)}
            elif rng.random() < 0.08:
                op = {'o': 'setattr', 'r': ['ref', i], 'n': 'x_extra', 'v': ['i', rng.choice([0, 1, 2])]}
            elif rng.random() < 0.85:
                op = {'o': 'setattr', 'r': ['ref', i], 'n': f['name'], 'v': field_value(g, f, 0.9)}
            else:
                op = {'o': 'delattr', 'r': ['ref', i], 'n': f['name']}
        elif k < 0.4:
            op = og.op(g.ch(['hash', 'repr', 'copy', 'eq', 'lt', 'to_dict', 'inset']), faults=0)
            op['noise'] = 1
            if rng.random() < 0.5 and not threads:
                op['intr'] = [g.ch(INTR), rng.random()]
        else:
            op = read(g, og)
            fs = faults_for(rng, 0.25)
            if fs:
                op['faults'] = op.get('faults', []) + fs
        hist.append(op)
    scn = og.world()
    scn['history'] = hist
    if threads:
        n = rng.choice([2, 2, 3])
        scn['threads'] = [hist[k::n] for k in range(n)]
        del scn['history']
        scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.3)}
    return scn


def execute(world, op, ctx, opc=False):
    """(result, exception) of the operation"""
    TL.ctx = ctx
    res = exc = None
    try:
        with sched.traced(ctx, opc):
            res = ops.raw(world, op)
    except (U.Invalid, sched.SimAbort):
        raise
    except BaseException as e:
        exc = e
    TL.ctx = None
    return res, exc


def judge(op, ctx, res, exc, want, want_exc, same, excused):
    """compare with the model (which knows of no injected failures)"""
    if want is Ellipsis:
        return 'any'
    inj = list(ctx.injected) + ([ctx.interrupt_exc] if ctx.interrupt_exc is not None else [])
    if isinstance(exc, (U.Hang, sched.StepLimit)):
        raise Viol('hang', f'{short(op)} does not end')
    if inj and not (exc is None and excused(inj)):
        if exc is None:
            raise Viol('swallowed', f'{short(op)} gives {short(canon(res))} although a comparison of values failed with {inj[0]!r}')
        if not any(exc is x for x in inj):
            raise Viol('replaced', f'{short(op)} raises {exc!r}, the error of the comparison of values was {inj[0]!r}')
        return 'injected'
    if exc is not None:
        if want_exc is None:
            raise Viol('raised', f'{short(op)} raises {exc!r}, must give {short(canon(want))}')
        if type(exc) is not type(want_exc):
            raise Viol('error', f'{short(op)} raises {exc!r}, must raise {want_exc!r}')
        return 'error'
    if want_exc is not None:
        raise Viol('returned', f'{short(op)} gives {short(canon(res))}, must raise {want_exc!r}')
    msg = same(res, want)
    if msg:
        raise Viol(msg, f'{short(op)} gives {short(canon(res))}, must give {short(canon(want))}')
    return 'ok'


def run(scn, model, is_read, same, excused=lambda world, op, errs: False):
    from dst.props.c02 import plan_interrupt
    world = opgen.build(scn)
    s = {'ops': 0, 'steps': 0}
    trail = []

    def expected(op):
        want = want_exc = None
        try:
            want = model(world, op)
        except U.Invalid:
            raise
        except Exception as e:
            want_exc = e
        return want, want_exc

    def one(op, ctx, opc, exp):
        res, exc = execute(world, op, ctx, opc)
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if is_read(op):
            k = judge(op, ctx, res, exc, *exp, same(world, op), lambda errs: excused(world, op, errs))
            s['reads'] = s.get('reads', 0) + 1
            s[k] = s.get(k, 0) + 1
            trail.append([op, k])
        else:
            if ctx.interrupt_exc is not None:
                s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
            trail.append([op, type(exc).__name__])
        s['ops'] += 1

    trace = None
    if 'threads' in scn:
        opc = bool(scn['sched']['op'])

        def length(op):
            ctx = Ctx(None, op.get('faults', ()))
            execute(world, op, ctx, opc)
            return ctx.steps
        lengths = {t: 1 + forked(lambda: sum(length(op) for op in x)) for t, x in enumerate(scn['threads'])}
        exps = {(t, k): expected(op) for t, x in enumerate(scn['threads']) for k, op in enumerate(x) if is_read(op)}
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], lengths))
        viol = []

        def body(t, x):
            def f():
                for k, op in enumerate(x):
                    try:
                        one(op, Ctx(sim, op.get('faults', ())), opc, exps.get((t, k)))
                    except Viol as v:
                        viol.append(v)
            return f

        sim.run([body(t, x) for t, x in enumerate(scn['threads'])])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
        if viol:
            raise Viol(viol[0].kind, viol[0].msg, schedule=trace)
    else:
        for op in scn['history']:
            if isinstance(op.get('intr'), list):
                op = plan_interrupt(world, op)
            ctx = Ctx(None, op.get('faults', ()))
            ctx.interrupt_at = op.get('intr_at')
            ctx.interrupt_name = op.get('intr')
            one(op, ctx, False, expected(op) if is_read(op) else None)
            s['steps'] += ctx.steps
    return {'nontrivial': s.get('reads', 0) > 0 and len(trail) > 1, 'sum': s,
            'sigs': [zlib.crc32(json.dumps([trail, trace]).encode())],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': trace is None and len(trail) > 3}
