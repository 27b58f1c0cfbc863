"""C26: the post-construction step runs exactly once, on the complete record."""
import json
import pickle
import copy
import types
import zlib

from dst import opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.gen import flavour
from dst.ops import describe_exc
from dst.userland import Ctx, TL, canon, dec

ID = 'C26'
QUICK = 20000
THOROUGH = 250000
RULE = ('seeded record classes (own and inherited fields, coercers, validators, factories) most of which have an own or inherited '
        'post-construction step of nine kinds (keeps, returns, rejects, replaces by a falsy or other value, by a new record, hashes, '
        'assigns a field, adds an attribute), and 2-8 constructions of complete, incomplete and unknown arguments in any order, through '
        'the constructor, imports, selections, unpickling, and copies; callbacks and steps failing by a seeded plan (also with '
        'BaseExceptions), in sequence or from 2-3 threads under one seeded schedule; non-trivial: a step ran')
MEASURE = 'crc of (operations with the kinds of their outcomes, switch sequence)'
REAL = ['records (all of it)', 'pickle', 'copy', 'CPython threads, released one at a time']
STUB = ['user callbacks, post-construction steps among them', 'thread scheduling, locks and clocks']
ASSUMPTIONS = ['filling and defaults themselves are the subject of C05 and C08: they are taken from the same declarations without the step']

MODES = ['none', 'none', 'self', 'reject', 'reject', 'other', 'other', 'twin', 'attr', 'hash', 'assign']


def has_nested(spec):
    s = json.dumps(spec['fields'])
    return '"k": "rec"' in s or '"k": "self"' in s


def gen(rng, i):
    while True:
        g = flavour(rng)
        for k in range(rng.choice([1, 2, 2, 3])):
            g.cls(f'A{k}', p_post=rng.choice([0.4, 0.9]), post_modes=MODES, p_parsers=0.1, p_pre=0.1, no_self=True,
                  p_default=rng.choice([0.2, 0.5, 0.8]), p_inherit=0.6, n_fields=rng.choice([1, 2, 2, 3, 4]),
                  style=g.ch(['hollow', 'hollow', 'check', 'strict']))
        if not any(has_nested(s) for s in g.specs.values()) and any(s.get('post_new') for s in g.specs.values()):
            break
    for s in g.specs.values():
        pn = s.get('post_new')
        if pn and pn['mode'] == 'assign':
            pn['field'] = g.ch(g.field_names(s['name']))
    names = sorted(g.specs)
    hist = [gen_op(g, g.ch(names)) for _ in range(rng.choice([2, 3, 5, 8]))]
    scn = {'classes': list(g.specs.values())}
    if rng.random() < 0.4:
        n = rng.choice([2, 2, 3])
        scn['threads'] = [x for x in (hist[k::n] for k in range(n)) if x]
    else:
        scn['threads'] = [hist]
    scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.3)}
    return scn


def gen_op(g, c):
    rng = g.rng
    kw = [[k, v] for k, v in g.kwargs_for(c, rng.choice([1.0, 1.0, 0.9]), complete=True).items()]
    rng.shuffle(kw)
    op = {'o': g.ch(['new'] * 5 + ['from_mapping', 'from_mapping', 'select', 'from_instance', 'from_instance', 'pos', 'pickle', 'copy',
                                   'deepcopy']), 'c': c, 'kw': kw}
    required = [f['name'] for f in g.fields_of(c) if not f.get('default')]
    r = rng.random()
    if r < 0.1 and required:
        gone = g.ch(required)
        op['kw'] = [x for x in kw if x[0] != gone]
        op['bad'] = 'missing'
    elif r < 0.2 and op['o'] != 'from_instance':
        kw.insert(rng.randrange(len(kw) + 1), [g.ch(['unknown', '_unknown', 'post_new', 'Unknown', '_hash', '__class__']), ['i', 1]])
        op['bad'] = 'unknown'
    if op['o'] == 'pos':
        if len(required) != 1 or op.get('bad') == 'missing' or kw and any(g.specs[n].get('unary') for n in [c] + g.all_bases(c)):
            op['o'] = 'new'
        else:
            op['pos'] = required[0]
    if op['o'] in ('pickle', 'copy', 'deepcopy'):
        op.pop('bad', None)
    fl = []
    if g.p(0.25):
        fl += g.faults(1.0, cbs=[cb for cb, _ in g.cbids] or None)
    posts = [s['post_new']['cb'] for s in g.specs.values() if s.get('post_new')]
    if g.p(0.3):
        act = [['raise', g.ch(sorted(U.EXC))]] * 3 + [['raiseB', g.ch(sorted(U.BASE))]]
        fl.append({'cb': g.ch(posts), 'when': g.ch(['all', 'all', ['mod', 2, 0], ['mod', 2, 1]]), 'act': g.ch(act)})
    if fl:
        op['faults'] = fl
    return op


def stepless(scn):
    """the same classes without their post-construction steps"""
    return {**scn, 'classes': [{k: v for k, v in s.items() if k != 'post_new'} for s in scn['classes']]}


def post_of(world, cls):
    """the step of a class: its own or the nearest inherited one"""
    mine = {world.classes[s['name']]: s for s in world.specs.values() if s['name'] in world.classes}
    return next((mine[b]['post_new'] for b in cls.__mro__ if b in mine and mine[b].get('post_new')), None)


def emulate(world, pn, build, ctx, depth=0):
    """constructs with ``build`` (without a step) and then does what the step does"""
    rec = build()
    if pn is None:
        return rec
    names = U.REG.get(type(rec), ())
    vals = {n: rec.__dict__[n] for n in names}
    ctx.callback(pn['cb'], 'post_new', 'ident', vals)
    mode = pn['mode']
    if mode == 'reject':
        if U.crc(U.canon(vals.get(pn['field']))) % pn['mod'] == pn['rem']:
            raise ValueError('post_new rejects')
    elif mode == 'other':
        return ['replacement', pn.get('val', 0)] if pn.get('val') != 'falsy' else []
    elif mode == 'twin' and not depth:
        return emulate(world, pn, lambda: type(rec)(**vals), ctx, 1)
    elif mode == 'hash':
        hash(rec)
    elif mode == 'attr' and not type(rec).is_frozen():
        rec.x_extra = 1
    elif mode == 'assign' and not type(rec).is_frozen():
        setattr(rec, pn['field'], vals[pn['field']])
    return rec


def construct(world, op, args):
    cls = world.classes[op['c']]
    o = op['o']
    if o == 'new':
        return cls(**dict(args))
    if o == 'from_mapping':
        return cls.from_mapping(dict(args))
    if o == 'select':
        d = dict(args)
        if len(d) < 2 or any(k.startswith('to_') for k in d):
            return cls.from_mapping.select(keys_to_maybe_remove='no such name')(d)
        k = sorted(d)[0]
        d2 = {('other_' + a if a == k else a): v for a, v in d.items()}
        return cls.from_mapping.select(keys_to_rename={'other_' + k: k})(d2)
    if o == 'from_instance':
        return cls.from_instance(types.SimpleNamespace(**dict(args)))
    d = dict(args)
    if cls._unary_parse and len(d) == 1:
        raise U.Invalid('parses its argument')
    a = d.pop(op['pos'])
    return cls(a, **d)


def plain_kw(world, op, args):
    """the arguments as the constructor gets them"""
    d = dict(args)
    if op['o'] == 'from_instance':
        for n, (spec, f) in world.field_specs(op['c']).items():
            if n in d and f.get('default') and f['default'][0] != 'fac' and world.defaults[spec['name'], n] == d[n]:
                del d[n]
        # (attributes are taken in the order of the fields)
        d = {n: d[n] for n in world.classes[op['c']]._fields if n in d}
    elif op['o'] == 'select' and len(d) >= 2:
        k = sorted(d)[0]
        v = d.pop(k)
        d[k] = v
    return d


def outcome(f, ctx):
    TL.ctx = ctx
    res = exc = None
    try:
        res = f()
    except (U.Invalid, sched.SimAbort):
        raise
    except BaseException as e:
        exc = e
    TL.ctx = None
    out = {'log': list(ctx.log)}
    if exc is not None:
        d = describe_exc(exc)
        out['err'] = [d['t'], d['m'] if d['m'].startswith('error filling') else None, d.get('c', {}).get('t')]
        out['mine'] = [k for k, e in enumerate(ctx.injected + [ctx.interrupt_exc]) if e is exc]
    else:
        out['ok'] = norm(canon(res))
        if type(res) in U.REG:
            out['keys'] = sorted(k for k in res.__dict__ if k != 'x_extra')
            out['fields'] = sorted(U.REG[type(res)])
    return out


def original(world, op):
    """a record to copy or pickle"""
    r = dec(['r', op['c'], [dict(op['kw'])]], world)
    if r is U.NOREC or type(r) is not world.classes[op['c']]:
        raise U.Invalid('no record')
    return r


def reference(scn, op):
    """what construction without the step, and the step after that, gives"""
    world = TL.c26_shadow
    real = TL.c26_real
    cls = world.classes[op['c']]
    pn = post_of(real, real.classes[op['c']])
    ctx = Ctx(None, op.get('faults', ()))
    try:
        if op['o'] in ('copy', 'deepcopy'):
            r = original(real, op)
            try:
                copy.deepcopy([r.__dict__[n] for n in U.REG[type(r)]])
            except Exception:
                return None
            return {'ok': norm(canon(r)), 'log': []}
        if op['o'] == 'pickle':
            if pn and pn['mode'] in ('other', 'twin', 'assign'):
                return None
            r = original(real, op)
            try:
                pickle.loads(pickle.dumps(r))
            except Exception:
                return None
            d = dict(r.to_dict())
            want = norm(canon(r))
            out = outcome(lambda: emulate(world, pn, lambda: cls(**d), ctx), ctx)
            if 'ok' in out:
                out['ok'] = want
                out.pop('keys', None)
                out.pop('fields', None)
            return out
        args = [(k, dec(v, world)) for k, v in op['kw']]
        if op['o'] == 'pos':
            # (a class with parsers of its own may take the argument otherwise)
            build = lambda: construct(world, op, args)
        else:
            d = plain_kw(world, op, args)
            build = lambda: cls(**d)
        return outcome(lambda: emulate(world, pn, build, ctx), ctx)
    except U.Invalid:
        return None


def judge(world, op, ctx, got, ref):
    me = f'{short(op, 700)} of {short([world.specs[c] for c in world.specs], 900)}'
    pn = post_of(world, world.classes[op['c']])
    steps = [e for e in got['log'] if pn and e[0] == pn['cb']]
    if op.get('bad'):
        if 'ok' in got:
            raise Viol('incomplete', f'{op["bad"]} names but the construction gave {short(got["ok"])}; {me}')
        if steps:
            raise Viol('step-incomplete', f'{op["bad"]} names but the step ran with {short(steps[0][1])}; {me}')
        return 'bad'
    if 'fields' in got and got['keys'] != got['fields']:
        raise Viol('fields', f'the record holds {got["keys"]}, its fields are {got["fields"]}; {me}')
    if [e for e in got['log']] != ref['log']:
        n = len([e for e in ref['log'] if pn and e[0] == pn['cb']])
        kind = 'steps' if len(steps) != n else 'seen' if sorted(map(str, got['log'])) != sorted(map(str, ref['log'])) else 'order'
        raise Viol(kind, f'called {short(got["log"], 500)}, must call {short(ref["log"], 500)}; {me}')
    if 'err' in ref and 'ok' in got:
        raise Viol('accepted', f'gave {short(got["ok"])}, must fail with {ref["err"]}; {me}')
    if 'err' in got and 'ok' in ref:
        raise Viol('refused', f'failed with {got["err"]}, must give {short(ref["ok"])}; {me}')
    if 'err' in got:
        if got['err'] != ref['err'] or got['mine'] != ref['mine']:
            raise Viol('error', f'failed with {got["err"]} (injected: {got["mine"]}), must fail with {ref["err"]} ({ref["mine"]}); {me}')
        return 'step-failed' if steps else 'failed'
    if got['ok'] != ref['ok']:
        raise Viol('result', f'gave {short(got["ok"])}, must give {short(ref["ok"])}; {me}')
    return 'ok' if steps else 'ok-no-step'


def run(scn):
    shadow = opgen.build(stepless(scn))
    world = opgen.build(scn)
    s = {'ops': 0, 'steps': 0}
    threads = scn['threads']
    TL.c26_shadow, TL.c26_real = shadow, world
    refs = forked(lambda: [reference(scn, op) for t in threads for op in t])
    refs = {(t, k): refs[sum(len(x) for x in threads[:t]) + k] for t, x in enumerate(threads) for k in range(len(x))}
    done = {}
    opc = bool(scn['sched']['op'])

    def one(t, k, op, sim):
        if refs[t, k] is None:
            return
        try:
            if op['o'] in ('copy', 'deepcopy', 'pickle'):
                r = original(world, op)
                if op['o'] == 'pickle':
                    raw = pickle.dumps(r)
                    f = lambda: pickle.loads(raw)
                else:
                    f = lambda: getattr(copy, op['o'])(r)
            else:
                args = [(a, dec(v, world)) for a, v in op['kw']]
                f = lambda: construct(world, op, args)
        except U.Invalid:
            return
        ctx = Ctx(sim, op.get('faults', ()))

        def traced():
            if sim is None:
                return f()
            with sched.traced(ctx, opc):
                return f()

        try:
            got = outcome(traced, ctx)
        except U.Invalid:
            return
        s['ops'] += 1
        for x in ctx.fired:
            s['fault:' + x[1]] = s.get('fault:' + x[1], 0) + 1
        s['steps'] += ctx.steps
        done[t, k] = (op, ctx, got)

    trace = None
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], {t: 60 * len(x) for t, x in enumerate(threads)}))
        sim.run([(lambda t=t, x=x: [one(t, k, op, sim) for k, op in enumerate(x)]) for t, x in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['switches'] = len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)
    trail = []
    det = {'schedule': trace} if trace else {}
    for (t, k), (op, ctx, got) in sorted(done.items(), key=lambda x: x[0]):
        try:
            kind = judge(world, op, ctx, got, refs[t, k])
        except Viol as v:
            raise Viol(v.kind, v.msg, **det)
        s[kind] = s.get(kind, 0) + 1
        trail.append([op, kind])
    return {'nontrivial': s.get('ok', 0) + s.get('step-failed', 0) > 0, 'sum': s, 'sigs': [zlib.crc32(json.dumps([trail, trace]).encode())],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': trace is None and len(trail) > 3}
