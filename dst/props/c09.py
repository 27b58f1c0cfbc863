"""C09: frozen records never change and hash consistently."""
import json
import zlib

from dst import ops, opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.gen import Gen, flavour
from dst.userland import Ctx, TL, canon

ID = 'C09'
QUICK = 15000
THOROUGH = 150000
RULE = ('seeded frozen record classes (children of frozen and of mutable classes, post_new steps that hash or replace the record) '
        'with hashable values, some of whose own __hash__, __eq__ and __lt__ are fault points; 2-6 shared records with equal '
        'twins; 2-4 threads of 1-4 hash, compare, set-lookup, copy, deepcopy, pickle, export, repr, setattr and delattr calls '
        'under one seeded schedule, with failing value callbacks and asynchronous interrupts at seeded steps; afterwards all '
        'records and all copies made are compared pairwise and with newly built twins; non-trivial: two threads or a fault')
MEASURE = 'crc of (threads, switch sequence, outcomes)'
REAL = ['records (all of it)', 'CPython threads, released one at a time', 'copy', 'pickle', 'json']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'user callbacks, value hashes and comparisons',
        'asynchronous interrupts']
ASSUMPTIONS = ['equality of field values is decided by the values themselves (reflexive, hash-consistent values only)']

NAMES = ['zzz', 'to_dict', 'parse', 'post_new', 'mix_attr', 'from_mapping', 'extra', 'x', 'is_frozen']
TWINV = [[['i', 1], ['b', 1], ['f', 1.0], ['is', 1]], [['i', 0], ['b', 0], ['f', 0.0]], [['s', 'a'], ['ss', 'a']],
         [['i', 3], ['f', 3.0], ['fr', 3, 1], ['is', 3]], [['t', [['i', 1]]], ['ts', [['i', 1]]], ['t', [['b', 1]]]]]


def value(g):
    k = g.rng.random()
    if k < 0.45:
        return ['o', g.ch(['HK', 'HK', 'HK', 'P', 'Obj', 'Square']), g.ch([0, 1, 2, 1])]
    if k < 0.65:
        return g.ch(g.ch(TWINV))
    if k < 0.72:
        return ['t', [value(g) for _ in range(g.rng.randrange(3))]]
    if k < 0.77:
        return ['F', [['i', i] for i in g.rng.sample(range(9), 3)]]
    return g.hashable_value()


def twinned(g, e):
    """an equal value, perhaps of another type"""
    if g.p(0.5):
        for grp in TWINV:
            if e in grp:
                return g.ch(grp)
    if e[0] in ('t',):
        return ['t', [twinned(g, x) for x in e[1]]]
    return json.loads(json.dumps(e))


def simple_class(g, name):
    rng = g.rng
    spec = {'name': name, 'bases': [], 'frozen': True, 'style': 'hollow', 'fields': []}
    cand = sorted(g.specs)
    if cand and g.p(0.5):
        spec['bases'] = [g.ch(cand)]
    if g.p(0.1):
        spec['bases'].append('Mixin')
    taken = set()
    for b in spec['bases']:
        if b in g.specs:
            taken |= set(g.field_names(b))
    names = [n for n in ['x', 'y', 'z', 'w', 'u', 'v', 'n', 'm'] if n not in taken]
    g.prefix = name
    for n in names[:rng.choice([1, 2, 2, 3])]:
        f = {'name': n, 'node': {'k': 'any', 'toks': []}}
        if g.p(0.4):
            if g.p(0.6):
                f['default'] = ['v', value(g)]
            else:
                f['default'] = ['fac', g.cbid('factory'), ['const', g.hashable_value()]]
        if g.p(0.2):
            f['tags'] = ['noorder' if g.p(0.5) else 't1']
        if g.p(0.1):
            f['final'] = True
        spec['fields'].append(f)
    if g.p(0.4):
        spec['ordered'] = True
    if g.p(0.3):
        pn = {'cb': g.cbid('post_new'), 'mode': g.ch(['hash', 'hash', 'twin', 'self', 'none'])}
        spec['post_new'] = pn
    if g.p(0.1):
        spec['bool'] = False
    if g.p(0.15):
        spec['frozen'] = False  # a mutable class among them
        for f in spec['fields']:
            f.pop('final', None)
    g.specs[name] = spec
    g.prefix = ''


def gen(rng, i):
    simple = rng.random() < 0.7
    g = Gen(rng, hashable=True)
    for k in range(rng.choice([1, 2, 2, 3])):
        if simple:
            simple_class(g, f'A{k}')
        else:
            g.cls(f'A{k}', frozen=rng.random() < 0.9, post_modes=['hash', 'hash', 'self', 'none', 'twin'], p_post=0.3, p_parsers=0)
    names = sorted(g.specs)
    frozen = [n for n in names if g.specs[n].get('frozen')]
    if not frozen:
        g.specs[names[-1]]['frozen'] = True
        frozen = [names[-1]]
    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        c = g.ch(frozen)
        if simple:
            kw = {f['name']: value(g) for f in g.fields_of(c) if not f.get('default') or g.p(0.6)}
            for f in g.fields_of(c):  # values equal to the default
                d = f.get('default')
                if f['name'] in kw and d and d[0] == 'v' and g.p(0.4):
                    kw[f['name']] = twinned(g, d[1])
            alts = [kw]
        else:
            alts = g.record_alts(c)[2]
        pool.append(['r', c, alts])
        for _ in range(rng.choice([0, 1, 1, 2])):
            t = [{k: twinned(g, v) for k, v in kw.items()} for kw in alts]
            if g.p(0.3):
                for kw in t:
                    ks = list(kw)
                    rng.shuffle(ks)
                    t = [{k: kw[k] for k in ks}] + t[1:]
                    break
            pool.append(['r', c, t])
    n = len(pool)
    threads = []
    nt = rng.choice([1, 2, 2, 3, 4])
    focus = rng.randrange(n)
    hot = rng.choice(['hash', 'hash', 'eq', 'copy', None])

    def ref():
        return ['ref', focus if g.p(0.6) else rng.randrange(n)]

    for _ in range(nt):
        ops_ = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            o = hot if hot and g.p(0.4) else g.ch(['hash', 'hash', 'eq', 'ne', 'inset', 'copy', 'deepcopy', 'pickle_rt', 'to_dict', 'repr',
                                                   'setattr', 'setattr', 'delattr', 'lt', 'from_instance', 'rebuild'])
            op = {'o': o, 'r': ref()}
            c = pool[op['r'][1]][1]
            if o in ('eq', 'ne', 'lt'):
                op = {'o': o, 'a': op['r'], 'b': ref()}
            elif o == 'inset':
                op = {'o': o, 'a': op['r'], 'bs': [ref() for _ in range(2)]}
            elif o == 'pickle_rt':
                op.update(c=c, proto=g.ch([2, 3, 4, 5]))
            elif o in ('setattr', 'delattr'):
                op['n'] = g.ch(g.field_names(c)) if g.p(0.7) else g.ch(NAMES)
                if o == 'setattr':
                    op['v'] = value(g)
            elif o == 'from_instance':
                op = {'o': o, 'c': c, 'a': [op['r']]}
            elif o == 'to_dict' and g.p(0.5):
                op['ex'] = {'include_defaults': True}
            k = rng.random()
            if k < 0.25:
                op['intr'] = g.ch(sorted(U.BASE))
                op['intr_at'] = g.ch([1, 2, 3, 4, 5, 7, 9, 12, 16, 22, 30, 45, 70])
            elif k < 0.5:
                f = {'cb': g.ch(['hk-hash', 'hk-hash', 'hk-eq', 'hk-lt', 'hk-repr']),
                     'act': ['raise', g.ch(U.ORDINARY + ['TypeError'] * 6)]}
                if g.p(0.4):
                    f['when'] = ['mod', 2, rng.randrange(2)]
                op['faults'] = [f]
            ops_.append(op)
        threads.append(ops_)
    return {'classes': list(g.specs.values()), 'pool': pool, 'threads': threads,
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.5)}}


def fields(r):
    return [getattr(r, n) for n in U.REG[type(r)]]


def same_fields(a, b):
    return type(a) is type(b) and all(x == y for x, y in zip(fields(a), fields(b)))


def rebuild(r):
    """a new record from the values of r, or None if its class does not take them as they are"""
    try:
        t = type(r)(**dict(zip(U.REG[type(r)], fields(r))))
    except Exception:
        return None
    return t if type(t) is type(r) and all(x is y for x, y in zip(fields(t), fields(r))) else None


def perform(world, op):
    if op['o'] == 'rebuild':
        r = ops.resolve(world, op['r'])
        if type(r) not in U.REG:
            return None
        return type(r)(**dict(zip(U.REG[type(r)], fields(r))))
    return ops.raw(world, op)


def try_hash(r):
    try:
        return hash(r)
    except TypeError:
        return None


def run(scn):
    world = opgen.build(scn)
    recs = {i: p for i, p in enumerate(world.pool) if type(p) in U.REG and type(p).is_frozen()}
    if not recs:
        return {'nontrivial': False, 'sum': {}, 'sigs': []}
    before = {i: (norm(canon(r)), [id(v) for v in fields(r)]) for i, r in recs.items()}
    h0 = {i: forked(lambda: try_hash(r)) for i, r in recs.items()}
    threads = scn['threads']
    opc = bool(scn['sched']['op'])
    results = {}
    made = []

    def one(t, k, op, sim):
        ctx = Ctx(sim, op.get('faults', ()))
        ctx.interrupt_at, ctx.interrupt_name = op.get('intr_at'), op.get('intr')
        TL.ctx = ctx
        try:
            with sched.traced(ctx, opc):
                val = perform(world, op)
            TL.ctx = None
            out = ('ok', canon(val))
            if type(val) in U.REG and type(val).is_frozen():
                made.append(val)
        except (U.Invalid, sched.SimAbort):
            raise
        except BaseException as e:
            TL.ctx = None
            out = ('err', [c.__name__ for c in type(e).__mro__], str(e))
        results[t, k] = (out, bool(ctx.fired) or ctx.interrupt_exc is not None, ctx)

    trace = None
    s = {'ops': 0, 'records': len(recs)}
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'],
                                            {t: 40 * len(o) * (3 if opc else 1) for t, o in enumerate(threads)}))
        sim.run([(lambda t=t, o=o: [one(t, k, op, sim) for k, op in enumerate(o)]) for t, o in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)

    def viol(kind, msg):
        raise Viol(kind, msg, **({'schedule': trace} if trace else {}))

    faulty = False
    for (t, k), (out, hit, ctx) in sorted(results.items()):
        op = threads[t][k]
        s['ops'] += 1
        faulty = faulty or hit
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        r = op.get('r') or op.get('a')
        i = r[1] if isinstance(r, list) and r and r[0] == 'ref' else None
        if i not in recs:
            continue
        if op['o'] == 'hash':
            if out[0] == 'ok':
                if h0[i] is None or norm(out[1]) != norm(canon(h0[i])):
                    viol('hash', f'thread {t} op {k}: hash of record {i} ({short(before[i][0])}) is {out[1]}, alone {h0[i]}')
            elif not hit and h0[i] is not None:
                viol('hash-raised', f'thread {t} op {k}: hash of record {i} raised {out[1][0]}({out[2]})')
        elif op['o'] in ('setattr', 'delattr'):
            if out[0] == 'ok':
                viol('assigned', f"thread {t} op {k}: {short(op)} succeeded on a frozen record")
            if not hit and 'TypeError' not in out[1]:
                viol('assign-error', f'thread {t} op {k}: {short(op)} raised {out[1][0]}({out[2]}), must be a TypeError')
        elif op['o'] in ('eq', 'ne') and op['b'][1] in recs:
            want = same_fields(recs[i], recs[op['b'][1]])
            if out[0] == 'ok':
                if out[1] != ['b', int(want == (op['o'] == 'eq'))]:
                    viol('equality', f'thread {t} op {k}: {short(op)} of {short(before[i][0])} and {short(before[op["b"][1]][0])} '
                                     f'is {out[1]}')
            elif not hit:
                viol('equality-raised', f'thread {t} op {k}: {short(op)} raised {out[1][0]}({out[2]})')
        elif op['o'] == 'inset' and all(b[1] in recs for b in op['bs']) and out[0] == 'ok':
            want = any(same_fields(recs[i], recs[b[1]]) for b in op['bs'])
            if out[1] != ['b', int(want)]:
                viol('set-lookup', f'thread {t} op {k}: {short(op)} of {short(before[i][0])} is {out[1]}, must be {want}')
    for i, r in recs.items():
        now = (norm(canon(r)), [id(v) for v in fields(r)])
        if now != before[i]:
            viol('changed', f'frozen record {i} was {short(before[i][0])}, is {short(now[0])}')
        extra = [n for n in getattr(r, '__dict__', {}) if n not in U.REG[type(r)]]
        if extra:
            viol('changed', f'frozen record {i} has got attributes {extra}')
        if try_hash(r) != h0[i]:
            viol('hash-later', f'hash of record {i} ({short(before[i][0])}) was {h0[i]}, is {try_hash(r)}')
    everything = list(recs.values()) + [m for m in made if not any(m is r for r in recs.values())][:10]
    for r in list(everything):
        t = rebuild(r)
        if t is not None:
            everything.append(t)
    pairs = 0
    for a in everything:
        for b in everything:
            if a is b or not same_fields(a, b):
                continue
            pairs += 1
            what = f'{short(norm(canon(a)))} and {short(norm(canon(b)))} of class {type(a).__name__}'
            if not (a == b) or a != b:
                viol('twins-differ', f'{what} have equal fields but are not equal')
            ha, hb = try_hash(a), try_hash(b)
            if ha != hb:
                viol('twins-hash', f'{what} have equal fields but hashes {ha} and {hb}')
    s['twin-pairs'] = pairs
    sig = zlib.crc32(json.dumps([scn['threads'], trace, norm([r[0] for _, r in sorted(results.items())])]).encode())
    return {'nontrivial': len(threads) > 1 or faulty, 'sum': s, 'sigs': [sig],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': faulty and len(threads) > 1}
