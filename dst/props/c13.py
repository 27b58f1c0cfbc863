"""C13: selections are immutable, reusable and shared safely."""
import json
import zlib

from dst import ops, opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.gen import Gen
from dst.userland import Ctx, TL, canon, dec
from dst.world import select_kwargs

ID = 'C13'
QUICK = 9000
THOROUGH = 180000
RULE = ('seeded simple record classes with user-made selectable factories and exporters, a seeded set of selections (keys given '
        'in fifteen shapes of iterable, many readable once; built directly or merged) and a tree of importers and exporters '
        'derived from each other; 1-3 threads of uses, further derivations, merges and bare calls under one seeded schedule, '
        'some with failing callbacks or interrupted at seeded steps, many failing by themselves; every result is compared with '
        'a reference model (lists of keys per step), and afterwards every selection, importer and exporter is used twice '
        'more; non-trivial: a use selected something and two threads, a failure or a derivation took part')
MEASURE = 'crc of (selections, tree, threads, switch sequence)'
REAL = ['records (all of it)', 'json', 'CPython threads, released one at a time']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'user factories and exporters', 'asynchronous interrupts',
        'reference model of selections']
ASSUMPTIONS = ['renaming a key to itself is not generated: whether it overwrites is open']

NEW = ['A', 'B', 'C', 'D', 'E', 'F', 'ключ', '']
IMPORTS = ['from_mapping', 'from_mapping', 'from_json', 'from_instance', 'mk', 'mk', 'mks']
EXPORTS = ['to_dict', 'to_dict', 'to_json', 'out', 'outn']


def value(g):
    return g.ch([['i', 0], ['i', 1], ['i', 2], ['s', 'a'], ['s', ''], ['n'], ['b', 1], ['l', [['i', 1]]], ['d', [[['s', 'k'], ['i', 1]]]],
                 ['f', 1.5]])


def simple_class(g, name):
    rng = g.rng
    spec = {'name': name, 'bases': [], 'frozen': g.p(0.4), 'style': 'hollow', 'fields': []}
    cand = sorted(g.specs)
    if cand and g.p(0.3):
        spec['bases'] = [g.ch(cand)]
    taken = set()
    for b in spec['bases']:
        taken |= set(g.field_names(b))
    g.prefix = name
    names = [n for n in (['x', 'y', 'z', 'w', 'u', 'v', 'n', 'm'] if g.p(0.6) else ['xy', 'x', 'y', 'zw', 'w', 'u', 'v', 'n']) if n not in taken]
    for n in names[:rng.choice([1, 2, 3, 3])]:
        f = {'name': n, 'node': {'k': 'any', 'toks': []}}
        if g.p(0.35):
            f['default'] = ['v', value(g)] if g.p(0.6) else ['fac', g.cbid('factory'), ['const', value(g)]]
        if g.p(0.3):
            f['tags'] = [g.ch(['t1', 't2'])]
        spec['fields'].append(f)
    g.specs[name] = spec
    g.prefix = ''


def sel(g, keys):
    """a selection that mostly suits a mapping with these keys"""
    if g.p(0.15):
        return g.sel(list(keys), empty=0.2, values=lambda: value(g))
    free = [k for k in keys]
    g.rng.shuffle(free)
    new = list(NEW)
    g.rng.shuffle(new)
    s = {}
    if free and g.p(0.3):
        s['rm'] = [g.ch(g.SHAPES1 + ['str']), [free.pop()]]
    if g.p(0.3):
        s['mrm'] = [g.ch(g.SHAPES1), [free.pop() if free and g.p(0.6) else new[-1]] + ([new[-2]] if g.p(0.3) else [])]
        if len(s['mrm'][1]) == 1 and g.p(0.15):
            s['mrm'][0] = 'str'
    if free and g.p(0.4):
        s['ren'] = [g.ch(g.SHAPES2), [[free.pop(), new.pop()]] + ([[free.pop(), new.pop()]] if free and g.p(0.3) else [])]
    if g.p(0.35):
        s['mren'] = [g.ch(g.SHAPES2), [[free.pop() if free and g.p(0.6) else g.ch(NEW[:3]), new.pop()]]]
    if g.p(0.35):
        s['add'] = [g.ch(g.SHAPES2), [[new.pop(), value(g)] for _ in range(g.ch([1, 1, 2]))]]
    if g.p(0.35):
        s['madd'] = [g.ch(g.SHAPES2), [[g.ch(free) if free and g.p(0.5) else new.pop(), value(g)] for _ in range(g.ch([1, 1, 2]))]]
    for k in ('ren', 'mren'):
        if k in s:
            s[k][1] = [p for p in s[k][1] if p[0] != p[1]]
            if s[k][0] in ('dict', 'odict', 'mproxy', 'items') and len({p[0] for p in s[k][1]}) != len(s[k][1]):
                s[k][0] = 'list'
    return s


def clean(s):
    """no renaming of a key to itself, no lists that a mapping shape would collapse"""
    for k, v in s.items():
        if k in ('ren', 'mren'):
            v[1] = [p for p in v[1] if p[0] != p[1]]
        if k not in ('rm', 'mrm') and v[0] in ('dict', 'odict', 'mproxy', 'items') and len({p[0] for p in v[1]}) != len(v[1]):
            v[0] = 'list'
        if k in ('rm', 'mrm') and (v[0] in ('keys', 'set', 'fset') and len(set(v[1])) != len(v[1]) or v[0] == 'str' and len(v[1]) != 1):
            v[0] = 'list'
    return s


def mapping(g, c):
    kw = {f['name']: value(g) for f in g.fields_of(c) if not f.get('default') or g.p(0.6)}
    if g.p(0.4):
        kw[g.ch(NEW)] = value(g)
    return kw


def gen(rng, i):
    g = Gen(rng, jsonable=True)
    for k in range(rng.choice([1, 1, 2])):
        simple_class(g, f'A{k}')
    names = sorted(g.specs)
    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        c = g.ch(names)
        pool.append(['r', c, [{f['name']: value(g) for f in g.fields_of(c) if not f.get('default') or g.p(0.6)}]])
    keys = g.field_names(names[0])
    sels = []
    used = []  # names that an earlier selection introduces, for later ones to work on
    for j in range(rng.choice([1, 2, 3, 4])):
        if used and g.p(0.35):
            kw = {}
            a, b = g.ch(used), g.ch(NEW)
            if a != b:
                kw[g.ch(['ren', 'mren'])] = [g.ch(g.SHAPES2), [[a, b]]]
            if g.p(0.5):
                kw[g.ch(['madd', 'madd', 'add'])] = [g.ch(g.SHAPES2), [[g.ch(used), value(g)]]]
            if g.p(0.2):
                kw[g.ch(['rm', 'mrm'])] = [g.ch(g.SHAPES1), [g.ch(used)]]
            sels.append({'kw': clean(kw)})
            if g.p(0.7):
                # after the selection that introduces the name, or before
                j = len(sels) - 1
                ks = [j - 1, j] if g.p(0.8) else [j, j - 1]
                sels.append({'merge': ks} if g.p(0.5) else {'merge': [j - 1], 'kw': json.loads(json.dumps(kw))})
        elif sels and g.p(0.25):
            e = {'merge': [g.rng.randrange(len(sels)) for _ in range(g.ch([1, 2, 2]))]}
            if len(e['merge']) < 2 or g.p(0.4):
                e['kw'] = clean(sel(g, keys))
            sels.append(e)
        else:
            sels.append({'kw': clean(sel(g, keys))})
        for c in ('ren', 'mren', 'add', 'madd'):
            used += [p[1] if c in ('ren', 'mren') else p[0] for p in sels[-1].get('kw', {}).get(c, [0, ()])[1]]
    tree = []

    def fresh_step(export, keys):
        if export and g.p(0.3):
            ex = g.export_args(g.ch(names), callbacks=False)
            ex.pop('sort', None)
            return {'export': ex}
        if g.p(0.55):
            st = {'use': [g.rng.randrange(len(sels)) for _ in range(g.ch([1, 1, 2]))]}
            if g.p(0.3):
                st['kw'] = clean(sel(g, keys))
            return st
        return {'kw': clean(sel(g, keys))}

    def root():
        if g.p(0.5):
            what = g.ch(EXPORTS)
            if g.p(0.5):
                j = g.rng.randrange(len(pool))
                return {'what': what, 'r': j, 'c': pool[j][1]}
            return {'what': what, 'c': g.ch(names)}
        return {'what': g.ch(IMPORTS), 'c': g.ch(names)}

    for j in range(rng.choice([1, 2, 4, 6])):
        if tree and g.p(0.6):
            p = g.rng.randrange(len(tree))
            r = p
            while 'from' in tree[r]:
                r = tree[r]['from']
            tree.append({'from': p, 'step': fresh_step(tree[r]['what'] in EXPORTS, g.field_names(tree[r]['c']))})
        else:
            tree.append(root())

    def rootof(h):
        while 'from' in tree[h]:
            h = tree[h]['from']
        return tree[h]

    def arg(h):
        r = rootof(h)
        if r['what'] in EXPORTS:
            return None if 'r' in r else ['ref', g.ch([j for j, p in enumerate(pool) if p[1] == r['c']] or [0])]
        kw = mapping(g, r['c'])
        return ['m', kw, g.ch(['d', 'd', 'd', 'mp', 'od', 'cm'])]

    def use(h):
        a = arg(h)
        op = {'use': h, 'arg': a}
        if rootof(h)['what'] in ('to_dict', 'outn') and g.p(0.35):
            op['ckw'] = g.export_args(rootof(h)['c'], callbacks=False)
            op['ckw'].pop('sort', None)
        k = rng.random()
        if k < 0.2:
            op['intr'] = [g.ch(sorted(U.BASE)), g.ch([1, 2, 3, 5, 8, 12, 18, 27])]
        elif k < 0.3:
            op['faults'] = [{'cb': g.ch(['mk', 'out', 'outn']), 'act': ['raise', g.ch(U.ORDINARY)]}]
        return op

    threads = []
    hot = g.rng.randrange(len(tree))
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        t = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.random()
            h = hot if g.p(0.5) else g.rng.randrange(len(tree))
            if k < 0.45:
                op = use(h)
            elif k < 0.7:
                r = rootof(h)
                op = use(h)
                op['step'] = fresh_step(r['what'] in EXPORTS, g.field_names(r['c']))
            elif k < 0.85:
                op = {'call': g.rng.randrange(len(sels)), 'm': mapping(g, g.ch(names)), 'shape': g.ch(['d', 'd', 'od', 'mp', 'cm'])}
            else:
                op = {'merge': [g.rng.randrange(len(sels)) for _ in range(g.ch([2, 2, 3]))], 'm': mapping(g, g.ch(names)), 'shape': 'd'}
                if g.p(0.3):
                    op['kw'] = clean(sel(g, keys))
            t.append(op)
        threads.append(t)
    finals = [use(h) for h in range(len(tree))]
    for u in finals:
        u.pop('intr', None)
        u.pop('faults', None)
    calls = [{'call': j, 'm': mapping(g, g.ch(names)), 'shape': 'd'} for j in range(len(sels))]
    return {'classes': list(g.specs.values()), 'pool': pool, 'sels': sels, 'tree': tree, 'threads': threads, 'queries': finals + calls,
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.5)}}


# ------------------------------------------------------------------ the reference model
class Fails(Exception):
    pass


CATS = ('rm', 'mrm', 'ren', 'mren', 'add', 'madd')


def eff_kw(s):
    return {c: list(s[c][1]) if c in s else [] for c in CATS}


def eff_join(*xs):
    return {c: [k for x in xs for k in x[c]] for c in CATS}


def eff_sel(scn, j):
    e = scn['sels'][j]
    parts = [eff_sel(scn, i) for i in e.get('merge', ())]
    if e.get('kw'):
        parts.append(eff_kw(e['kw']))
    return eff_join(*parts) if parts else eff_kw({})


def eff_step(scn, st):
    parts = [eff_sel(scn, i) for i in st.get('use', ())]
    if st.get('kw'):
        parts.append(eff_kw(st['kw']))
    return eff_join(*parts) if parts else eff_kw({})


def eff_node(scn, h):
    """(root, selection, export arguments)"""
    n = scn['tree'][h]
    if 'from' not in n:
        return n, eff_kw({}), []
    root, e, ex = eff_node(scn, n['from'])
    return root, *extend(scn, e, ex, n['step'])


def extend(scn, e, ex, st):
    if 'export' in st:
        return e, ex + [st['export']]
    return eff_join(e, eff_step(scn, st)), ex


def apply(e, m, world):
    m = dict(m)
    for k in e['rm']:
        if k not in m:
            raise Fails(f'{k} to be removed is missing')
        del m[k]
    for k in e['mrm']:
        m.pop(k, None)
    for a, b in e['ren']:
        if b in m:
            raise Fails(f'{b} would be overwritten')
        if a not in m:
            raise Fails(f'{a} to be renamed is missing')
        m[b] = m.pop(a)
    for a, b in e['mren']:
        if a in m:
            if b in m:
                raise Fails(f'{b} would be overwritten')
            m[b] = m.pop(a)
    for k, v in e['add']:
        if k in m:
            raise Fails(f'{k} would be overwritten')
        m[k] = dec(v, world)
    for k, v in e['madd']:
        if k not in m:
            m[k] = dec(v, world)
    return m


def unordered(m):
    return sorted(([k, canon(v)] for k, v in m.items()), key=json.dumps)


def from_instance_map(cls, r, e, defaults):
    """what is read from an instance with attributes r: fields and the keys the selection asks for; None: not determined

    (attributes equal to their field's plain default are left out, so that the result holds the default itself)"""
    names = U.REG[cls]
    twins = [k for k in names if k in r and k in defaults and r[k] == defaults[k]]
    if any(k in twins for k in e['rm'] + e['mrm'] + [a for p in e['ren'] + e['mren'] for a in p]):
        return None
    r = {k: v for k, v in r.items() if k not in twins}
    need = [k for k in names if k not in {a for a, _ in e['add']}]
    if any(k in names for k, _ in e['add']) and any(k in r for k, _ in e['add']):
        return None
    touched = set(e['rm']) | {a for p in e['ren'] + e['mren'] for a in p}
    if len(e['rm']) + 2 * len(e['ren']) + 2 * len(e['mren']) != len(touched):
        return None
    out = {}
    for k in need:
        if k in r:
            out[k] = r[k]
    for k in e['rm'] + [a for a, _ in e['ren'] + e['mren']]:
        if k in r:
            out[k] = r[k]
    return out


def plain_defaults(scn, world, c):
    out = {}
    for n, (spec, f) in world.field_specs(c).items():
        if (spec['name'], n) in world.defaults:
            out[n] = world.defaults[spec['name'], n]
    return out


def expected(scn, world, op):
    """['ok', description] | ['fail', why] | None"""
    try:
        if 'call' in op:
            return ['ok', unordered(apply(eff_sel(scn, op['call']), {k: dec(v, world) for k, v in op['m'].items()}, world))]
        if 'merge' in op:
            parts = [eff_sel(scn, i) for i in op['merge']] + ([eff_kw(op['kw'])] if op.get('kw') else [])
            return ['ok', unordered(apply(eff_join(*parts), {k: dec(v, world) for k, v in op['m'].items()}, world))]
        root, e, ex = eff_node(scn, op['use'])
        if op.get('step'):
            e, ex = extend(scn, e, ex, op['step'])
        what = root['what']
        cls = world.classes[root['c']]
        if what in EXPORTS:
            r = world.pool[root['r']] if 'r' in root else dec(op['arg'], world)
            if type(r) not in U.REG:
                return None
            kw = {}
            for x in ex:
                kw.update(ops.export_kw(world, x))
            kw.update(ops.export_kw(world, op.get('ckw')))
            owner = type(r) if 'r' in root else cls
            try:
                m = dict(owner.to_dict(r, **kw))
            except Exception:
                return None
            m = apply(e, m, world)
            if what == 'to_json':
                m = json.loads(json.dumps(m))
            return ['ok', unordered(m)]
        m = {k: dec(v, world) for k, v in op['arg'][1].items()}
        if what == 'from_instance':
            m = from_instance_map(cls, m, e, plain_defaults(scn, world, root['c']))
            if m is None:
                return None
        elif what == 'from_json':
            m = json.loads(json.dumps(m))
        m = apply(e, m, world)
        if what == 'from_instance' and len(m) > len(set(m) & set(U.REG[cls])):
            return None
    except Fails as f:
        if 'use' in op and what == 'from_instance':
            return None
        return ['fail', str(f)]
    try:
        res = cls(**m)
    except Exception as x:
        return ['fail', repr(x)]
    return ['ok', canon(res)]


def shaped_map(kw, shape, world):
    return dec([shape, [[['s', k], v] for k, v in kw.items()]], world)


# ------------------------------------------------------------------ the real thing
def prepare(scn):
    world = opgen.build({k: v for k, v in scn.items() if k in ('classes', 'pool')})
    from records.select import Select, SelectableFactory, SelectableShortcutFactory, Exporter, NoArgExporter

    def cb(name, v):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback(name, 'user', 'ident', None)
        return v

    for cls in world.classes.values():
        def mk(cls, m):
            return cb('mk', dict(m))

        def out(m, *args):
            return cb('out', m)

        def outn(m):
            return cb('outn', m)
        def short_mk(cls, m):
            return cb('mk', cls(**m)) if len(m) % 2 else NotImplemented

        cls.mk = SelectableFactory(classmethod(mk))
        cls.mks = SelectableShortcutFactory(classmethod(mk)).shortcut(classmethod(short_mk))
        cls.out = Exporter(staticmethod(out))
        cls.outn = NoArgExporter(staticmethod(outn))
    for e in scn['sels']:
        if 'merge' in e:
            s0, *rest = [world.selects[i] for i in e['merge']]
            kw = select_kwargs(e.get('kw', {}), world)
            world.selects.append(s0.merge(*rest, **kw) if rest or kw else s0)
        else:
            world.selects.append(Select(**select_kwargs(e['kw'], world)))
    handles = []
    for n in scn['tree']:
        if 'from' in n:
            handles.append(derive(world, handles[n['from']], n['step']))
        else:
            owner = world.pool[n['r']] if 'r' in n else world.classes[n['c']]
            if 'r' in n and type(owner) not in U.REG:
                raise U.Invalid('no record')
            handles.append(getattr(owner, n['what']))
    world.handles = handles
    return world


def derive(world, h, st):
    if 'export' in st:
        return h.export_with(**ops.export_kw(world, st['export']))
    return h.select(*[world.selects[i] for i in st.get('use', ())], **select_kwargs(st.get('kw', {}), world)) \
        if st.get('use') or st.get('kw') else h


def perform(scn, world, op):
    if 'call' in op:
        res = world.selects[op['call']](shaped_map(op['m'], op['shape'], world))
        return unordered(res)
    if 'merge' in op:
        s0, *rest = [world.selects[i] for i in op['merge']]
        m = s0.merge(*rest, **select_kwargs(op.get('kw', {}), world))
        return unordered(m(shaped_map(op['m'], op['shape'], world)))
    h = world.handles[op['use']]
    if op.get('step'):
        h = derive(world, h, op['step'])
    root = eff_node(scn, op['use'])[0]
    what = root['what']
    if what in EXPORTS:
        ckw = ops.export_kw(world, op.get('ckw'))
        res = h(**ckw) if 'r' in root else h(dec(op['arg'], world), **ckw)
        if what == 'to_json':
            res = json.loads(res)
        return unordered(res)
    kw, shape = op['arg'][1:]
    if what == 'from_json':
        res = h(json.dumps({k: dec(v, world) for k, v in kw.items()}))
    elif what == 'from_instance':
        from types import SimpleNamespace
        res = h(SimpleNamespace(**{k: dec(v, world) for k, v in kw.items()}))
    else:
        res = h(shaped_map(kw, shape, world))
    return canon(res)


def run(scn):
    world = prepare(scn)
    opc = bool(scn['sched']['op'])
    threads = scn['threads']
    for q in [op for t in threads for op in t] + scn['queries']:
        if any(i >= len(world.selects) for i in q.get('merge', ())) or q.get('call', 0) >= len(world.selects):
            raise U.Invalid('no such select')
    want = [[norm(forked(lambda: expected(scn, world, op))) for op in t] for t in threads]
    wantq = [norm(forked(lambda: expected(scn, world, op))) for op in scn['queries']]
    got = {}

    def one(t, k, op, sim):
        ctx = Ctx(sim, op.get('faults', ()))
        if op.get('intr'):
            ctx.interrupt_name, ctx.interrupt_at = op['intr']
        TL.ctx = ctx
        try:
            with sched.traced(ctx, opc and sim is not None):
                val = perform(scn, world, op)
            out = ['ok', val]
        except (U.Invalid, sched.SimAbort):
            raise
        except BaseException as e:
            out = ['fail', repr(e)]
        TL.ctx = None
        got[t, k] = (norm(out), ctx)

    trace = None
    s = {'uses': 0, 'succeeded': 0}
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'],
                                            {t: 40 * len(o) * (3 if opc else 1) for t, o in enumerate(threads)}))
        sim.run([(lambda t=t, x=x: [one(t, k, op, sim) for k, op in enumerate(x)]) for t, x in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)
    det = {'schedule': trace} if trace else {}

    def compare(op, a, b, when):
        if a is None:
            s['undetermined'] = s.get('undetermined', 0) + 1
            return
        s['uses'] += 1
        s['succeeded'] += a[0] == 'ok'
        if a[0] != b[0]:
            raise Viol('accepted' if a[0] == 'fail' else 'refused',
                       f'{describe(scn, op)} {when}: {short(b)}, the model says {short(a)}', **det)
        if a[0] == 'ok' and a[1] != b[1]:
            raise Viol('result', f'{describe(scn, op)} {when}: {short(b[1])}, the model says {short(a[1])}', **det)

    eventful = len(threads) > 1
    for (t, k), (out, ctx) in sorted(got.items()):
        op = threads[t][k]
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        eventful = eventful or 'step' in op or out[0] == 'fail'
        if ctx.fired or ctx.interrupt_exc is not None:
            continue
        compare(op, want[t][k], out, f'in thread {t}')
    for rnd in range(2):
        for q, a in zip(scn['queries'], wantq):
            try:
                b = ['ok', perform(scn, world, q)]
            except U.Invalid:
                raise
            except Exception as e:
                b = ['fail', repr(e)]
            compare(q, a, norm(b), f'afterwards, time {rnd + 1}')
    selecting = any(v for j in range(len(scn['sels'])) for v in eff_sel(scn, j).values())
    sig = zlib.crc32(json.dumps([scn['sels'], scn['tree'], threads, trace]).encode())
    return {'nontrivial': bool(eventful and selecting and s['uses']), 'sum': s, 'sigs': [sig],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': eventful and len(threads) > 1}


def describe(scn, op):
    if 'use' in op:
        root, e, ex = eff_node(scn, op['use'])
        if op.get('step'):
            e, ex = extend(scn, e, ex, op['step'])
        return f"{root['what']} of {root['c']} with {short({k: v for k, v in e.items() if v})} {short(ex) if ex else ''} applied to {short(op.get('arg') or '')} {short(op.get('ckw') or '')}"
    return short({k: v for k, v in op.items() if k != 'shape'}) + (
        ' of ' + short({k: v for k, v in eff_sel(scn, op['call']).items() if v}) if 'call' in op else '')
