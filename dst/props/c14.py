"""C14: copies are equal to their original and independent of it."""
import copy
import json
import zlib
from collections import ChainMap, deque
from types import SimpleNamespace

from dst import ops, opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.gen import Gen, flavour
from dst.userland import Ctx, TL, canon, dec

ID = 'C14'
QUICK = 30000
THOROUGH = 180000
RULE = ('seeded record classes (frozen and mutable, mutable defaults, checked fields whose coercers and validators are not '
        'idempotent), a pool of objects that share mutable objects and refer to each other (also in cycles) and hold values '
        'assigned and mutated afterwards, also ones their fields would not take; 1-3 threads of copies, deep copies, deep copies '
        'of several objects at once or with a caller-supplied memo, each perhaps followed by mutations of the copy, under one '
        'seeded schedule, with failing or interrupted copying (a value\'s own __deepcopy__, any step); then records are '
        'constructed anew, originals are mutated, and object graphs with identities are compared; non-trivial: a copy was made '
        'and it was deep, mutated, faulty or concurrent')
MEASURE = 'crc of (pool graph, operations, switch sequence)'
REAL = ['records (all of it)', 'copy', 'CPython threads, released one at a time']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'user callbacks and __deepcopy__', 'asynchronous interrupts']
ASSUMPTIONS = ['what deepcopy does to the field values themselves (by their own types) is taken as given']


# ------------------------------------------------------------------ generation
def value(g, refs, d=0):
    k = g.rng.random()
    if refs and k < 0.25:
        return ['ref', g.ch(refs)]
    if k < 0.45 or d > 3:
        return g.ch([['i', 0], ['i', 1], ['i', 7], ['s', 'a'], ['n'], ['b', 1], ['f', 1.5], ['y', '00ff'], ['ty', 'int'], ['fn', 'len'],
                     ['o', 'Colour', 1], ['fr', 1, 2], ['e'], ['t', [['i', 1]]], ['o', 'P', 1], ['o', 'Obj', 1], ['is', 3]])
    if k < 0.6:
        return ['l', [value(g, refs, d + 1) for _ in range(g.rng.randrange(3))]]
    if k < 0.7:
        return ['d', [[['s', f'k{i}'], value(g, refs, d + 1)] for i in range(g.rng.randrange(3))]]
    if k < 0.78:
        return ['t', [value(g, refs, d + 1) for _ in range(g.rng.randrange(3))]]
    if k < 0.9:
        return ['o', 'Box', g.rng.randrange(4)]
    return g.ch([['S', [['i', 1], ['i', 2]]], ['q', [['i', 1]], None], ['dd', [[['s', 'a'], ['l', []]]]], ['ls', [['l', []]]],
                 ['ds', [[['s', 'a'], ['l', []]]]], ['od', [[['s', 'a'], ['l', []]]]], ['F', [['i', 1]]], ['ns', {'a': ['l', []]}],
                 ['cm', [[['s', 'a'], ['l', []]]]], ['ts', [['l', []]]]])


def simple_class(g, name):
    rng = g.rng
    spec = {'name': name, 'bases': [], 'frozen': g.p(0.4), 'style': 'hollow', 'fields': []}
    cand = sorted(g.specs)
    if cand and g.p(0.4):
        spec['bases'] = [g.ch(cand)]
    if g.p(0.1):
        spec['bases'].append('Mixin')
    taken = set()
    for b in spec['bases']:
        if b in g.specs:
            taken |= set(g.field_names(b))
    names = [n for n in ['x', 'y', 'z', 'w', 'u', 'v', 'n', 'm'] if n not in taken]
    g.prefix = name
    for n in names[:rng.choice([1, 2, 2, 3])]:
        f = {'name': n, 'node': {'k': 'any', 'toks': []}}
        k = rng.random()
        if k < 0.15:  # fillers that must not run again
            f['node'] = {'k': 'plain', 't': 'list', 'toks': [['style', 'check'], ['co', g.cbid('coercer'), 'wrap'],
                                                            ['va', g.cbid('validator'), g.ch(['dbl', 'rev', 'cpl'])]]}
        elif k < 0.25:
            f['node'] = {'k': 'plain', 't': 'int', 'toks': [['style', 'check'], ['va', g.cbid('validator'), 'inc']]}
        elif k < 0.3:
            f['node'] = {'k': 'self', 'c': name}
        if g.p(0.45):
            v = {'self': ['n']}.get(f['node']['k'])
            if v is None:
                v = ['i', 4] if f['node'].get('t') == 'int' else ['l', []] if f['node'].get('t') == 'list' else value(g, [])
            f['default'] = ['v', v] if g.p(0.6) else ['fac', g.cbid('factory'), ['const', v]]
        if g.p(0.2):
            f['tags'] = ['t1']
        spec['fields'].append(f)
    if g.p(0.25):
        spec['ordered'] = True
    if g.p(0.2):
        spec['post_new'] = {'cb': g.cbid('post_new'), 'mode': g.ch(['hash', 'attr', 'none', 'twin', 'self'])}
    if g.p(0.08):
        spec['bool'] = False
    g.specs[name] = spec
    g.prefix = ''


def gen(rng, i):
    simple = rng.random() < 0.75
    if simple:
        g = Gen(rng)
        for k in range(rng.choice([1, 2, 2, 3])):
            simple_class(g, f'A{k}')
    else:
        g = flavour(rng)
        for k in range(rng.choice([1, 2])):
            g.cls(f'A{k}', p_post=0.2, p_parsers=0)
    names = sorted(g.specs)
    pool, recs = [], []
    for _ in range(rng.choice([2, 3, 4, 6])):
        if simple:
            if pool and g.p(0.3):
                pool.append(value(g, list(range(len(pool)))) if g.p(0.5) else
                            g.ch([['l', []], ['d', []], ['o', 'Box', 1], ['l', [['l', []]]]]))
                continue
            c = g.ch(names)
            kw = {}
            for f in g.fields_of(c):
                if f.get('default') and g.p(0.4):
                    continue
                n = f['node']
                kw[f['name']] = ['n'] if n['k'] == 'self' else g.ch([['i', 1], ['i', 5]]) if n.get('t') == 'int' else \
                    ['l', []] if n.get('t') == 'list' and g.p(0.5) else value(g, list(range(len(pool))))
            alts = [kw]
        else:
            c = g.ch(names)
            alts = g.record_alts(c)[2]
        recs.append(len(pool))
        pool.append(['r', c, alts])
    if not recs:
        recs.append(len(pool))
        pool.append(['r', names[0], g.record_alts(names[0])[2]])
    everything = list(range(len(pool)))
    pre = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        if g.p(0.5):
            r = g.ch(recs)
            pre.append({'r': r, 'n': g.ch(g.field_names(pool[r][1])), 'v': value(g, everything)})
        else:
            pre.append({'r': g.ch(everything), 'node': g.rng.randrange(6), 'v': value(g, everything)})

    def target():
        k = rng.random()
        hot = recs[0] if g.p(0.5) else g.ch(recs)
        if k < 0.6:
            return ['ref', hot]
        if k < 0.8:
            return [g.ch('lt'), [['ref', hot], ['ref', g.ch(everything)]] + ([['ref', hot]] if g.p(0.3) else [])]
        if k < 0.9:
            return ['d', [[['s', 'a'], ['ref', hot]], [['s', 'b'], ['ref', g.ch(everything)]]]]
        return ['l', [['l', [['ref', hot]]], ['ref', g.ch(everything)]]]

    threads = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        t = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.random()
            if k < 0.35:
                op = {'o': 'copy', 't': ['ref', recs[0] if g.p(0.4) else g.ch(recs)]}
            elif k < 0.85:
                op = {'o': 'deepcopy', 't': target()}
            else:
                op = {'o': 'memo', 't': target(), 't2': target()}
            if op['o'] != 'memo' and op['t'][0] == 'ref' and g.p(0.25):
                op['direct'] = 1
            if g.p(0.6):
                op['mut'] = [[g.rng.randrange(8), g.rng.randrange(4)] for _ in range(g.ch([1, 2, 4]))]
            k = rng.random()
            if k < 0.2:
                op['intr'] = g.ch(sorted(U.BASE))
                op['intr_at'] = g.ch([1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 17])
            elif k < 0.4:
                op['faults'] = [{'cb': 'box-deepcopy', 'act': ['raise', g.ch(U.ORDINARY)] if g.p(0.7) else ['raiseB', g.ch(sorted(U.BASE))]}]
                if g.p(0.4):
                    op['faults'][0]['when'] = ['mod', 2, rng.randrange(2)]
            t.append(op)
        threads.append(t)
    fresh = [[c, g.kwargs_for(c, 0.97, p_opt=0.1) if not simple else
              {f['name']: (['n'] if f['node']['k'] == 'self' else ['i', 1] if f['node'].get('t') == 'int' else ['l', []])
               for f in g.fields_of(c) if not f.get('default')}] for c in names]
    post = [[r, g.rng.randrange(8), g.rng.randrange(4)] for r in everything for _ in range(2)]
    return {'classes': list(g.specs.values()), 'pool': pool, 'pre': pre, 'threads': threads, 'fresh': fresh, 'post': post,
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.5)}}


# ------------------------------------------------------------------ object graphs
def children(v):
    """('m'utable | 'i'mmutable compound, label, children) or None for an atom"""
    t = type(v)
    if t in U.REG:
        kids = []
        for n in U.REG[t]:
            kids.append(vars(v).get(n, MISSING))
        return 'i' if t.is_frozen() else 'm', ['r', t.__qualname__], kids
    if isinstance(v, (list, deque)):
        return 'm', [t.__name__, getattr(v, 'maxlen', None)], list(v)
    if isinstance(v, tuple):
        return 'i', [t.__name__], list(v)
    if isinstance(v, dict):
        items = list(dict.items(v))
        return 'm', [t.__name__, [canon(k) for k, _ in items], getattr(getattr(v, 'default_factory', None), '__name__', None)], \
            [x for _, x in items]
    if isinstance(v, ChainMap):
        return 'm', ['ChainMap'], list(v.maps)
    if isinstance(v, set):
        return 'm', [t.__name__, sorted((canon(x) for x in v), key=json.dumps)], []
    if isinstance(v, U.Box):
        return 'm', ['Box', canon(v.k)], [v.inner]
    if isinstance(v, SimpleNamespace):
        items = list(vars(v).items())
        return 'm', ['ns', [k for k, _ in items]], [x for _, x in items]
    if t in (U.P, U.Q, U.Obj, U.Square):
        return 'm', ['o', t.__name__, canon(v.k)], []
    return None


MISSING = U.P('missing')


class Graph:
    """nodes numbered by first visit, depth first; ``desc``: labels and child numbers; ``objs``: the objects"""

    def __init__(self, *roots):
        self.desc = []
        self.objs = []
        self.kinds = []
        self.cyclic = False
        seen = {}
        self.roots = [self.visit(r, seen, set()) for r in roots]
        self.desc = norm(self.desc)
        self.ids = [id(o) for o in self.objs]

    def visit(self, v, seen, path):
        if v is MISSING:
            return ['missing']
        if id(v) in seen:
            self.cyclic = self.cyclic or id(v) in path
            return seen[id(v)]
        c = children(v)
        if c is None:
            return ['atom', canon(v)]
        n = seen[id(v)] = len(self.desc)
        self.objs.append(v)
        self.kinds.append(c[0])
        self.desc.append(None)
        self.desc[n] = [c[1], [self.visit(k, seen, path | {id(v)}) for k in c[2]]]
        return n

    def mutable(self):
        return [o for o, k in zip(self.objs, self.kinds) if k == 'm']

    def same(self, other):
        return self.roots == other.roots and self.desc == other.desc


def mutate(v, how, mark):
    """change a mutable object; False if it has no way to"""
    if type(v) in U.REG:
        if type(v).is_frozen():
            return False
        names = U.REG[type(v)]
        setattr(v, names[how % len(names)], mark)
    elif isinstance(v, (list, deque)):
        if how % 2 and len(v):
            v[0] = mark
        else:
            v.append(mark)
    elif isinstance(v, dict):
        v[mark if how % 2 else next(iter(v), 'new')] = mark
    elif isinstance(v, set):
        v.add(mark)
    elif isinstance(v, U.Box):
        v.k = mark
    elif isinstance(v, SimpleNamespace):
        v.extra = mark
    elif isinstance(v, U.Obj):
        v.k = mark
    else:
        return False
    return True


def preset(world, op):
    r = world.pool[op['r']]
    if 'n' in op:
        if type(r) in U.REG and not type(r).is_frozen() and op['n'] in U.REG[type(r)]:
            setattr(r, op['n'], dec(op['v'], world))
        return
    ms = [o for o in Graph(r).mutable() if isinstance(o, (list, dict, U.Box))]
    if not ms:
        return
    o = ms[op['node'] % len(ms)]
    v = dec(op['v'], world)
    if isinstance(o, list):
        o.append(v)
    elif isinstance(o, dict):
        o['pre'] = v
    else:
        o.inner = v


def perform(world, op, targets):
    direct = op.get('direct') and type(targets[0]) in U.REG
    if op['o'] == 'copy':
        return [targets[0].__copy__() if direct else copy.copy(targets[0])]
    if op['o'] == 'memo':
        memo = {}
        return [copy.deepcopy(t, memo) for t in targets]
    return [targets[0].__deepcopy__() if direct else copy.deepcopy(targets[0])]


def can_deepcopy(v):
    """whether the values inside can be deep-copied at all"""
    for o in Graph(v).objs:
        if type(o) in U.REG or isinstance(o, (list, tuple, dict, deque)):
            for k in children(o)[2]:
                if children(k) is None:
                    try:
                        copy.deepcopy(k)
                    except Exception:
                        return False
    return True


def run(scn):
    world = opgen.build({k: v for k, v in scn.items() if k in ('classes', 'pool')})
    for op in scn['pre']:
        preset(world, op)
    pool = world.pool
    defaults = [d for d in world.defaults.values()]
    threads = scn['threads']
    opc = bool(scn['sched']['op'])
    before = Graph(*pool)
    dgraph = Graph(*defaults)
    plans, keep = {}, []
    for t, ops_ in enumerate(threads):
        for k, op in enumerate(ops_):
            targets = [dec(op[x], world) for x in ('t', 't2') if x in op]
            if op['o'] == 'copy' and type(targets[0]) not in U.REG:
                continue
            plans[t, k] = targets
    results = {}
    order = []
    marks = [0]

    def mark():
        marks[0] += 1
        return f'mark{marks[0]}'

    def one(t, k, op, sim):
        if (t, k) not in plans:
            return
        targets = plans[t, k]
        ctx = Ctx(sim, op.get('faults', ()))
        ctx.interrupt_at, ctx.interrupt_name = op.get('intr_at'), op.get('intr')
        src = Graph(*targets)
        TL.ctx = ctx
        exc = res = None
        try:
            with sched.traced(ctx, opc):
                res = perform(world, op, targets)
            TL.ctx = None
        except sched.SimAbort:
            raise
        except BaseException as e:
            TL.ctx = None
            exc = e
        rec = {'ctx': ctx, 'exc': exc, 'res': res, 'src': src, 'targets': targets, 'op': op}
        if exc is None:
            rec['graph'] = Graph(*res)
            if op['o'] == 'copy':
                rec['dict'] = dict(vars(res[0]))
            for n, how in op.get('mut', ()) if exc is None else ():
                if op['o'] == 'copy':
                    if not type(res[0]).is_frozen():
                        mutate(res[0], how, mark())
                else:
                    ms = rec['graph'].mutable()
                    if ms:
                        mutate(ms[n % len(ms)], how, mark())
            rec['after'] = Graph(*res)
            if op['o'] == 'copy':
                rec['dict_after'] = dict(vars(res[0]))
        results[t, k] = rec
        order.append((t, k))

    trace = None
    s = {'ops': 0, 'objects': len(before.objs)}
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'],
                                            {t: 25 * len(o) * (3 if opc else 1) for t, o in enumerate(threads)}))
        sim.run([(lambda t=t, o=o: [one(t, k, op, sim) for k, op in enumerate(o)]) for t, o in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)

    def viol(kind, msg):
        raise Viol(kind, msg, **({'schedule': trace} if trace else {}))

    def unchanged(when):
        now = Graph(*pool)
        if now.ids != before.ids or not now.same(before):
            d = next((f'{short(a, 160)} became {short(b, 160)}' for a, b in zip(before.desc, now.desc) if a != b), 'another object')
            viol('original-changed', f'{when}: the originals have changed: {d}')
        if not Graph(*defaults).same(dgraph):
            viol('default-changed', f'{when}: a default has changed')

    unchanged('after the copies')
    interesting = len(threads) > 1
    originals = {id(o): o for o in before.mutable() + dgraph.mutable()}
    owners = {}
    for (t, k) in order:
        rec = results[t, k]
        op, ctx, exc = rec['op'], rec['ctx'], rec['exc']
        s['ops'] += 1
        s[op['o']] = s.get(op['o'], 0) + 1
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None and not ctx.fired:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        hit = bool(ctx.fired) or ctx.interrupt_exc is not None
        interesting = interesting or hit or op['o'] != 'copy' or bool(op.get('mut'))
        what = f'thread {t} op {k} ({op["o"]} of {short(op["t"])})'
        if exc is not None:
            if ctx.interrupt_exc is not None and exc is not ctx.interrupt_exc:
                viol('interrupt', f'{what}: interrupted by {ctx.interrupt_exc!r}, but {exc!r} was raised')
            if not hit:
                if op['o'] != 'copy' and not all(can_deepcopy(x) for x in rec['targets']):
                    continue
                viol('copy-failed', f'{what} raised {exc!r}')
            continue
        if hit:
            if ctx.interrupt_exc is not None:
                viol('interrupt', f'{what}: interrupted by {ctx.interrupt_exc!r}, but returned')
            viol('fault-lost', f'{what} returned though copying a value raised')
        src, g = rec['src'], rec['graph']
        if op['o'] == 'copy':
            a, b = rec['targets'][0], rec['res'][0]
            if type(b) is not type(a):
                viol('copy-type', f'{what}: the copy is a {type(b).__qualname__}')
            if type(a).is_frozen():
                if a is not b:
                    viol('frozen-copy', f'{what}: the copy of a frozen record is another object')
                continue
            if a is b:
                viol('same-object', f'{what}: the copy of a mutable record is the record itself')
            da, db = vars(a), rec['dict']
            for n in U.REG[type(a)]:
                if n not in db if n in da else n in db:
                    viol('copy-value', f'{what}: field {n} is missing in one of them')
                if n in da and da[n] is not db[n]:
                    viol('copy-value', f'{what}: field {n} is {short(canon(db[n]))}, not the very object {short(canon(da[n]))}')
            if not op.get('mut') and not src.cyclic and not same_eq(a, b):
                viol('not-equal', f'{what}: the copy is not equal to the original')
            continue
        odd = src.cyclic and any(isinstance(o, tuple) and type(o) is not tuple for o in src.objs)
        # (deepcopy copies the members of a cycle through an instance of a subclass of tuple twice)
        if not odd and not src.same(g):
            d = next((f'{short(x, 160)} became {short(y, 160)}' for x, y in zip(src.desc, g.desc) if x != y), 'the shape differs')
            viol('deepcopy-differs', f'{what}: {d}; {short(src.desc)} and {short(g.desc)}')
        for o in g.mutable():
            if id(o) in originals:
                viol('deepcopy-shares', f'{what}: shares {short(canon(o))} with the originals or defaults')
            if id(o) in owners:
                viol('deepcopies-share', f'{what}: shares {short(canon(o))} with the copy made by op {owners[id(o)]}')
        for o in g.mutable():
            owners[id(o)] = [t, k]
        if not op.get('mut') and not src.cyclic:
            for a, b in zip(src.objs, g.objs):
                if type(a) in U.REG and not same_eq(a, b):
                    viol('not-equal', f'{what}: the deep copy of {short(canon(a))} is not equal to it')
    # records made later
    for c, kw in scn['fresh']:
        try:
            r = world.classes[c](**{k: dec(v, world) for k, v in kw.items()})
        except Exception:
            continue
        if type(r) not in U.REG:
            continue
        for o in Graph(r).mutable():
            if id(o) in owners:
                viol('later-record', f'a record of {c} made later holds {short(canon(o))} of the copy made by op {owners[id(o)]}')
        for n, (spec, f) in world.field_specs(c).items():
            if n not in kw and f.get('default', ['x'])[0] == 'v' and vars(r).get(n) is not world.defaults[spec['name'], n] \
                    and type(r).__name__ == c and not world.specs[c].get('post_new'):
                viol('default', f'field {n} of a record of {c} made later is not the default object')
    unchanged('after records were made')
    # mutating the originals must not show in the copies
    for r, n, how in scn['post']:
        ms = before.mutable() if r >= len(pool) else Graph(pool[r]).mutable()
        if ms:
            mutate(ms[n % len(ms)], how, mark())
    for (t, k) in order:
        rec = results[t, k]
        if rec['exc'] is not None:
            continue
        op = rec['op']
        if op['o'] != 'copy':
            now = Graph(*rec['res'])
            if now.ids != rec['after'].ids or not now.same(rec['after']):
                viol('shows-through', f'thread {t} op {k} ({op["o"]} of {short(op["t"])}): changing the original changed the copy: '
                                      f'{short(rec["after"].desc)} became {short(now.desc)}')
        elif not type(rec['res'][0]).is_frozen():
            now = vars(rec['res'][0])
            was = rec['dict_after']
            if any(now.get(n, MISSING) is not was.get(n, MISSING) for n in U.REG[type(rec['res'][0])]):
                viol('shows-through', f'thread {t} op {k} ({op["o"]} of {short(op["t"])}): assigning to the original changed the copy')
    sig = zlib.crc32(json.dumps([before.desc, threads, trace]).encode())
    return {'nontrivial': bool(interesting and s['ops']), 'sum': s, 'sigs': [sig],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': interesting and len(threads) > 1}


def same_eq(a, b):
    """equal as records, wherever their values are"""
    for n in U.REG[type(a)]:
        x, y = vars(a).get(n, MISSING), vars(b).get(n, MISSING)
        if x != y:
            return True  # the values themselves are not equal (by identity)
    return a == b and b == a and not a != b
