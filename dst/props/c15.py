"""C15: mutable records always show their latest field values."""
import copy
import itertools
import json
import zlib

from dst import opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, short, norm
from dst.gen import Gen
from dst.userland import Ctx, TL, canon, dec

ID = 'C15'
QUICK = 28000
THOROUGH = 200000
RULE = ('seeded mutable record classes (children of one or two frozen and mutable classes, ordered, with defaults, checking, coercers), 1-4 '
        'records of them made in five ways; 1-3 threads of 2-8 assignments and reads each (attribute, export, kept and derived '
        'exporters, repr, JSON, equality, ordering, copies, pickling, hashing) under one seeded schedule, with assignments made '
        'from inside the user methods a read calls, field values that change by themselves, failing user methods and asynchronous interrupts; every event is stamped '
        'with the simulator\'s clock and every value a read shows is checked against the assignments that could be the latest; '
        'non-trivial: a read after or during an assignment to the same record')
MEASURE = 'crc of (operations, switch sequence, outcomes)'
REAL = ['records (all of it)', 'copy, pickle, json', 'CPython threads, released one at a time']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'values\' own methods', 'asynchronous interrupts']
ASSUMPTIONS = ['a read of several fields may see them at different moments; an interrupted assignment may or may not be visible']

READS = ['get', 'get', 'to_dict', 'to_dict', 'handle', 'handle', 'repr', 'eq', 'ne', 'copy', 'deepcopy', 'pickle', 'from_instance',
         'hash', 'inset']
ORDER = ['lt', 'le', 'gt', 'ge']


def value(g, mode, default=None):
    if default is not None and g.p(0.2):
        return default
    if mode == 'int':
        return ['i', g.ch([0, 1, 1000, 2000, 3000, 4000, 10 ** 9, -5000])]
    if mode == 'hk':
        return ['o', 'HK', g.rng.randrange(6)]
    return g.ch([['o', 'HK', g.rng.randrange(5)], ['o', 'Box', g.rng.randrange(5)], ['l', [['i', g.rng.randrange(5)]]], ['n'],
                 ['i', 5000], ['s', 'v%d' % g.rng.randrange(5)], ['o', 'P', g.rng.randrange(4)], ['d', []], ['b', 0], ['l', []],
                 ['t', [['i', 7000]]], ['i', 0]])


def gen(rng, i):
    g = Gen(rng)
    mode = rng.choice(['int', 'hk', 'mix', 'mix'])
    ordered = mode != 'mix'
    names = []
    for k in range(rng.choice([1, 1, 2, 3])):
        name = f'A{k}'
        spec = {'name': name, 'bases': [], 'frozen': k < 2 and g.p(0.25), 'style': g.ch(['hollow', 'check']), 'fields': []}
        cand = [n for n in sorted(g.specs)]
        if cand and g.p(0.6):
            spec['bases'] = [g.ch(cand)]
            more = [n for n in cand if not set(g.field_names(n)) & set(g.field_names(spec['bases'][0]))]
            if more and g.p(0.6):
                spec['bases'].append(g.ch(more))
        if g.p(0.1):
            spec['bases'].append('Mixin')
        taken = set()
        for b in spec['bases']:
            if b in g.specs:
                taken |= set(g.field_names(b))
        g.prefix = name
        free = [n for n in ['x', 'y', 'z', 'w', 'u', 'v', 'n', 'm', 'a', 'b', 'c', 'd'] if n not in taken]
        if not spec['bases'] and g.p(0.5):
            g.rng.shuffle(free)  # (a class that may share no field with the others)
        for n in free[:rng.choice([1, 2, 2, 3])]:
            f = {'name': n, 'node': {'k': 'any', 'toks': []}}
            if mode == 'int' and g.p(0.4):
                f['node'] = {'k': 'plain', 't': 'int', 'toks': [['style', 'check']] + ([['va', g.cbid('validator'), 'inc']] if g.p(0.5) else [])}
            if g.p(0.4):
                d = value(g, mode)
                f['default'] = ['v', d] if g.p(0.6) else ['fac', g.cbid('factory'), ['const', d]]
            if g.p(0.2):
                f['tags'] = [g.ch(['t1', 'noorder'])]
            spec['fields'].append(f)
        if ordered and g.p(0.6):
            spec['ordered'] = True
        if g.p(0.15):
            spec['post_new'] = {'cb': g.cbid('post_new'), 'mode': g.ch(['attr', 'none', 'self', 'twin'])}
        if g.p(0.08):
            spec['bool'] = False
        g.specs[name] = spec
        g.prefix = ''
    names = [n for n in sorted(g.specs) if not g.specs[n]['frozen']]
    if not names:
        g.specs['A0']['frozen'] = False
        names = ['A0']
    recs = []
    for j in range(rng.choice([1, 2, 2, 3, 4])):
        if recs and g.p(0.35):
            recs.append({'mk': g.ch(['copy', 'deepcopy', 'pickle', 'from_instance']), 'of': g.rng.randrange(j)})
        else:
            c = names[0] if g.p(0.6) else g.ch(names)
            recs.append({'mk': 'new', 'c': c, 'kw': {f['name']: value(g, mode) for f in g.fields_of(c) if not f.get('default') or g.p(0.4)}})

    def cls_of(j):
        while 'of' in recs[j]:
            j = recs[j]['of']
        return recs[j]['c']

    handles = []
    for _ in range(rng.choice([0, 1, 2])):
        j = g.rng.randrange(len(recs))
        h = {'r': j}
        if g.p(0.4):
            h['ren'] = g.ch(g.field_names(cls_of(j)))
        if g.p(0.4):
            h['ex'] = {'include_defaults': True}
        handles.append(h)
    hot = g.rng.randrange(len(recs))

    def write():
        j = hot if g.p(0.7) else g.rng.randrange(len(recs))
        f = g.ch(g.fields_of(cls_of(j))[:2] if g.p(0.5) else g.fields_of(cls_of(j)))
        d = f.get('default')
        return {'o': 'set', 'r': j, 'n': f['name'], 'v': value(g, mode, d[1] if d and d[0] == 'v' else None)}

    def read():
        j = hot if g.p(0.7) else g.rng.randrange(len(recs))
        o = g.ch(READS + ((ORDER * 2 if mode == 'int' else ['lt', 'gt'] * 3) if ordered else []) + (['to_json', 'to_json'] if mode == 'int' else []))
        if o == 'handle':
            if not handles:
                o = 'to_dict'
            else:
                return {'o': o, 'h': g.rng.randrange(len(handles))}
        op = {'o': o, 'r': j}
        if o == 'get':
            op['n'] = g.ch(g.field_names(cls_of(j)))
        elif o in ('eq', 'ne', *ORDER):
            op['b'] = g.rng.randrange(len(recs))
        elif o in ('to_dict', 'to_json') and g.p(0.4):
            op['ex'] = {'include_defaults': True}
        return op

    threads = []
    style = g.ch(['mixed', 'split'])
    nt = rng.choice([1, 1, 2, 2, 3])
    for t in range(nt):
        ops_ = []
        for _ in range(rng.choice([2, 3, 5, 8])):
            w = g.p(0.5) if style == 'mixed' or nt == 1 else t % 2 == 0
            if nt == 1 and mode == 'mix' and g.p(0.25):
                # the object that a field holds changes by itself
                op = {**write(), 'o': 'mut', 'v': g.rng.randrange(4)}
                rd = {**read(), 'r': op['r']}
                if g.p(0.6) and rd['o'] not in ('handle', 'get'):
                    v = g.ch([['l', [['i', 1]]], ['d', [[['s', 'k'], ['i', 1]]]], ['o', 'Box', 1], ['o', 'P', 1]])
                    ops_ += [{**op, 'o': 'set', 'v': v}, rd, op, dict(rd)]
                else:
                    ops_.append(op)
                continue
            op = write() if w else read()
            k = rng.random()
            if k < 0.1:
                op['intr'] = g.ch(sorted(U.BASE))
                op['intr_at'] = g.ch([1, 2, 3, 5, 8, 12, 20])
            elif k < 0.2 and mode != 'int':
                op['faults'] = [{'cb': g.ch(['hk-repr', 'hk-eq', 'hk-lt', 'box-deepcopy']), 'act': ['raise', g.ch(U.ORDINARY)]}]
            if not w and mode != 'int' and g.p(0.35):
                op['nested'] = [g.ch([1, 1, 2, 3]), write()]
            ops_.append(op)
        threads.append(ops_)
    return {'classes': list(g.specs.values()), 'recs': recs, 'handles': handles, 'threads': threads, 'mode': mode,
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.5)}}


class Clock:
    now = 0

    def tick(self):
        self.now += 1
        return self.now


class Write:
    __slots__ = ('start', 'end', 'value')

    def __init__(self, start, end, value):
        self.start, self.end, self.value = start, end, value


INF = 1 << 60


class NestCtx(Ctx):
    """at the n-th call of user code, the user code makes an assignment of its own"""
    nested = None
    assign = None

    def callback(self, cbid, *a, **kw):
        if self.nested is not None:
            self.nested[0] -= 1
            if self.nested[0] <= 0:
                w, self.nested = self.nested[1], None
                self.assign(w)
        return super().callback(cbid, *a, **kw)


def run(scn):
    world = opgen.build({'classes': scn['classes']})
    recs = []
    for d in scn['recs']:
        if d['mk'] == 'new':
            try:
                r = world.classes[d['c']](**{k: dec(v, world) for k, v in d['kw'].items()})
            except Exception as e:
                raise U.Invalid(f'record: {e!r}')
            if type(r) not in U.REG or type(r).is_frozen():
                raise U.Invalid('no mutable record')
        else:
            if d['of'] >= len(recs):
                raise U.Invalid('no such record')
            o = recs[d['of']]
            r = {'copy': lambda: copy.copy(o), 'deepcopy': lambda: copy.deepcopy(o),
                 'pickle': lambda: type(o).from_pickle(o.to_pickle()), 'from_instance': lambda: type(o).from_instance(o)}[d['mk']]()
        recs.append(r)
    fields = [U.REG[type(r)] for r in recs]
    clock = Clock()
    writes = {}
    for j, r in enumerate(recs):
        for n in fields[j]:
            writes[j, n] = [Write(0, 0, getattr(r, n))]
    handles = []
    for h in scn['handles']:
        if h['r'] >= len(recs) or h.get('ren') not in (None, *fields[h['r']]):
            raise U.Invalid('no such record')
        b = recs[h['r']].to_dict
        if h.get('ex'):
            b = b.export_with(**h['ex'])
        if h.get('ren'):
            b = b.select(keys_to_maybe_rename=[(h['ren'], 'renamed')])
        handles.append(b)
    defaults = []
    for r in recs:
        d = {}
        for n, (spec, f) in world.field_specs(type(r).__name__).items():
            if (spec['name'], n) in world.defaults:
                d[n] = world.defaults[spec['name'], n]
        defaults.append(d)
    threads = scn['threads']
    opc = bool(scn['sched']['op'])
    events = []
    s = {'reads': 0, 'writes': 0, 'overlapped': 0}
    problems = []

    def assign(ctx, op, sim, nested=False):
        j, n = op['r'], op['n']
        if j >= len(recs) or n not in fields[j]:
            raise U.Invalid('no such field')
        v = dec(op['v'], world)
        w = Write(clock.tick(), INF, v)
        writes[j, n].append(w)
        setattr(recs[j], n, v)
        w.end = clock.tick()
        s['writes'] += 1
        return w

    def perform(op):
        o = op['o']
        if o == 'handle':
            return handles[op['h']]()
        r = recs[op['r']]
        if o == 'mut':
            v, k = getattr(r, op['n'], None), op['v']
            if type(v) is list:
                v[:] = [k, *v[1:]]
            elif type(v) is dict:
                v['k'] = k
            elif type(v) in (U.Box, U.P):
                v.k = k
            return None
        if o == 'get':
            return getattr(r, op['n'])
        if o == 'to_dict':
            return r.to_dict(**op.get('ex', {}))
        if o == 'to_json':
            return json.loads((r.to_json.export_with(**op['ex']) if op.get('ex') else r.to_json)())
        if o == 'repr':
            return repr(r)
        if o in ('eq', 'ne', *ORDER):
            b = recs[op['b']]
            return {'eq': lambda: r == b, 'ne': lambda: r != b, 'lt': lambda: r < b, 'le': lambda: r <= b, 'gt': lambda: r > b,
                    'ge': lambda: r >= b}[o]()
        if o == 'copy':
            return copy.copy(r)
        if o == 'deepcopy':
            return copy.deepcopy(r)
        if o == 'pickle':
            return type(r).from_pickle(r.to_pickle())
        if o == 'from_instance':
            return type(r).from_instance(r)
        if o == 'hash':
            return hash(r)
        if o == 'inset':
            return r in {1: 1}
        raise U.Invalid(o)

    def one(t, k, op, sim):
        ctx = NestCtx(sim, op.get('faults', ()))
        ctx.interrupt_at, ctx.interrupt_name = op.get('intr_at'), op.get('intr')
        exc = res = None
        if op['o'] == 'handle' and op['h'] >= len(handles) or op.get('r', 0) >= len(recs) or op.get('b', 0) >= len(recs) \
                or op['o'] == 'get' and op['n'] not in fields[op['r']]:
            raise U.Invalid('no such record')
        if op.get('nested'):
            ctx.nested = list(op['nested'])
            ctx.assign = lambda w: assign(ctx, w, sim, True)
        start = clock.tick()
        TL.ctx = ctx
        try:
            with sched.traced(ctx, opc):
                res = assign(ctx, op, sim) if op['o'] == 'set' else perform(op)
        except (sched.SimAbort, U.Invalid):
            raise
        except BaseException as e:
            exc = e
        TL.ctx = None
        end = clock.tick()
        events.append((t, k, op, start, end, res, exc, ctx))
        if sim is None:
            check(events[-1])

    trace, useful = None, False

    def viol(kind, msg):
        raise Viol(kind, msg, **({'schedule': trace} if trace else {}))

    def cands(j, n, start, end):
        """the values that field n of record j may show to a read from start to end"""
        ws = [w for w in writes[j, n] if w.start <= end]
        out = []
        for w in ws:
            if not any(v.start > w.end and v.end < start for v in ws):
                out.append(w.value)
        return out

    def shown(j, n, d, start, end, include, key=None):
        """checks one exported field"""
        key = key or n
        vals = cands(j, n, start, end)
        has_default = n in defaults[j] and not include
        if key in d:
            v = d[key]
            if not any(v is x for x in vals):
                return f'field {n} is {short(canon(v))}, must be {short([canon(x) for x in vals])}'
            if has_default and v == defaults[j][n] and len(vals) == 1:
                return f'field {n} is exported though it equals its default'
        elif not has_default or not any(x == defaults[j][n] for x in vals):
            return f'field {n} is not exported, it is {short([canon(x) for x in vals])}'
        return None

    def check(event):
        nonlocal useful
        t, k, op, start, end, res, exc, ctx = event
        o = op['o']
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        what = f'thread {t} op {k} {short({x: y for x, y in op.items() if x not in ("faults", "intr", "intr_at")}, 200)}'
        hit = bool(ctx.fired) or ctx.interrupt_exc is not None
        if o in ('hash', 'inset'):
            if exc is None or not hit and not isinstance(exc, TypeError):
                viol('hashable', f'{what}: a mutable record was hashed: {res!r} {exc!r}')
            return
        if exc is not None:
            if hit:
                return
            if o in ORDER:
                a, b = recs[op['r']], recs[op['b']]
                if not a._ordered or not b._ordered or not isinstance(b, type(a)) and not isinstance(a, type(b)):
                    return
            viol('failed', f'{what} raised {exc!r}')
        if o in ('set', 'mut'):
            return
        s['reads'] += 1
        j = scn['handles'][op['h']]['r'] if o == 'handle' else op['r']
        cs = {n: cands(j, n, start, end) for n in fields[j]}
        useful = useful or any(len(writes[j, n]) > 1 for n in fields[j])
        s['overlapped'] += any(len(c) > 1 for c in cs.values())
        if o == 'get':
            if not any(res is x for x in cs[op['n']]):
                viol('stale', f'{what} gave {short(canon(res))}, must be {short([canon(x) for x in cs[op["n"]]])}')
        elif o in ('to_dict', 'handle', 'to_json'):
            h = scn['handles'][op['h']] if o == 'handle' else {}
            include = bool((h if o == 'handle' else op).get('ex'))
            if o == 'to_json':  # (integers)
                same = {id(x): x for n in fields[j] for x in cs[n]}.values()
                res = {a: next((x for x in cs.get(a, ()) if x == b), next((x for x in same if x == b), b)) for a, b in res.items()}
            for n in fields[j]:
                bad = shown(j, n, res, start, end, include, 'renamed' if h.get('ren') == n else None)
                if bad:
                    viol('stale', f'{what}: {bad}')
            if set(res) - set(fields[j]) - ({'renamed'} if h.get('ren') else set()):
                viol('extra', f'{what}: exported {sorted(res)}')
        elif o == 'repr':
            opts = []
            for n in fields[j]:
                op_ = {f'{n}={v!r}' for v in cs[n] if n not in defaults[j] or not v == defaults[j][n] or len(cs[n]) > 1}
                if n in defaults[j] and any(v == defaults[j][n] for v in cs[n]):
                    op_.add('')
                opts.append(sorted(op_))
            if len(list(itertools.product(*opts))) <= 500:
                texts = {type(recs[j]).__qualname__ + '(' + ', '.join(x for x in c if x) + ')' for c in itertools.product(*opts)}
                if res not in texts:
                    viol('stale', f'{what} gave {short(res)}, must be one of {short(sorted(texts))}')
        elif o in ('eq', 'ne'):
            b = op['b']
            if type(recs[j]) is not type(recs[b]):
                can = {False}
            else:
                pairs = [[not (x != y) for x in cs[n] for y in cands(b, n, start, end)] for n in fields[j]]
                can = set()
                if all(any(p) for p in pairs):
                    can.add(True)
                if not all(all(p) for p in pairs):
                    can.add(False)
            if (res if o == 'eq' else not res) not in can:
                viol('stale', f'{what} gave {res}')
        elif o in ORDER:
            b = op['b']
            ks = [n for n in fields[j] if 'noorder' not in (world.field_specs(type(recs[j]).__name__)[n][1].get('tags') or ())]
            kb = [n for n in fields[b] if 'noorder' not in (world.field_specs(type(recs[b]).__name__)[n][1].get('tags') or ())]
            left = list(itertools.islice(itertools.product(*[cs[n] for n in ks]), 40))
            right = list(itertools.islice(itertools.product(*[cands(b, n, start, end) for n in kb]), 40))
            if len(left) < 40 and len(right) < 40:
                f = {'lt': lambda x, y: x < y, 'le': lambda x, y: x < y or x == y, 'gt': lambda x, y: x > y,
                     'ge': lambda x, y: x > y or x == y}[o]
                if res not in {f(list(x), list(y)) for x in left for y in right}:
                    viol('stale', f'{what} gave {res}')
        else:
            d = vars(res)
            for n in fields[j]:
                v = getattr(res, n)
                ok = any(v is x for x in cs[n]) if o == 'copy' else any(
                    norm(canon(v)) == norm(canon(x)) or o == 'from_instance' and x == v for x in cs[n])
                if o == 'from_instance' and not ok or o != 'from_instance' and not ok:
                    if o in ('pickle', 'from_instance') and refilled(world, type(res).__name__):
                        continue
                    viol('stale', f'{what}: field {n} is {short(canon(v))}, must be {short([canon(x) for x in cs[n]])}')

    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'],
                                            {t: 25 * len(o) * (3 if opc else 1) for t, o in enumerate(threads)}))
        sim.run([(lambda t=t, o=o: [one(t, k, op, sim) for k, op in enumerate(o)]) for t, o in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)

    if trace:
        for e in events:
            check(e)
    end = clock.tick()
    for j, r in enumerate(recs):
        for n in fields[j]:
            vals = cands(j, n, end, end)
            if not any(getattr(r, n) is x for x in vals):
                viol('final', f'field {n} of record {j} is {short(canon(getattr(r, n)))}, must be the very object '
                              f'{short([canon(x) for x in vals])}')
        if type(r).__hash__ is not None:
            try:
                hash(r)
            except TypeError:
                pass
            else:
                viol('hashable', f'mutable record {j} is hashable')
    sig = zlib.crc32(json.dumps([threads, trace, [[e[0], e[1], type(e[6]).__name__] for e in events]]).encode())
    return {'nontrivial': bool(useful and s['writes']), 'sum': s, 'sigs': [sig],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': len(threads) > 1 and s['reads'] > 2}


def refilled(world, c):
    """whether building a record anew may change its values"""
    return any(f['node'].get('toks') for _, f in world.field_specs(c).values()) or any(
        world.specs[b].get('post_new') for b in [c])
