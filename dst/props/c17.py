"""C17: serialisation goes through the replaceable backends at the time of each call."""
import json
import pickle
import re
import zlib

from dst import opgen, sched, world as W
from dst import ops as O
from dst import userland as U
from dst.common import Viol, HarnessError, short
from dst.gen import Gen
from dst.userland import Ctx, TL, canon, dec

ID = 'C17'
QUICK = 20000
THOROUGH = 240000
RULE = ('seeded record classes and 1-3 threads of 2-7 imports, exports, parses, kept exporters and importers, pattern validators '
        'and backend swaps under one seeded schedule; backends are spies that delegate, answer with marked objects, raise '
        'ordinary errors or interrupts, or swap backends themselves while called; asynchronous interrupts at seeded steps; every '
        'call of a backend is stamped with the simulator\'s clock and checked against the swaps, the caller\'s arguments (by '
        'identity) and the outcome; non-trivial: a backend was called after or during a swap')
MEASURE = 'crc of (operations, switch sequence, backend calls)'
REAL = ['records (all of it)', 'CPython threads, released one at a time', 'json, pickle, re (behind delegating spies)']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'backends (spies)', 'streams', 'asynchronous interrupts']
ASSUMPTIONS = []

KINDS = ['json', 'pickle', 're']


def gen(rng, i):
    g = Gen(rng, jsonable=True)
    names = []
    for k in range(rng.choice([1, 1, 2])):
        name = f'A{k}'
        spec = {'name': name, 'bases': [g.ch(names)] if names and g.p(0.6) else [], 'frozen': g.p(0.5), 'style': 'hollow', 'fields': []}
        taken = set(g.field_names(spec['bases'][0])) if spec['bases'] else set()
        for n in [n for n in ['x', 'y', 'z', 'w', 'u'] if n not in taken][:rng.choice([1, 2, 2])]:
            f = {'name': n, 'node': {'k': 'any', 'toks': []}}
            if g.p(0.3):
                f['default'] = ['v', ['i', 3]]
            spec['fields'].append(f)
        if g.p(0.3):
            spec['unary'] = g.p(0.7)
        if g.p(0.08):
            spec['bool'] = False
        g.specs[name] = spec
        names.append(name)

    def val():
        return g.ch([['i', 1], ['s', 'a'], ['l', [['i', 1]]], ['n'], ['f', 1.5], ['d', []], ['i', 3], ['b', 0]])

    pool = []
    for _ in range(rng.choice([1, 2, 3])):
        c = g.ch(names)
        pool.append(['r', c, [{f['name']: val() for f in g.fields_of(c) if not f.get('default') or g.p(0.6)}]])
    spies = []
    for kind in KINDS:
        for _ in range(2 if kind != 're' else 2):
            spies.append({'kind': kind, 'mode': g.ch(['real', 'canned', 'canned'])})
    handles = []
    for _ in range(rng.choice([0, 1, 2])):
        if g.p(0.6):
            j = g.rng.randrange(len(pool))
            h = {'what': 'to_json', 'r': j}
            if g.p(0.4):
                h['ex'] = {'include_defaults': True}
            if g.p(0.3):
                h['kw'] = {'mrm': ['str', [g.field_names(pool[j][1])[0]]]}
        else:
            h = {'what': g.ch(['from_json', 'from_json_io']), 'c': g.ch(names)}
            if g.p(0.3):
                h['kw'] = {'madd': ['list', [[g.field_names(h['c'])[0], ['i', 9]]]]}
        handles.append(h)

    def swap(kind=None):
        kind = kind or g.ch(['json', 'json', 'pickle', 'pickle', 're'])
        return {'o': 'swap', 's': g.ch([n for n, s in enumerate(spies) if s['kind'] == kind] + [-1])}

    def act(kind, c):
        """what canned backends do when called by this operation"""
        k = rng.random()
        if k < 0.2:
            return {'raise': g.ch(U.ORDINARY) if g.p(0.7) else g.ch(sorted(U.BASE))}
        a = {}
        if k < 0.35:
            a['swap'] = swap()['s']
        if kind == 'load':
            a['give'] = g.ch([['kw', {f['name']: val() for f in g.fields_of(c) if not f.get('default') or g.p(0.5)}],
                              ['kw', {f['name']: val() for f in g.fields_of(c) if not f.get('default') or g.p(0.5)}],
                              ['rec', g.rng.randrange(len(pool))], ['obj', ['i', 5]], ['obj', ['n']],
                              ['kw', {'unknown': ['i', 1]}]])
        return a

    def op():
        k = rng.random()
        j = g.rng.randrange(len(pool))
        c = g.ch(names)
        args = {'pos': g.rng.randrange(3) if g.p(0.15) else 0, 'kws': g.ch([[], [], [], ['alpha'], ['alpha', 'beta'], ['indent'], ['default']])}
        if k < 0.2:
            return {'o': 'to_json', 'r': j, 'io': g.p(0.4), 'cls': g.p(0.2), 'act': act('dump', c), **args}
        if k < 0.35:
            return {'o': 'to_pickle', 'r': j, 'io': g.p(0.4), 'act': act('dump', c), **args}
        if k < 0.55:
            return {'o': g.ch(['from_json', 'from_json_io']), 'c': c, 'act': act('load', c),
                    'kws': [x for x in args['kws'] if x not in ('indent', 'default')]}
        if k < 0.7:
            return {'o': g.ch(['from_pickle', 'from_pickle_io']), 'c': c, 'act': act('load', c), **args}
        if k < 0.78:
            return {'o': 'parse', 'c': c, 'act': act('load', c), 'new': g.p(0.4)}
        if k < 0.88 and handles:
            h = g.rng.randrange(len(handles))
            return {'o': 'handle', 'h': h, 'act': act('load' if 'c' in handles[h] else 'dump', handles[h].get('c', c)), 'kws': []}
        if k < 0.94:
            return {'o': 'make_pattern', 'p': g.ch([['s', 'a+'], ['y', '61'], ['s', '']]), 'k': g.rng.randrange(3), 'act': act('re', c)}
        return {'o': 'use_pattern', 'k': g.rng.randrange(3), 'v': g.ch([['s', 'aa'], ['s', 'b'], ['y', '61']]), 'act': act('re', c)}

    threads = []
    nt = rng.choice([1, 1, 2, 2, 3])
    for t in range(nt):
        t_ = []
        for _ in range(rng.choice([2, 3, 5, 7])):
            o = swap() if g.p(0.3) else op()
            if o['o'] != 'swap' and g.p(0.08):
                o['intr'] = g.ch(sorted(U.BASE))
                o['intr_at'] = g.ch([1, 2, 3, 5, 8, 12])
            t_.append(o)
        threads.append(t_)
    start = [g.ch([n for n, s in enumerate(spies) if s['kind'] == kind] + [-1] * (kind != 're')) for kind in KINDS]
    return {'classes': list(g.specs.values()), 'pool': pool, 'spies': spies, 'handles': handles, 'threads': threads, 'start': start,
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.5)}}


# ------------------------------------------------------------------ spies
REALS = {'json': json, 'pickle': pickle, 're': re}
INF = 1 << 60


class State:
    def __init__(self):
        self.now = 0
        self.calls = []
        self.swaps = {k: [] for k in KINDS}  # [start, end, backend]

    def tick(self):
        self.now += 1
        return self.now


STATE = None


class Op:
    """what the operation being executed in this thread has its backends do, and what they did"""

    def __init__(self, world, act):
        self.world = world
        self.act = act or {}
        self.calls = []


class Marked:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'<marked {self.n}>'


class SpyPattern:
    def __init__(self, spy, real):
        self.spy, self.real = spy, real

    def fullmatch(self, v):
        return self.spy.called('fullmatch', (v,), {}, lambda: self.real.fullmatch(v), self)


class Spy:
    def __init__(self, n, kind, mode, install):
        self.n, self.kind, self.mode, self.install = n, kind, mode, install

    def __repr__(self):
        return f'spy{self.n}({self.kind})'

    def called(self, method, args, kwargs, real, pattern=None):
        op = getattr(TL, 'c17op', None)
        call = {'spy': self, 'm': method, 'a': args, 'k': kwargs, 't': STATE.tick(), 'pattern': pattern}
        if op is None:
            raise HarnessError('backend called outside of an operation')
        op.calls.append(call)
        STATE.calls.append(call)
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.point(('io',))
        act = op.act
        try:
            if 'raise' in act and method not in ('compile', 'fullmatch') or 'raise' in act and self.mode == 'canned':
                e = U.make_exc(act['raise'])
                if ctx is not None and act['raise'] in U.BASE:
                    ctx.interrupt_exc = e
                raise e
            if 'swap' in act:
                self.install(act['swap'], self.kind)
            if self.mode == 'real':
                res = real()
            elif method == 'compile':
                res = SpyPattern(self, re.compile(args[0]))
            elif method == 'fullmatch':
                res = real()
            elif method in ('dumps', 'dump'):
                res = Marked(call['t'])
                if method == 'dump':
                    args[1].write('x')
            else:
                give = act.get('give', ['obj', ['n']])
                if give[0] == 'kw':
                    res = {k: dec(v) for k, v in give[1].items()}
                    call['given'] = dict(res)
                elif give[0] == 'rec':
                    res = op.world.pool[give[1] % len(op.world.pool)]
                else:
                    res = dec(give[1])
            if self.mode == 'real' and isinstance(res, dict):
                call['given'] = dict(res)
        except BaseException as e:
            call['exc'] = e
            raise
        call['res'] = res
        return res


class JsonSpy(Spy):
    def dumps(self, *a, **k):
        return self.called('dumps', a, k, lambda: json.dumps(*a, **k))

    def dump(self, *a, **k):
        return self.called('dump', a, k, lambda: json.dump(*a, **k))

    def loads(self, *a, **k):
        return self.called('loads', a, k, lambda: json.loads(*a, **k))

    def load(self, *a, **k):
        return self.called('load', a, k, lambda: json.load(*a, **k))


class PickleSpy(Spy):
    def dumps(self, *a, **k):
        return self.called('dumps', a, k, lambda: pickle.dumps(*a, **k))

    def dump(self, *a, **k):
        return self.called('dump', a, k, lambda: pickle.dump(*a, **k))

    def loads(self, *a, **k):
        return self.called('loads', a, k, lambda: pickle.loads(*a, **k))

    def load(self, *a, **k):
        return self.called('load', a, k, lambda: pickle.load(*a, **k))


class ReSpy(Spy):
    def compile(self, *a, **k):
        return self.called('compile', a, k, lambda: SpyPattern(self, re.compile(*a, **k)))


SPY = {'json': JsonSpy, 'pickle': PickleSpy, 're': ReSpy}
PICKLED = pickle.dumps({'x': 1})


def run(scn):
    global STATE
    STATE = st = State()
    R = W.load()
    extras = R.extras
    world = opgen.build({k: v for k, v in scn.items() if k in ('classes', 'pool')})
    if any(type(p) not in U.REG for p in world.pool):
        raise U.Invalid('no record')
    current = {}

    def install(n, kind):
        if n >= len(spies):
            raise U.Invalid('no such spy')
        if n >= 0:
            kind = spies[n].kind
        b = spies[n] if n >= 0 else REALS[kind]
        w = [st.tick(), INF, b]
        st.swaps[kind].append(w)
        setattr(extras, kind, b)
        current[kind] = b
        w[1] = st.tick()

    spies = []
    for n, d in enumerate(scn['spies']):
        spies.append(SPY[d['kind']](n, d['kind'], d['mode'], install))
    for kind, n in zip(KINDS, scn['start']):
        install(n, kind)
    for w in st.swaps.values():
        w[-1][:2] = [0, 0]
    handles = []
    for h in scn['handles']:
        owner = world.classes[h['c']] if 'c' in h else world.pool[h['r']]
        b = getattr(owner, h['what'])
        if h.get('ex'):
            b = b.export_with(**h['ex'])
        if h.get('kw'):
            b = b.select(**W.select_kwargs(h['kw'], world))
        handles.append(b)
    patterns = {}
    threads = scn['threads']
    opc = bool(scn['sched']['op'])
    events = []

    def extra(op):
        pos = tuple(Marked(n) for n in range(op.get('pos', 0)))
        kw = {}
        for k in op.get('kws', ()):
            kw[k] = 1 if k == 'indent' else repr if k == 'default' else Marked(k)
        return pos, kw

    def one(t, k, op, sim):
        o = op['o']
        if o == 'swap':
            TL.ctx = Ctx(sim)
            try:
                TL.ctx.point(('io',))
                install(op['s'], 'json')
            finally:
                TL.ctx = None
            return
        ctx = Ctx(sim)
        ctx.interrupt_at, ctx.interrupt_name = op.get('intr_at'), op.get('intr')
        rec = Op(world, op.get('act'))
        pos, kw = extra(op)
        e = {'op': op, 't': t, 'k': k, 'rec': rec, 'ctx': ctx, 'pos': pos, 'kw': kw, 'exc': None, 'res': None}
        h = None
        if o == 'handle':
            if op['h'] >= len(handles):
                raise U.Invalid('no such handle')
            h = scn['handles'][op['h']]
        r = world.pool[op['r']] if 'r' in op else world.pool[h['r']] if h and 'r' in h else None
        cls = world.classes[op['c']] if 'c' in op else world.classes[h['c']] if h and 'c' in h else None
        what = h['what'] if h else o
        f = handles[op['h']] if h else getattr(cls if r is None else type(r) if op.get('cls') else r, o, None)
        e['what'], e['r'], e['cls'], e['h'] = what, r, cls, h
        io = None
        if op.get('io'):
            io = kw['io'] = O.SimBytes(b'') if what == 'to_pickle' else O.SimText('')
        if what == 'from_json':
            v = '{"x": 1}'
        elif what == 'from_json_io':
            v = O.SimText('{"x": 1}')
        elif what == 'from_pickle':
            v = bytes(PICKLED)
        elif what == 'from_pickle_io':
            v = O.SimBytes(PICKLED)
        elif o == 'parse':
            v = '{"x": %d}' % (10 ** 6)
            f = cls if op.get('new') else cls.parse
        elif o == 'make_pattern':
            v = dec(op['p'])
            f = R.FullMatch
        elif o == 'use_pattern':
            if op['k'] not in patterns:
                return
            v = dec(op['v'])
            e['made'] = patterns[op['k']]
            f = patterns[op['k']]['cls']
        else:
            v = None
        e['v'], e['io'] = v, io
        if what.startswith('to_'):
            args = (*((r,) if op.get('cls') else ()), *pos)
        elif what.startswith('from_'):
            args = (v, *pos)
        else:
            args = (v,)
        e['start'] = st.tick()
        TL.ctx, TL.c17op = ctx, rec
        try:
            with sched.traced(ctx, opc):
                if o == 'use_pattern':
                    e['res'] = f(x=v)
                else:
                    e['res'] = f(*args, **kw)
        except (sched.SimAbort, U.Invalid, HarnessError):
            raise
        except BaseException as x:
            e['exc'] = x
        TL.ctx = TL.c17op = None
        e['end'] = st.tick()
        events.append(e)
        if o == 'make_pattern' and e['exc'] is None:
            # a class whose field is checked with this pattern
            spec = (('x', R.Annotated[object, e['res']]),)
            c = W.types.new_class('Pat', (R.RecordBase,), {}, lambda body: body.update(__annotations__=dict(spec), __module__='dstw'))
            patterns[op['k']] = {'cls': c, 'calls': list(rec.calls)}

    trace = None
    s = {'ops': 0, 'backend-calls': 0, 'swaps': 0}
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'],
                                            {t: 15 * len(o) * (3 if opc else 1) for t, o in enumerate(threads)}))
        sim.run([(lambda t=t, o=o: [one(t, k, op, sim) for k, op in enumerate(o)]) for t, o in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)
    for kind in KINDS:
        if getattr(extras, kind) is not current[kind]:
            raise Viol('overwritten', f'extras.{kind} is {getattr(extras, kind)!r}, installed was {current[kind]!r}')

    def viol(kind, msg):
        raise Viol(kind, msg, **({'schedule': trace} if trace else {}))

    def installed(kind, start, end):
        ws = [w for w in st.swaps[kind] if w[0] <= end]
        return [w[2] for w in ws if not any(x[0] > w[1] and x[1] < start for x in ws)]

    METHODS = {'to_json': ('json', 'dumps', 'dump'), 'to_pickle': ('pickle', 'dumps', 'dump'), 'from_json': ('json', 'loads'),
               'from_json_io': ('json', 'load'), 'from_pickle': ('pickle', 'loads'), 'from_pickle_io': ('pickle', 'load'),
               'parse': ('json', 'loads'), 'make_pattern': ('re', 'compile')}
    useful = False
    for e in events:
        op, ctx, calls = e['op'], e['ctx'], e['rec'].calls
        what, res, exc = e['what'], e['res'], e['exc']
        s['ops'] += 1
        s['backend-calls'] += len(calls)
        if 'raise' in e['rec'].act and any('exc' in c for c in calls):
            s['fault:' + ('raiseB' if e['rec'].act['raise'] in U.BASE else 'raise')] = s.get(
                'fault:' + ('raiseB' if e['rec'].act['raise'] in U.BASE else 'raise'), 0) + 1
        text = f"thread {e['t']} op {e['k']} {short({k: v for k, v in op.items()}, 250)}"
        asynchronous = op.get('intr') and ctx.interrupt_exc is not None and not any(c.get('exc') is ctx.interrupt_exc for c in calls)
        if asynchronous:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        for c in calls:
            spy = c['spy']
            if c['pattern'] is None and not any(spy is b for b in installed(spy.kind, e['start'], c['t'])):
                viol('wrong-backend', f'{text}: {spy!r}.{c["m"]} was called, installed: {installed(spy.kind, e["start"], c["t"])!r}')
            useful = useful or any(w[0] > 0 for w in st.swaps[spy.kind])
        if asynchronous:
            continue
        if what == 'use_pattern':
            made = e['made']['calls']
            pats = [c['res'] for c in made if c['m'] == 'compile']
            for c in calls:
                if c['m'] != 'fullmatch' or not any(c['pattern'] is p for p in pats):
                    viol('pattern-backend', f'{text}: {c["spy"]!r}.{c["m"]} was called while validating')
                if c['a'] != (e['v'],) or c['a'][0] is not e['v']:
                    viol('pattern-argument', f'{text}: fullmatch was called with {c["a"]!r}')
            if pats and not calls:
                viol('pattern-unused', f'{text}: the compiled pattern was not used')
            for c in calls:
                if 'exc' in c:
                    if exc is None or exc is not c['exc'] and exc.__cause__ is not c['exc']:
                        viol('error', f'{text}: the backend raised {c["exc"]!r}, the caller got {exc!r}')
                elif bool(c['res']) != (exc is None):
                    viol('pattern-result', f'{text}: fullmatch gave {c["res"]!r}, the caller got {exc!r}')
            continue
        kind, *ms = METHODS[what]
        m = ms[1] if len(ms) > 1 and e['io'] is not None else ms[0]
        here = [b for b in installed(kind, e['start'], e['end'])]
        mine = [c for c in calls if c['spy'].kind == kind and c['m'] == m]
        others = [c for c in calls if c not in mine]
        if what in ('from_pickle', 'from_pickle_io', 'parse') and others:
            ok = mine and 'res' in mine[0] and all(
                c['spy'].kind == 'json' and c['m'] == 'loads' and c['a'] == (mine[0]['res'],) and not c['k'] for c in others)
            if ok:
                others = []
            elif not mine and any(not isinstance(b, Spy) for b in here):  # a real backend gave a mapping to parse
                others = []
        if others:
            viol('other-calls', f'{text}: {[(repr(c["spy"]), c["m"]) for c in others]} called, must be {kind}.{m}')
        if len(mine) > 1:
            viol('called-twice', f'{text}: {kind}.{m} was called {len(mine)} times')
        if not mine:
            if not op.get('new') and all(isinstance(b, Spy) for b in here):
                viol('not-called', f'{text}: {kind}.{m} of {here!r} was not called, outcome {res!r} {exc!r}')
            continue
        c = mine[0]
        kw = {k: v for k, v in e['kw'].items() if k != 'io'}
        lead = {'dumps': 1, 'dump': 2}.get(m, 1)
        if c['k'].keys() != kw.keys() or any(c['k'][k] is not kw[k] for k in kw) or len(c['a']) != lead + len(e['pos']) or \
                any(a is not b for a, b in zip(c['a'][lead:], e['pos'])):
            viol('arguments', f'{text}: {kind}.{m} was called with {c["a"]!r} {c["k"]!r}, given were {e["pos"]!r} {kw!r}')
        if lead == 2 and c['a'][1] is not e['io']:
            viol('arguments', f'{text}: the stream given to {kind}.{m} is not the caller\'s')
        if what == 'to_json':
            h = e['h'] or {}
            want = {n: getattr(e['r'], n) for n in U.REG[type(e['r'])]}
            dfl = {n: world.defaults[sp['name'], n] for n, (sp, f) in world.field_specs(type(e['r']).__name__).items()
                   if (sp['name'], n) in world.defaults}
            want = {n: v for n, v in want.items() if h.get('ex') or n not in dfl or v != dfl[n]}
            for n in (h.get('kw') or {}).get('mrm', [0, []])[1]:
                want.pop(n, None)
            got = c['a'][0]
            if list(got) != list(want) or any(got[n] is not want[n] for n in want):
                viol('arguments', f'{text}: {kind}.{m} was given {got!r}, must be {want!r}')
        elif what == 'to_pickle':
            if c['a'][0] is not e['r']:
                viol('arguments', f'{text}: {kind}.{m} was given {c["a"][0]!r}')
        elif c['a'][0] is not e['v']:
            viol('arguments', f'{text}: {kind}.{m} was given {c["a"][0]!r}, not the caller\'s argument {e["v"]!r}')
        if what == 'parse':
            if 'exc' in c and not isinstance(c['exc'], Exception) and exc is not c['exc']:
                viol('error', f'{text}: the backend raised {c["exc"]!r}, the caller got {exc!r}')
            if 'exc' not in c and exc is None and isinstance(res, e['cls']) and 'given' in c and not op.get('new') and \
                    set(c['given']) <= set(U.REG[e['cls']]):
                for n, v in c['given'].items():
                    if getattr(res, n) is not v:
                        viol('result', f'{text}: field {n} is {getattr(res, n)!r}, the backend gave {v!r}')
            continue
        if 'exc' in c:
            if exc is not c['exc']:
                viol('error', f'{text}: the backend raised {c["exc"]!r}, the caller got {exc!r} {res!r}')
            continue
        if what == 'make_pattern':
            continue
        if what.startswith('to_'):
            if exc is not None:
                viol('error', f'{text}: raised {exc!r} though the backend succeeded')
            if m == 'dumps' and res is not c['res'] or m == 'dump' and res is not None:
                viol('result', f'{text}: gave {res!r}, the backend gave {c["res"]!r}')
        elif what.startswith('from_pickle'):
            if isinstance(c['res'], e['cls']) and (exc is not None or res is not c['res']):
                viol('result', f'{text}: gave {res!r} {exc!r}, the backend gave {c["res"]!r}')
        else:
            given = c.get('given')
            names = U.REG[e['cls']]
            if (e['h'] or {}).get('kw'):
                continue
            good = given is not None and set(given) <= set(names) and all(
                n in given or f.get('default') for n, (_, f) in world.field_specs(e['cls'].__name__).items())
            if good != (exc is None):
                viol('result', f'{text}: gave {res!r} {exc!r} though the backend gave {c["res"]!r}')
            if good and any(getattr(res, n) is not v for n, v in given.items()):
                viol('result', f'{text}: gave {res!r}, the backend gave {given!r}')
    s['swaps'] = sum(len(w) for w in st.swaps.values()) - 3
    log = [[repr(c['spy']), c['m'], c['t'], 'exc' in c] for c in st.calls]
    sig = zlib.crc32(json.dumps([threads, trace, log]).encode())
    return {'nontrivial': bool(useful and log), 'sum': s, 'sigs': [sig],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': len(threads) > 1 and len(log) > 3}
