"""C25: imports give the record that construction from the given values gives."""
import collections
import io
import json
import pickle
import types
import zlib

from dst import opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.gen import Gen, flavour
from dst.ops import describe_exc
from dst.simio import SimReader
from dst.userland import Ctx, TL, canon, dec

ID = 'C25'
QUICK = 20000
THOROUGH = 250000
RULE = ('seeded record classes (with coercers, validators, factories, post-construction methods) and histories of 2-8 imports from '
        'mappings of ten kinds (including ones of the user whose every access can fail, and ones that make up values for missing keys), '
        'objects (namespaces, classes, records, objects of the user whose attributes can fail), JSON texts, bytes and streams, pickles and '
        'user-defined factories, with overriding mappings, keyword arguments, missing and unknown names, duplicates; callbacks and sources '
        'failing by a seeded plan, some imports interrupted, in sequence or from 2-3 threads under one seeded schedule, through fresh or '
        'kept importers; every import against construction from the combined values in a fork; non-trivial: an import succeeded')
MEASURE = 'crc of (operations with the kinds of their outcomes, switch sequence)'
REAL = ['records (all of it)', 'json', 'pickle', 'CPython threads, released one at a time']
STUB = ['mappings, objects and streams of the user', 'user callbacks', 'asynchronous interrupts', 'thread scheduling, locks and clocks']
ASSUMPTIONS = ['an attribute that equals the plain default of its field counts as not given',
               'which of several mistakes of one import is reported is open']

SRC = ['src-get', 'src-iter', 'src-attr']
# (the interpreter itself replaces KeyError and AttributeError in ** and attribute access)
FAILS = [x for x in U.ORDINARY if x not in ('KeyError', 'AttributeError')]


UNKNOWN = ['unknown', 'unknown', '_unknown', '__unknown__', 'Unknown', 'self', 'data', '_select', '', 'a b', '_', '__class__', '__dict__', '_hash']


class SimMap(collections.abc.Mapping):
    """a mapping of the user"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        U._user_op('src-get', k)
        return self.d[k]

    def __iter__(self):
        U._user_op('src-iter', None)
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


class Missing(dict):
    def __missing__(self, k):
        return 'made up'


class Lower(dict):
    """finds its keys whatever their case, as mappings of headers do"""

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else dict.__getitem__(self, k.lower())


class SimObj:
    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        U._user_op('src-attr', k)
        try:
            return self._d[k]
        except KeyError:
            raise AttributeError(k) from None


MAPS = {'dict': dict, 'od': collections.OrderedDict, 'mp': lambda d: types.MappingProxyType(d), 'ds': U.DictSub, 'sim': SimMap,
        'ud': collections.UserDict, 'cm': lambda d: collections.ChainMap(d, {}), 'dd': lambda d: collections.defaultdict(list, d),
        'missing': Missing, 'lower': Lower, 'ctr': collections.Counter}


def gen(rng, i):
    js = rng.random() < 0.3
    g = Gen(rng, jsonable=True) if js else flavour(rng)
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.15, p_parsers=0.3, p_pre=0.1, p_default=rng.choice([0.2, 0.5, 0.8]), p_inherit=0.5,
              n_fields=rng.choice([1, 2, 2, 3, 4]), style=g.ch(['hollow', 'hollow', 'check', 'strict']))
    names = sorted(g.specs)
    hist = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        if hist and g.p(0.25):
            hist.append(again(g, g.ch(hist)))
            continue
        hist.append(gen_op(g, g.ch(names), js))
        if g.p(0.4):
            hist[-1]['spoil'] = 1
    scn = {'classes': list(g.specs.values())}
    if rng.random() < 0.35:
        n = rng.choice([2, 2, 3])
        scn['threads'] = [x for x in (hist[k::n] for k in range(n)) if x]
    else:
        scn['threads'] = [hist]
    scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.3)}
    return scn


def decoy(g, v):
    return g.json_value() if g.o['jsonable'] else g.any_value() if g.p(0.5) else g.scalar()


def gen_op(g, c, js):
    rng = g.rng
    kw = g.kwargs_for(c, rng.choice([1.0, 1.0, 0.9]), complete=False if g.p(0.3) else None)
    items = [[k, v] for k, v in kw.items()]
    sels = [p['name'] for b in [c] + g.all_bases(c) if b in g.specs for p in g.specs[b].get('parsers', ()) if p['kind'] == 'selectable']
    kinds = ['from_mapping'] * 4 + ['from_instance'] * 4 + ['from_pickle'] + (['mk'] * 2 if sels else []) + \
            (['from_json', 'from_json', 'from_json_io'] * 2 if js else [])
    o = g.ch(kinds)
    op = {'o': o, 'c': c, 'keep': int(g.p(0.3))}
    unknown = g.p(0.06)
    if o in ('from_mapping', 'from_instance'):
        n = rng.choice([0, 1, 1, 1, 2, 2, 3]) if o == 'from_mapping' else rng.choice([0, 0, 0, 1, 1, 2])
        use_kw = g.p(0.3)
        homes = ['obj'] * 2 if o == 'from_instance' else []
        homes += list(range(n)) + (['kw'] if use_kw else [])
        src = {h: [] for h in homes}
        rest = []
        required = {f['name'] for f in g.fields_of(c) if not f.get('default')}
        for k, v in items:
            hs = [h for h in homes if not (h == 'kw' and k in ('v', 'cls'))]
            if o == 'from_instance' and k in required:
                # (a required attribute must be there, even if it is overridden)
                hs = ['obj'] if g.p(0.75) else hs
            if not hs:
                rest.append(k)
                continue
            h = g.ch(hs)
            src[h].append([k, v])
            lower = weaker(o, homes, h)
            for l in lower:
                if g.p(0.35) and not (l == 'kw' and k in ('v', 'cls')) and k not in [a for a, _ in src[l]]:
                    src[l].append([k, decoy(g, v)])
            if o == 'from_instance' and k in required and h != 'obj' and g.p(0.9) and k not in [a for a, _ in src['obj']]:
                src['obj'].append([k, decoy(g, v)])
        if unknown and homes:
            h = g.ch(homes)
            names = {'obj': ['unknown', '_unknown'], 'kw': [x for x in UNKNOWN if x not in ('self', '_select')]}
            src[h].append([g.ch(names.get(h, UNKNOWN)), ['i', 1]])
        if o == 'from_instance':
            if g.p(0.3):
                src['obj'].append(['surplus', g.scalar()])
            op['obj'] = {'kind': g.ch(['ns', 'ns', 'sim', 'sim', 'cls', 'slots', 'inst']), 'items': src['obj']}
            if g.p(0.2) and kw:
                op['obj'] = {'kind': 'rec', 'items': [], 'c': c if g.p(0.7) else g.ch(sorted(g.specs)), 'kws': []}
                op['obj']['kws'] = [g.kwargs_for(op['obj']['c'], 1.0) for _ in range(3)]
        op['maps'] = [{'kind': g.ch(sorted(MAPS) + ['dict', 'sim']), 'items': shuffled(rng, src[k])} for k in range(n)]
        op['kw'] = src.get('kw', [])
        if g.p(0.05):
            op['bad'] = g.ch([['i', 3], ['n'], ['s', 'x']])
    elif o in ('from_json', 'from_json_io'):
        if g.p(0.06):
            op['text'] = g.ch(['[]', '[1]', '"a"', '1', 'null', '', '{', '[["x", 1]]'])
        dup = [[k, decoy(g, v)] for k, v in items if g.p(0.1)]
        op['items'] = dup + items + ([[g.ch(UNKNOWN), ['i', 1]]] if unknown else [])
        op['as'] = g.ch(['str', 'str', 'bytes', 'bytearray'])
    elif o == 'from_pickle':
        k = rng.random()
        if k < 0.5:
            op['v'] = [g.ch(['d', 'od', 'ds']), [[['s', a], v] for a, v in items]]
        elif k < 0.85:
            op['v'] = ['r', g.ch(sorted(g.specs)), [g.kwargs_for(c, 1.0) for _ in range(2)]]
        else:
            op['v'] = g.any_value()
        op['io'] = int(g.p(0.4))
    else:
        op['n'] = g.ch(sels)
        op['v'] = g.any_value() if g.p(0.5) else g.mapping_for(c)
    fl = []
    if g.p(0.25):
        fl += g.faults(1.0, cbs=[cb for cb, _ in g.cbids] or None)
    if g.p(0.25):
        fl.append({'cb': g.ch(SRC), 'when': g.ch(['all', ['mod', 2, 0], ['mod', 2, 1], ['mod', 3, 1]]), 'act': ['raise', g.ch(FAILS)]})
    if fl:
        op['faults'] = fl
    if g.p(0.1):
        op['intr'] = [g.ch(sorted(U.BASE)), rng.randrange(1, 40)]
    return op


def again(g, op):
    """the import once more, from the same (often changed) sources, often after its record was changed"""
    if g.p(0.7):
        op['spoil'] = 1
    if g.p(0.7):
        op['keep'] = 1
    op2 = json.loads(json.dumps({k: v for k, v in op.items() if k not in ('faults', 'intr') or g.p(0.3)}))
    op2['reuse'] = 1
    for l in [m['items'] for m in op2.get('maps', ())] + [op2.get('kw', []), op2.get('obj', {}).get('items', [])]:
        for x in l:
            if g.p(0.25):
                x[1] = decoy(g, x[1])
    if g.p(0.2):
        op2.pop('faults', None)
    return op2


def shuffled(rng, x):
    x = list(x)
    rng.shuffle(x)
    return x


def weaker(o, homes, h):
    """the sources that ``h`` wins over (where that is stated)"""
    if o == 'from_mapping':
        order = [x for x in homes if x != 'kw'] + [x for x in homes if x == 'kw']
        return order[order.index(h) + 1:]
    rank = {'obj': 0, 'kw': 2}
    return sorted({x for x in homes if rank.get(x, 1) < rank.get(h, 1)}, key=str)


class Prep:
    """the decoded arguments of an import"""

    def __init__(self, world, op):
        self.pre = None  # the only possible error type
        o = op['o']
        E = {}
        self.pos, self.kw = [], {}
        cls = world.classes[op['c']]
        specs = world.field_specs(op['c'])
        if o in ('from_mapping', 'from_instance'):
            maps = [{k: dec(v, world) for k, v in m['items']} for m in op['maps']]
            kw = {k: dec(v, world) for k, v in op['kw']}
            if o == 'from_mapping':
                for m in [kw] + maps[::-1]:
                    E.update(m)
            else:
                attrs = {k: dec(v, world) for k, v in op['obj']['items']}
                obj = self.make_obj(world, op['obj'], attrs)
                if obj is U.NOREC:
                    raise U.Invalid('no record')
                for n, (spec, f) in specs.items():
                    try:
                        v = getattr(obj, n)
                    except AttributeError:
                        if not f.get('default'):
                            self.pre = 'AttributeError'
                        continue
                    d = f.get('default')
                    if d and d[0] != 'fac' and world.defaults[spec['name'], n] == v:
                        continue
                    E[n] = v
                for m in maps + [kw]:
                    E.update(m)
                self.pos.append(obj)
                if op['obj']['kind'] == 'rec' and isinstance(obj, cls) and cls.is_frozen() and not maps and not kw:
                    self.itself = obj
            self.pos += [MAPS[m['kind']](d) for m, d in zip(op['maps'], maps)]
            if 'bad' in op:
                self.pos.append(dec(op['bad'], world))
            self.kw = kw
            self.E = E
        elif o in ('from_json', 'from_json_io'):
            t = op['text'] if 'text' in op else text(op['items'])
            self.raw = t if op['as'] == 'str' else t.encode('utf-8', 'surrogatepass') if op['as'] == 'bytes' else bytearray(t.encode())
            if o == 'from_json_io':
                self.raw = SimReader(t.encode(), None, text=op['as'] == 'str')
            self.pos = [self.raw]
            try:
                self.E = json.loads(t)
            except ValueError as e:
                self.E = e
        elif o == 'mk':
            self.pos = [dec(op['v'], world)]
        else:
            self.v = dec(op['v'], world)
            if self.v is U.NOREC:
                raise U.Invalid('no record')
            try:
                raw = pickle.dumps(self.v)
                pickle.loads(raw)
            except Exception:
                raise U.Invalid('cannot be pickled')
            self.raw = raw
            self.pos = [io.BytesIO(raw) if op['io'] else raw]

    itself = U.NOREC

    def reuse(self, op, old, oldop):
        """takes over the source objects of an earlier import, with the contents of this one"""
        if op['o'] not in ('from_mapping', 'from_instance') or len(self.pos) != len(old.pos):
            return
        for k, (a, b) in enumerate(zip(self.pos, old.pos)):
            if type(a) is not type(b):
                continue
            if isinstance(a, (dict, collections.UserDict)):
                new = dict(a)
                b.clear()
                b.update(new)
            elif type(a) in (SimMap, SimObj):
                d = b.__dict__['d' if type(a) is SimMap else '_d']
                d.clear()
                d.update(a.__dict__['d' if type(a) is SimMap else '_d'])
            elif type(a) is types.SimpleNamespace:
                b.__dict__.clear()
                b.__dict__.update(a.__dict__)
            else:
                continue
            self.pos[k] = b

    @staticmethod
    def make_obj(world, o, attrs):
        if o['kind'] == 'ns':
            return types.SimpleNamespace(**attrs)
        if o['kind'] == 'sim':
            return SimObj(attrs)
        if o['kind'] == 'cls':
            return type('Attrs', (), attrs)
        if o['kind'] == 'slots':
            r = type('Slotted', (), {'__slots__': tuple(attrs)})()
            for k, v in attrs.items():
                setattr(r, k, v)
            return r
        if o['kind'] == 'inst':
            # attributes of the class of the object
            return type('Attrs', (), attrs)()
        if o['c'] not in world.classes:
            raise U.Invalid('no class')
        return dec(['r', o['c'], o['kws']], world)


def text(items):
    return '{' + ', '.join(f'{json.dumps(k)}: {json.dumps(dec(v))}' for k, v in items) + '}'


def perform(world, op, p, kept):
    cls = world.classes[op['c']]
    o = op['o']
    name = {'mk': op.get('n'), 'from_pickle': 'from_pickle_io' if op.get('io') else o}.get(o, o)
    f = kept.setdefault((op['c'], name), getattr(cls, name)) if op.get('keep') else getattr(cls, name)
    return f(*p.pos, **p.kw)


def describe(res, E, log):
    out = {'ok': norm(canon(res)), 'log': sorted(json.dumps(e) for e in log if e[0] not in SRC)}
    if type(res) in U.REG and isinstance(E, dict):
        out['same'] = [k for k in U.REG[type(res)] if k in E and res.__dict__.get(k) is E[k]]
    return out


def err(e):
    d = describe_exc(e)
    msg = d['m'] if d['m'].startswith('error filling') else None
    return {'err': [d['t'], msg, d.get('c', {}).get('t')]}


def reference(world, op):
    """what construction from the combined values gives, with the values in different orders; or None (invalid)"""
    try:
        p = Prep(world, op)
    except U.Invalid:
        return None
    cls = world.classes[op['c']]
    if p.pre:
        return {'pre': p.pre}

    def alone(f, E=None):
        ctx = Ctx(None, [x for x in op.get('faults', ()) if x['cb'] not in SRC])
        TL.ctx = ctx
        try:
            r = f(ctx)
            TL.ctx = None
            return describe(r, E, ctx.log)
        except U.Invalid:
            raise
        except BaseException as e:
            TL.ctx = None
            if not isinstance(e, Exception):
                return {'base': type(e).__name__}
            return err(e)

    if op['o'] == 'from_pickle':
        def g(ctx):
            r = pickle.loads(p.raw)
            return r if isinstance(r, cls) else cls.parse(r)
        return {'outs': [alone(g)]}
    if op['o'] == 'mk':
        mine = {world.classes[s['name']]: s for s in world.specs.values() if s['name'] in world.classes}
        pspec = next(q for b in cls.__mro__ if b in mine for q in mine[b].get('parsers', ()) if q['name'] == op['n'])
        if pspec['kind'] != 'selectable':
            return None

        def f(ctx):
            r = ctx.callback(pspec['cb'], 'parser', pspec['sem'], p.pos[0])
            m = r if pspec.get('mode') == 'mapping' else {pspec.get('field'): r}
            if pspec.get('mode', 'field') not in ('mapping', 'field'):
                m = {pspec.get('field'): r}
            return cls(**m)
        return {'outs': [alone(f)]}
    E = p.E
    if not isinstance(E, dict) or 'bad' in op:
        return {'outs': []}
    if p.itself is not U.NOREC:
        return {'outs': [alone(lambda ctx: cls(**E), E), {'ok': norm(canon(p.itself)), 'log': [], 'itself': 1}]}
    outs = [alone(lambda ctx: cls(**E), E)]
    if 'ok' not in outs[0]:
        for k in list(E)[1:]:
            E2 = {k: E[k], **E}
            outs.append(alone(lambda ctx: cls(**E2), E2))
    return {'outs': outs}


def shared(world, res, k):
    return any('"map"' in json.dumps(f) for s in world.specs.values() for f in s['fields'] if f['name'] == k)


def spoil(world, res, E):
    """changes the containers among the given values of a record in place"""
    if type(res) not in U.REG or not isinstance(E, dict):
        return
    plain = {id(v) for v in world.defaults.values()}
    for k in U.REG[type(res)]:
        v = res.__dict__.get(k)
        if k not in E or id(v) in plain or shared(world, res, k):
            # (a default or a value of a mapping of the declaration, shared by all records)
            continue
        if isinstance(v, list):
            v.append('spoiled')
        elif isinstance(v, (dict, collections.UserDict)):
            v['spoiled'] = 1
        elif isinstance(v, set):
            v.add('spoiled')


def judge(world, op, p, ctx, res, exc, got, ref):
    me = f'{short(op, 700)} of {short([world.specs[c] for c in world.specs], 900)}'
    if ctx.interrupt_exc is not None:
        if exc is not None and exc is not ctx.interrupt_exc and not isinstance(exc, Exception):
            raise Viol('interrupt', f'{exc!r} instead of {ctx.interrupt_exc!r}; {me}')
        return 'interrupted'
    if isinstance(exc, (U.Hang, sched.StepLimit)):
        raise Viol('hang', f'no end of {me}')
    if exc is not None and not isinstance(exc, Exception):
        if any('base' in o for o in ref.get('outs', ())):
            return 'interrupted'
        raise Viol('escaped', f'{type(exc).__name__} came out of {me}')
    src = any(f[0] in SRC for f in ctx.fired)
    if src:
        mine = [e for e in ctx.injected if any(f[0] in SRC for f in ctx.fired)]
        if exc is None:
            raise Viol('swallowed', f'reading a source failed with {mine[0]!r} but the import gave {short(got["ok"])}; {me}')
        if any(exc is e for e in mine) or 'pre' in ref or any(o == got for o in ref['outs']):
            return 'source-failed'
        raise Viol('replaced', f'reading a source failed with {mine[0]!r}, the import raised {exc!r}; {me}')
    if 'pre' in ref:
        if exc is None:
            raise Viol('missing', f'a required attribute is missing but the import gave {short(got["ok"])}; {me}')
        if type(exc).__name__ != ref['pre']:
            raise Viol('error', f'a required attribute is missing, the import raised {exc!r}; {me}')
        return 'failed'
    outs = ref['outs']
    if not outs:
        if exc is None:
            raise Viol('accepted', f'gave {short(got["ok"])} from a source that can not be read; {me}')
        return 'failed'
    good = [o for o in outs if 'ok' in o]
    if exc is not None:
        if good:
            raise Viol('refused', f'raised {exc!r} (cause {exc.__cause__!r}), construction from the values gives {short(good[0]["ok"])}; {me}')
        if op['o'] != 'from_pickle' and not any(o == got for o in outs):
            raise Viol('error', f'raised {got["err"]}, construction from the values raises one of {short([o["err"] for o in outs if "err" in o])}; {me}')
        return 'failed'
    if not good:
        raise Viol('accepted', f'gave {short(got["ok"])}, construction from the values raises {short(outs)}; {me}')
    for o in good:
        if o.get('itself'):
            if res is p.itself:
                return 'ok'
        elif got == {k: v for k, v in o.items()} or 'same' not in o and {**got, 'same': 0} == {**o, 'same': 0}:
            return 'ok'
    kind = 'value' if got['ok'] != good[0]['ok'] else 'calls' if got['log'] != good[0]['log'] else 'identity'
    if op['o'] in ('from_json', 'from_json_io', 'mk', 'from_pickle') and kind == 'identity':
        return 'ok'
    raise Viol(kind, f'gave {short(got)}, construction from the values gives {short(good[0])}; {me}')


def run(scn):
    world = opgen.build(scn)
    s = {'ops': 0, 'steps': 0}
    threads = scn['threads']
    flatops = [op for t in threads for op in t]

    def prepare():
        return [reference(world, op) for op in flatops]

    refs = forked(prepare)
    refs = {(t, k): refs[sum(len(x) for x in threads[:t]) + k] for t, x in enumerate(threads) for k in range(len(x))}
    kept, done = {}, {}
    preps = [[] for _ in threads]
    opc = bool(scn['sched']['op'])

    def one(t, k, op, sim):
        if refs[t, k] is None:
            return
        try:
            p = Prep(world, op)
        except U.Invalid:
            return
        if op.get('reuse'):
            for p2, op2 in reversed(preps[t]):
                if op2['o'] == op['o'] and op2['c'] == op['c']:
                    p.reuse(op, p2, op2)
                    break
        preps[t].append((p, op))
        ctx = Ctx(sim, op.get('faults', ()))
        if op.get('intr'):
            ctx.interrupt_name, ctx.interrupt_at = op['intr']
        TL.ctx = ctx
        res = exc = None
        try:
            if sim is not None or op.get('intr'):
                with sched.traced(ctx, opc and not op.get('intr')):
                    res = perform(world, op, p, kept)
            else:
                res = perform(world, op, p, kept)
        except (U.Invalid, sched.SimAbort):
            raise
        except BaseException as e:
            exc = e
        TL.ctx = None
        got = err(exc) if exc is not None else describe(res, getattr(p, 'E', None), ctx.log)
        if op.get('spoil') and exc is None:
            spoil(world, res, getattr(p, 'E', None))
            s['spoiled'] = s.get('spoiled', 0) + 1
        s['ops'] += 1
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        s['steps'] += ctx.steps
        done[t, k] = (op, p, ctx, res, exc, got)

    trace = None
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], {t: 60 * len(x) for t, x in enumerate(threads)}))
        sim.run([(lambda t=t, x=x: [one(t, k, op, sim) for k, op in enumerate(x)]) for t, x in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['switches'] = len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)
    trail = []
    det = {'schedule': trace} if trace else {}
    for (t, k), (op, p, ctx, res, exc, got) in sorted(done.items(), key=lambda x: x[0]):
        try:
            kind = judge(world, op, p, ctx, res, exc, got, refs[t, k])
        except Viol as v:
            raise Viol(v.kind, v.msg, **det)
        s[kind] = s.get(kind, 0) + 1
        trail.append([op, kind])
    return {'nontrivial': s.get('ok', 0) > 0, 'sum': s, 'sigs': [zlib.crc32(json.dumps([trail, trace]).encode())],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': trace is None and len(trail) > 3}
