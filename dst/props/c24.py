"""C24: contradictory declarations are rejected when the class is defined (and others are not)."""
import inspect
import json
import zlib

from dst import fillcheck, model, ops, opgen, sched, world as W
from dst import userland as U
from dst.common import Viol, HarnessError, short, norm
from dst.gen import Gen, flavour
from dst.userland import Ctx, TL, dec

ID = 'C24'
QUICK = 9000
THOROUGH = 200000
RULE = ('seeded record classes with 0-4 random edits of their declarations (checking styles, coercers, validators and containers '
        'put at any depth, abstract and untyped hints, inherited names, further parents, Final, additions in pre_bind to any field '
        'and sub-key, class options), sharing hint and token objects; 2-8 definitions in sequence or from 2-3 threads under a seeded '
        'schedule, some failing in their hook or interrupted at a seeded step and then repeated with the same objects; an own '
        'reading of each declaration says whether it can be honoured; contradictory ones must never give a class, others must, and '
        'the classes are used and compared with the reference interpreter; non-trivial: a definition was refused, interrupted or '
        'concurrent')
MEASURE = 'crc of (declaration, verdict, outcome, faults that fired)'
REAL = ['records (all of it)', 'typing', 'CPython threads, released one at a time']
STUB = ['user callbacks and hooks', 'asynchronous interrupts', 'thread scheduling, locks and clocks', 'the reading of declarations and the '
        'reference interpreter of filling (dst/model.py) as oracles']
ASSUMPTIONS = ['a coercer given to a whole union that suits only some of its members may be refused or not']
ORD = {'alpha', 'beta'}
LEVAL = {int, str, float, complex, set, tuple, dict, list, bool}


# ------------------------------------------------------------ reading a declaration
class Reader:
    """collects why a declaration cannot be honoured; 'may:' reasons leave it open"""

    def __init__(self, specs, spec):
        self.specs = specs
        self.spec = spec
        self.cstyle = spec.get('style') or 'hollow'
        self.why = []
        self.m = model.Model.__new__(model.Model)

    def fields_of(self, name):
        spec = self.specs[name]
        out = []
        for b in spec.get('bases', ()):
            if b in self.specs:
                out += self.fields_of(b)
        return out + [f['name'] for f in spec['fields']]

    def read(self):
        spec = self.spec
        inherited = []
        for b in spec.get('bases', ()):
            if b in self.specs:
                for n in self.fields_of(b):
                    if n in inherited:
                        self.why.append(f'two parents with {n}')
                    inherited.append(n)
        own = [f['name'] for f in spec['fields']]
        for n in own:
            if n in inherited:
                self.why.append(f'overrides {n}')
        if not own and not inherited:
            self.why.append('no fields')
        for f in spec['fields']:
            if f.get('final') == 'raw':
                self.why.append('raw Final')
            elif f.get('final') and not spec.get('frozen'):
                self.why.append('Final in a mutable class')
            before, sub = [], {}
            for p in spec.get('pre_bind', ()):
                if p['field'] != f['name']:
                    continue
                tok = [{'coercer': 'co', 'validator': 'va', 'assert': 'as'}[p['kind']], p['cb'][0], p['cb'][1]]
                if p.get('sub') is None:
                    before.append(tok)
                elif self.has_sub(f['node'], p['sub']):
                    sub.setdefault(p['sub'], []).append(tok)
                else:
                    self.why.append(f"no sub-filler {p['sub']} of {f['name']}")
            if '"tvar"' in json.dumps(f['node']) and (f.get('tags') or '["tag"' in json.dumps(f['node'])):
                self.why.append('may: tags for what is no type')
            self.node(f['node'], before, sub)
        for p in spec.get('pre_bind', ()):
            if p['field'] not in own:
                self.why.append(f"tokens for inherited {p['field']}")
        return self.why

    @staticmethod
    def has_sub(node, key):
        node = model.flat(node)
        k = node['k']
        if k == 'union':
            return key < len(node['m'])
        if k in ('optional', 'self', 'map'):
            return key < 2
        if k == 'tup':
            return key < len(node['e'])
        if k in ('iter', 'tupv'):
            return key == 0
        return False

    def origin(self, node):
        k = node['k']
        if k == 'plain':
            return W.PLAIN[node['t']]
        if k == 'none':
            return type(None)
        if k == 'ellipsis':
            return type(...)
        if k == 'any':
            return object
        if k == 'type':
            return type
        if k == 'gen':
            return W.ABC['Sequence']  # any abstract class
        if k in ('tup', 'tupv'):
            return tuple
        if k == 'iter':
            return W.ITER9[node['c']]
        if k == 'newtype':
            return self.origin(node['n'])
        if k == 'rec':
            return U.P
        if k in ('callable', 'lit'):
            return None
        return self.m.origin(node)

    def coercer(self, t, node, outer):
        if t[0] == 'shared':
            t = t[2]
        o = self.origin(node)
        bad = False
        k = t[0]
        if k == 'cm':
            bad = not hasattr(o, t[1]) if o is not None else True
            if node['k'] == 'rec':
                raise U.Invalid('class method of a record')
        elif k == 'compose':
            for x in t[1]:
                self.coercer(x, node, outer)
        elif k in ('loose', 'loosei', 'lunpack', 'lmap'):
            bad = o is None or inspect.isabstract(o)
        elif k == 'fromint':
            bad = o is not bool
        elif k == 'leval':
            bad = o not in LEVAL
        elif k == 'eval' and '...' in t[1] and o is None:
            raise U.Invalid('name of no class')
        if bad:
            self.why.append(('may: ' if outer else '') + f'{k} for {node["k"]} {node.get("t", "")}')

    IS_CO = {'co', 'map', 'cm', 'compose', 'loose', 'loosei', 'lunpack', 'lmap', 'whole', 'tobytes', 'fromint', 'falsish', 'eval', 'leval'}

    def kind_of(self, t):
        return t[2][0] if t[0] == 'shared' else t[0]

    def node(self, node, before, sub, outer=0):
        """``outer``: how many of ``before`` stem from a union"""
        node = model.flat(node)
        k = node['k']
        toks = list(before) + list(node.get('toks', ()))
        real = [t for t in toks if self.kind_of(t) != 'tag']
        if k in ('union', 'optional', 'self'):
            ts = model.Model.union_tokens(node, before)
            for i, m in enumerate(self.m.members(node)):
                mine = list(sub.get(i, ()))
                self.node(m, mine + ts if mine else ts, {}, len(ts))
            return
        if k == 'tvar':
            if self.cstyle != 'hollow':
                self.why.append('checking of what is no type')
            if real:
                self.why.append('tokens for what is no type')
            return
        style = model.Model.style(toks, self.cstyle)
        cos = [t for t in toks if self.kind_of(t) in self.IS_CO]
        if style == 'hollow' and cos:
            self.why.append('coercers without checking')
        for t in cos:
            self.coercer(t, node, any(t is x for x in before[len(before) - outer:]) if outer else False)
        o = self.origin(node)
        if style == 'strict' and (k == 'gen' or o is not None and inspect.isabstract(o)) and k not in ('callable', 'lit'):
            self.why.append('strict checking of an abstract type')
        inner = [node['e'], *node.get('more', ())] if k in ('iter', 'tupv', 'gen') else node['e'] if k == 'tup' else [node['kk'], node['vv']] if k == 'map' else []
        if inner and k != 'tupv' and all(e['k'] == 'tvar' and not e.get('toks') for e in inner):
            raise U.Invalid('as good as no parameters')
        busy = False
        for i, e in enumerate(inner):
            b = list(sub.get(i, ())) if k != 'gen' else []
            self.node(e, b, {})
            if e['k'] == 'tvar':
                continue
            busy = busy or not self.trivial(e, b)
        if busy and k == 'gen':
            self.why.append('checked elements of a type without such')
        elif busy and style == 'hollow':
            self.why.append('checked or validated elements in an unchecked container')

    def trivial(self, node, before):
        node = model.flat(node)
        if node['k'] == 'tvar':
            return True
        if node['k'] in ('union', 'optional', 'self'):
            ts = model.Model.union_tokens(node, before)
            return all(self.trivial(m, ts) for m in self.m.members(node))
        toks = list(before) + list(node.get('toks', ()))
        return model.Model.style(toks, self.cstyle) == 'hollow' and not any(self.kind_of(t) not in self.IS_CO | {'style', 'tag'} for t in toks)


# ------------------------------------------------------------ generation
def places(spec):
    """every node of the declaration with its depth"""
    out = []

    def walk(n, d, top):
        if n['k'] == 'self':
            return
        if n['k'] == 'newtype':
            out.append((n, d, top))
            walk(n['n'], d, top)
            return
        out.append((n, d, top))
        for x in n.get('m', ()):
            walk(x, d + 1, False)
        for key in ('e', 'kk', 'vv', 'more'):
            e = n.get(key)
            for x in e if isinstance(e, list) else [e] if e else ():
                walk(x, d + 1, False)
    for f in spec['fields']:
        walk(f['node'], 0, True)
    return out


EDITS = ['style', 'style', 'style', 'coercer', 'coercer', 'validator', 'wrap', 'wrap', 'abstract', 'tvar', 'override', 'base', 'final',
         'pre', 'pre', 'pre', 'class', 'nofields', 'suits', 'genwrap', 'unwrap']


def edit(g, spec, specs, how):
    rng = g.rng
    ps = places(spec)
    node, d, top = g.ch(ps) if ps else (None, 0, True)
    if node is not None and g.p(0.4):
        deep = [x for x in ps if x[1] >= 1]
        if deep:
            node, d, top = g.ch(deep)
    if node is None and how not in ('override', 'base', 'nofields', 'class'):
        return
    fld = g.ch(spec['fields']) if spec['fields'] else None

    def put(t):
        node['toks'] = list(node.get('toks', ()))
        node['toks'].insert(rng.randrange(len(node['toks']) + 1), t)

    if how == 'style':
        if node['k'] == 'rec' and g.p(0.5):
            return
        put(['style', g.ch(['hollow', 'hollow', 'check', 'strict'])])
    elif how == 'coercer':
        put(['co', g.cbid('coercer'), g.ch(['ident', 'int', 'str', 'fail', 'none'])])
    elif how == 'suits':
        put(g.ch([['loosei'], ['loose'], ['leval'], ['fromint'], ['cm', g.ch(['fromhex', 'fromkeys', 'from_bytes', 'of', 'nothing'])], ['lunpack'],
                  ['whole'], ['falsish'], ['compose', [['co', g.cbid('coercer'), 'ident'], ['loosei']]]]))
    elif how == 'validator':
        put(['va', g.cbid('validator'), 'ident'] if g.p(0.6) else ['as', g.cbid('assert'), 'a_true', {}])
    elif how == 'wrap':
        inner = json.loads(json.dumps(node))
        inner.pop('share', None)
        node.clear()
        k = g.ch(['list', 'list', 'deque', 'Sequence', 'map', 'mapv', 'tup', 'tupv', 'opt', 'union'])
        if inner['k'] in ('union', 'optional') and k in ('opt', 'union'):
            k = 'list'
        toks = [['style', g.ch(['hollow', 'check', 'strict'])]] if g.p(0.6) else []
        other = {'k': 'plain', 't': g.ch(['int', 'str', 'float']), 'toks': [['style', 'hollow']] if g.p(0.5) else []}
        if k in ('list', 'deque', 'Sequence'):
            node.update({'k': 'iter', 'c': k, 'e': inner, 'toks': toks})
        elif k == 'map':
            node.update({'k': 'map', 'c': 'dict', 'kk': other, 'vv': inner, 'toks': toks})
        elif k == 'mapv':
            node.update({'k': 'map', 'c': g.ch(['dict', 'Mapping']), 'kk': {'k': 'plain', 't': 'str', 'toks': [['style', 'hollow']] if g.p(0.4) else []},
                         'vv': inner, 'toks': toks})
        elif k == 'tup':
            es = [inner, other]
            rng.shuffle(es)
            node.update({'k': 'tup', 'e': es[:g.ch([2, 2, 1])], 'toks': toks})
        elif k == 'tupv':
            node.update({'k': 'tupv', 'e': inner, 'toks': toks})
        elif k == 'opt':
            node.update({'k': 'optional', 'm': [inner if inner['k'] != 'none' else other], 'toks': toks})
        else:
            node.update({'k': 'union', 'm': [inner, other], 'toks': toks})
    elif how == 'genwrap':
        inner = json.loads(json.dumps(node))
        inner.pop('share', None)
        node.clear()
        if g.p(0.5):
            inner = {'k': g.ch(['any', 'plain']), 't': 'int', 'toks': [['style', 'hollow']] if g.p(0.7) else []}
        node.update({'k': 'gen', 'c': g.ch(['Iterable', 'Collection', 'Container', 'Reversible']), 'e': inner,
                     'toks': [['style', g.ch(['hollow', 'check'])]] if g.p(0.6) else []})
        if g.p(0.4):
            node['c'] = g.ch(['Generator', 'AsyncGenerator'])
            es = [inner] + [{'k': g.ch(['any', 'plain']), 't': 'int', 'toks': [['style', 'hollow']]} for _ in range(1 + (node['c'] == 'Generator'))]
            rng.shuffle(es)
            node['e'], node['more'] = es[0], es[1:]
    elif how == 'unwrap':
        for key in ('e', 'vv'):
            if isinstance(node.get(key), dict):
                inner = node[key]
                node.clear()
                node.update(inner)
                return
    elif how == 'abstract':
        toks = node.get('toks', []) if g.p(0.5) else []
        node.clear()
        node.update({'k': 'plain', 't': g.ch(['abc.Sequence', 'abc.Mapping', 'Shape', 'abc.Sized', 'abc.Hashable', 'abc.Iterable']),
                     'toks': [t for t in toks if t[0] == 'style']})
        if g.p(0.6):
            put(['style', g.ch(['strict', 'strict', 'check'])])
        if g.p(0.2):
            put(['co', g.cbid('coercer'), 'ident'])
    elif how == 'tvar':
        node.clear()
        node.update({'k': 'tvar', 'toks': [['style', g.ch(['hollow', 'check'])]] if g.p(0.3) else []})
    elif how == 'override':
        inh = sorted({n for b in spec['bases'] if b in specs for n in Reader(specs, spec).fields_of(b)})
        if inh:
            f = {'name': g.ch(inh), 'node': {'k': 'plain', 't': 'int', 'toks': []}}
            if g.p(0.3):
                f['default'] = ['v', ['i', 1]]
            spec['fields'].insert(rng.randrange(len(spec['fields']) + 1), f)
    elif how == 'base':
        cand = [n for n in sorted(specs) if n not in spec['bases']]
        if cand:
            spec['bases'].insert(rng.randrange(len(spec['bases']) + 1), g.ch(cand))
    elif how == 'final':
        if g.p(0.5):
            spec['frozen'] = not spec.get('frozen')
        fld['final'] = g.ch([True, True, 'in', 'half', 'raw'])
    elif how == 'pre':
        inh = [n for b in spec['bases'] if b in specs for n in Reader(specs, spec).fields_of(b)]
        if inh and g.p(0.4):
            f, nd = g.ch(inh), None
        else:
            f, nd = fld['name'], fld['node']
        kind = g.ch(['coercer', 'validator', 'assert'])
        sub = g.ch([0, 0, 1, 2]) if g.p(0.6) else None
        if nd is not None and nd['k'] == 'self':
            sub = None
        spec.setdefault('pre_bind', []).append({'field': f, 'sub': sub, 'kind': kind,
                                                'cb': [g.cbid(kind), 'ident' if kind != 'assert' else 'a_true']})
    elif how == 'class':
        spec['style'] = g.ch(['hollow', 'check', 'strict'])
    elif how == 'nofields':
        spec['fields'] = []
        spec.pop('pre_bind', None)
        if g.p(0.5):
            spec['classvars'] = ['cv']


def unions_ok(spec):
    """unions without members that typing would merge"""
    for n, _, _ in places(spec):
        if n['k'] in ('union', 'optional'):
            ms = [json.dumps([m['k'], m.get('t'), m.get('c')]) for m in n['m']]
            if len(set(ms)) < len(ms) or any(m['k'] in ('union', 'optional', 'self', 'none', 'lit', 'newtype') for m in n['m']):
                if not all(m.get('toks') and any(t[0] in ('co', 'va', 'as') for t in m['toks']) for m in n['m'] if m['k'] != 'lit'):
                    return False
                if any(m['k'] in ('none', 'self', 'union', 'optional') for m in n['m']):
                    return False
    return True


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.5) if rng.random() < 0.7 else Gen(rng)
    g.o['depth'] = rng.choice([1, 2, 2, 3])
    nb = rng.choice([0, 1, 1, 2])
    for k in range(nb):
        g.cls(f'A{k}', p_post=0, p_parsers=0, p_pre=0.3, p_default=0.3, p_inherit=0.5)
    old = sorted(g.specs)
    classes = [g.specs[c] for c in old]
    nt = rng.choice([1, 1, 1, 2, 3])
    threads = [[] for _ in range(nt)]
    defs = []
    mine = {t: [] for t in range(nt)}
    share = 0
    for j in range(rng.choice([2, 3, 5, 8]) if nt == 1 else nt * rng.choice([1, 1, 2])):
        t = j % nt
        name = f'D{j}'
        specs = {n: g.specs[n] for n in old + mine[t]}
        bases = []
        if specs and g.p(0.5):
            bases = [g.ch(sorted(specs))]
        for _ in range(12):
            keep = dict(g.specs)
            for n in list(g.specs):
                if n not in specs:
                    del g.specs[n]
            g.specs.pop(name, None)
            spec = g.cls(name, bases=list(bases), p_post=0, p_parsers=0, p_pre=0.3, p_default=0.3, no_self=g.p(0.7),
                         n_fields=rng.choice([1, 1, 2, 3]))
            g.specs = keep
            spec = json.loads(json.dumps(spec))
            for f in spec['fields']:
                f.pop('default', None) if g.p(0.7) else None
            # a declaration of before with other objects or another class
            if defs and g.p(0.3):
                src = g.ch(defs)['spec']
                if src['fields']:
                    f = json.loads(json.dumps(g.ch(src['fields'])))
                    orig = next(x for x in src['fields'] if x['name'] == f['name'])
                    if g.p(0.6) and f['node']['k'] != 'self':
                        if 'share' not in orig['node']:
                            orig['node']['share'] = f'N{share}'
                            share += 1
                        f['node'] = json.loads(json.dumps(orig['node']))
                    f.pop('default', None)
                    f.pop('final', None)
                    if f['node']['k'] != 'self' and spec['fields'] and f['name'] not in [x['name'] for x in spec['fields']]:
                        spec['fields'].append(f)
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
                how = g.ch(EDITS)
                g.prefix = name
                edit(g, spec, specs, how)
            # (a shared hint means one object, so it must not be edited)
            shared = [n for n, _, _ in places(spec) if 'share' in n]
            for n in shared:
                same = [m for x in defs for m, _, _ in places(x['spec']) if m.get('share') == n['share']]
                if any(json.dumps(m, sort_keys=True) != json.dumps(n, sort_keys=True) for m in same):
                    del n['share']
            if not unions_ok(spec):
                continue
            try:
                why = Reader({**specs, name: spec}, spec).read()
            except U.Invalid:
                continue
            break
        else:
            continue
        g.specs[name] = spec
        item = {'spec': spec, 'fills': []}
        if not why and '"tvar"' not in json.dumps(spec) and g.p(0.6):
            for _ in range(rng.choice([1, 2])):
                try:
                    item['fills'].append(fillcheck.gen_op(g, name, faults=0.2))
                except (KeyError, IndexError, TypeError, ValueError):
                    break
        if g.p(0.35):
            spec['pre_hook'] = g.cbid('pre_bind')
            if g.p(0.5):
                item['faults'] = [{'cb': spec['pre_hook'], 'act': ['raise', g.ch(U.ORDINARY)] if g.p(0.6) else
                                   ['raiseB', g.ch(sorted(U.BASE))]}]
                item['again'] = g.ch([1, 1, 2])
        if g.p(0.2):
            item['intr'] = [g.ch(sorted(U.BASE)), g.ch([1, 3, 8, 20, 40, 60, 90, 130, 200])]
            item['again'] = g.ch([1, 1, 2])
        elif why and g.p(0.4):
            item['again'] = g.ch([1, 1, 2])
        if not why:
            mine[t].append(name)
        defs.append(item)
        threads[t].append(len(defs) - 1)
    return {'classes': classes, 'defs': defs, 'threads': [t for t in threads if t] or [[]],
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.4)}}


# ------------------------------------------------------------ execution
def run(scn):
    world = opgen.build(scn)
    opc = bool(scn['sched']['op'])
    got = []

    def step(j, sim):
        item = scn['defs'][j]
        spec = item['spec']
        for a in range(1 + item.get('again', 0)):
            missing = [b for b in spec.get('bases', ()) if b not in world.classes and b not in W.MIXINS]
            if missing:
                return  # (a parent that could not be defined)
            ctx = Ctx(sim, item.get('faults', ()) if a == 0 else ())
            if item.get('intr') and a == 0:
                ctx.interrupt_name, ctx.interrupt_at = item['intr']
            if a == 0 or item.get('afresh'):
                try:
                    ns = world.namespace(spec)
                except KeyError:
                    return  # (a class of a hint could not be defined)
            TL.ctx = ctx
            cls = exc = None
            bases, body, kw = ns
            try:
                if sim is not None or ctx.interrupt_at:
                    with sched.traced(ctx, opc):
                        cls = world.finish(spec, bases, dict(body), kw)
                else:
                    cls = world.finish(spec, bases, dict(body), kw)
            except (U.Invalid, sched.SimAbort):
                raise
            except BaseException as e:
                exc = e
                e.__traceback__ = None
            TL.ctx = None
            got.append((j, a, ctx, cls, exc))
            if cls is not None:
                world.register(spec, cls)
                return

    threads = scn['threads']
    trace = None
    s = {'definitions': 0, 'refused': 0, 'accepted': 0, 'steps': 0}
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], {t: 1 + 80 * len(x) for t, x in enumerate(threads)}))
        sim.run([(lambda x=x: [step(j, sim) for j in x]) for x in threads])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for j in threads[0]:
            step(j, None)
    det = {'schedule': trace} if trace else {}
    eventful = len(threads) > 1
    sigs = []
    specs = {x['name']: x for x in scn['classes']}
    specs.update({d['spec']['name']: d['spec'] for d in scn['defs']})
    for j, a, ctx, cls, exc in sorted(got, key=lambda x: x[:2]):
        spec = scn['defs'][j]['spec']
        why = Reader(specs, spec).read()
        must = [w for w in why if not w.startswith('may:')]
        disturbed = ctx.interrupt_exc is not None or bool(ctx.fired)
        s['definitions'] += 1
        for f in ctx.fired:
            s['fault:hook-' + f[1]] = s.get('fault:hook-' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        if cls is not None:
            s['accepted'] += 1
            if must:
                raise Viol('accepted', f'{short(spec, 900)} defines a class although it cannot be honoured: {"; ".join(must)} (attempt {a + 1})', **det)
        else:
            eventful = True
            s['refused'] += 1
            for w in must[:1]:
                w = 'why:' + ' '.join(x for x in w.split() if x.isalpha() and len(x) > 1 and x not in ORD)[:40]
                s[w] = s.get(w, 0) + 1
            if not isinstance(exc, Exception) and not disturbed:
                raise Viol('escaped', f'{short(spec, 900)} fails with {type(exc).__name__}', **det)
            if not why and not disturbed:
                raise Viol('refused', f'{short(spec, 900)} has nothing contradictory but fails with {type(exc).__name__}({exc}) '
                                      f'(attempt {a + 1})', **det)
        sigs.append(zlib.crc32(json.dumps([spec, why, cls is not None, ctx.fired]).encode()))
    for j, a, ctx, cls, exc in got:
        if cls is None or Reader(specs, scn['defs'][j]['spec']).read():
            continue
        for op in scn['defs'][j]['fills']:
            use(world, op, s, det)
    return {'nontrivial': eventful, 'sum': s, 'sigs': sigs, 'states': [zlib.crc32(json.dumps(trace['sw']).encode())] if trace else [],
            'sample': len(threads) > 1}


def use(world, op, s, det):
    objs = {f: dec(v, world) for f, v in op['kw'].items()}
    ctx = Ctx(None, op.get('faults', ()))
    ctx.keep = []
    TL.ctx = ctx
    res = exc = None
    try:
        res = fillcheck.construct(world, op, objs)
    except U.Invalid:
        raise
    except BaseException as e:
        exc = e
    TL.ctx = None
    s['uses'] = s.get('uses', 0) + 1
    try:
        fillcheck.check_one(world, op, ctx, res, exc, objs, s)
    except Viol as v:
        raise Viol('use-' + v.kind, v.msg, **{**v.detail, **det})
