"""Shared by C20 and C21: small worlds of fields with built-in tokens, filled over histories, under faults and schedules, and
judged one by one with references written from the documentation.

The property module gives ``token(t, ctx)`` (the token object), ``is_coercer(t)``, ``coerce(t, origin, v)`` and
``validate(t, want)`` (references working on Want objects; both raise where the token must refuse).
"""
import json
import re
import typing
import zlib

from dst import ops, sched, world as W
from dst import userland as U
from dst.common import Viol, HarnessError, short, norm
from dst.fillcheck import construct
from dst.userland import Ctx, TL, canon, dec

T = U.TYPES
NESTED = {'list', 'dict', 'tupv', 'tup2', 'opt', 'set', 'optlist', 'dictlist', 'union'}


class Want:
    """what a filled value must be: ``ok(r)`` decides (None or a complaint); ``value`` is one right value"""

    def __init__(self, value, ok=None, arg=False, maybe=False):
        self.value = value
        self.maybe = maybe  # refusing is right too
        self.arg = arg  # it is the argument itself
        self.ok = ok or (lambda r: None if same(r, value) else f'must be {short(canon(value))}')


def same(a, b):
    return norm(canon(a)) == norm(canon(b))


class Refuse(Exception):
    def __init__(self, excs):
        self.excs = excs


class Mini:
    def __init__(self, mod, scn):
        self.mod = mod
        self.scn = scn
        self.toks = {}
        self.classes = {}
        self.specs = {}
        self.errs = []

    def dump(self):
        return [self.scn['classes'], self.scn['toks']]

    def tok(self, k):
        if k not in self.toks:
            if k not in self.scn['toks']:
                raise U.Invalid('no such token')
            self.toks[k] = self.mod.token(self.scn['toks'][k], self)
        return self.toks[k]

    def hint(self, f):
        R = W.load()
        toks = [self.tok(k) for k in f['toks']]
        if f.get('style'):
            st = W.style_of(f['style'])
            toks.insert(f.get('stylepos', 0) % (len(toks) + 1), st)
        base = typing.Any if f['t'] == 'Any' else T[f['t']]
        h = R.Annotated[(base, *toks)] if toks else base
        s = f['shape']
        if s == 'plain':
            return h
        if s == 'list':
            return typing.List[h]
        if s == 'dict':
            return typing.Dict[str, h]
        if s == 'tupv':
            return typing.Tuple[h, ...]
        if s == 'tup2':
            return typing.Tuple[h, h]
        if s == 'set':
            return typing.Set[h]
        if s == 'opt':
            return typing.Optional[h]
        if s == 'optlist':
            return typing.Optional[typing.List[h]]
        if s == 'dictlist':
            return typing.Dict[str, typing.List[h]]
        if s == 'union':
            return typing.Union[h, T[f['t2']]]
        raise U.Invalid(s)

    def build(self):
        for spec in self.scn['classes']:
            ann, ns = {}, {}
            for f in spec['fields']:
                if f['shape'] == 'union' and f['t2'] == f['t']:
                    raise U.Invalid('union of one type')
                ann[f['name']] = self.hint(f)
                if f.get('opt'):
                    ns[f['name']] = None
            ns.update({'__module__': 'dstw', '__qualname__': spec['name'], '__annotations__': ann})
            bases = tuple(self.classes[b] for b in spec.get('bases', ()) if b in self.classes) or (W.load().RecordBase,)
            kw = {'default_type_check': W.style_of(spec['style'])}
            for k in ('frozen', 'ordered'):
                if spec.get(k):
                    kw[k] = True
            if spec.get('unary') is not None:
                kw['unary_parse'] = bool(spec['unary'])
            import types
            cls = types.new_class(spec['name'], bases, kw, lambda b: b.update(ns))
            self.classes[spec['name']] = cls
            self.specs[spec['name']] = spec
            U.REG[cls] = tuple(self.fields_of(spec['name']))
        return self

    def fields_of(self, c):
        out = {}
        for b in self.specs[c].get('bases', ()):
            if b in self.specs:
                out.update(self.fields_of(b))
        for f in self.specs[c]['fields']:
            out[f['name']] = (f, self.specs[c]['style'])
        return out

    # ------------------------------------------------------------ the reference
    def elem(self, f, cstyle, v, only=False):
        mod = self.mod
        toks = [self.scn['toks'][k] for k in f['toks']]
        style = f.get('style') or cstyle
        t = object if f['t'] == 'Any' else T[f['t']]

        def match(x):
            return type(x) is t or style == 'check' and isinstance(x, t)

        want = Want(v, arg=True)
        cos = [x for x in toks if mod.is_coercer(x)]
        if style != 'hollow' and not match(v):
            errs = []
            want = None
            found = []
            for c in cos:
                try:
                    w = mod.coerce(c, t, v)
                except Refuse as e:
                    errs += e.excs
                    continue
                except Exception as e:
                    errs.append(e)
                    continue
                if match(w.value):
                    want = want or w
                    found.append(w)
                    if not only:
                        break
                    continue
                errs.append(TypeError('wrong type'))
            if want is None:
                raise Refuse(errs or [TypeError('wrong type')])
            if len(found) > 1:
                # (one that user code made fail leaves the argument to the others)
                want = Want(want.value, lambda r: None if any(w.ok(r) is None for w in found) else found[0].ok(r))
            want.maybe = want.maybe or bool(only) and len(cos) > 1
        for x in toks:
            if not mod.is_coercer(x):
                try:
                    want = mod.validate(x, want)
                except Refuse:
                    raise
                except Exception as e:
                    raise Refuse([e])
        return want

    def want(self, f, cstyle, v, only=False):
        """a tree of Wants for the whole field"""
        s = f['shape']

        def e(x):
            return self.elem(f, cstyle, x, only)

        def need(x, t):
            if not (type(x) is t or cstyle == 'check' and isinstance(x, t)):
                raise Refuse([TypeError('container')])

        if s == 'plain':
            return e(v)
        if s in ('opt', 'optlist') and v is None:
            return Want(None)
        if s == 'opt':
            try:
                return e(v)
            except Refuse as r:
                raise Refuse(r.excs + [TypeError('not None')])
        if s == 'union':
            t2 = T[f['t2']]
            first = second = bad = None
            try:
                first = e(v)
            except Refuse as r:
                bad = r
            if type(v) is t2 or cstyle == 'check' and isinstance(v, t2):
                second = Want(v, arg=True)
            t = T[f['t']]

            def rank(tt, done):
                return 9 if done is None else 0 if type(v) is tt else 1 if isinstance(v, tt) and (f.get('style') or cstyle) == 'check' else 2
            a, b = rank(t, first), rank(t2, second)
            if a == b == 9:
                raise Refuse(bad.excs + [TypeError('other member')])
            if a == b:
                raise U.Invalid('ambiguous')
            return first if a < b else second
        if s == 'optlist':
            try:
                return self.want({**f, 'shape': 'list'}, cstyle, v, only)
            except Refuse as r:
                raise Refuse(r.excs + [TypeError('not None')])
        if s == 'list':
            need(v, list)
            return ['list', [e(x) for x in v]]
        if s == 'set':
            need(v, set)
            return ['set', [e(x) for x in v]]
        if s == 'tupv':
            need(v, tuple)
            return ['tuple', [e(x) for x in v]]
        if s == 'tup2':
            need(v, tuple)
            if len(v) != 2:
                raise Refuse([ValueError('length')])
            return ['tuple', [e(x) for x in v]]
        if s == 'dict':
            need(v, dict)
            for k in v:
                if type(k) is not str:
                    raise Refuse([TypeError('key')])
            return ['dict', list(v), [e(x) for x in v.values()]]
        if s == 'dictlist':
            need(v, dict)
            for k, x in v.items():
                if type(k) is not str:
                    raise Refuse([TypeError('key')])
                need(x, list)
            return ['dict', list(v), [['list', [e(y) for y in x]] for x in v.values()]]
        raise U.Invalid(s)


def fits(w, r, v):
    """complaint about the result r, or None; v: the argument"""
    if isinstance(w, Want):
        c = w.ok(r)
        if c is None and w.arg and w.value is v and r is not v:
            return 'must be the argument itself'
        return c
    if w[0] == 'dict':
        if not isinstance(r, dict) or list(r) != w[1]:
            return f'must be a dict with keys {w[1]}'
        for k, x in zip(w[1], w[2]):
            c = fits(x, r[k], v[k] if isinstance(v, dict) and k in v else None)
            if c:
                return f'at {k!r}: {c}'
        return None
    if not isinstance(r, T[w[0]]):
        return f'must be a {w[0]}'
    if w[0] == 'set':
        def hit(x, y):  # (of equal elements any may remain)
            return x.ok(y) is None or x.value == y
        if len(r) > len(w[1]) or not all(any(hit(x, y) for x in w[1]) for y in r) or not all(any(hit(x, y) for y in r) for x in w[1]):
            return f'must contain {short(canon([x.value for x in w[1]]))}'
        return None
    if len(r) != len(w[1]):
        return f'must have {len(w[1])} elements'
    vs = list(v) if isinstance(v, (list, tuple)) and len(v) == len(r) else [None] * len(r)
    for k, (x, y, z) in enumerate(zip(w[1], r, vs)):
        c = fits(x, y, z)
        if c:
            return f'at {k}: {c}'
    return None


def leaves(w):
    if isinstance(w, Want):
        return [w]
    return [y for x in w[-1] for y in leaves(x)]


def causes(e):
    seen = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is y for y in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
        if isinstance(x, BaseExceptionGroup):
            todo += x.exceptions
    return seen


def judge(mini, op, ctx, res, exc, objs, stats):
    mod = mini.mod
    cls = mini.classes[op['c']]
    fields = mini.fields_of(op['c'])
    wants, refused = {}, {}
    notes = []
    mod.notes = notes
    for f, v in objs.items():
        if f not in fields:
            raise U.Invalid('no such field')
        fd, st = fields[f]
        try:
            wants[f] = mini.want(fd, st, v, bool(ctx.injected))
            stats['accepted'] = stats.get('accepted', 0) + 1
        except Refuse as r:
            refused[f] = r
            stats['refused'] = stats.get('refused', 0) + 1
    me = f"{short(op)} of class {op['c']} {short(mini.dump(), 900)}"

    def about(f):
        return f'field {f} ({short(fields[f][0])}) given {short(canon(objs[f]))}'

    missing = [f for f, (fd, _) in fields.items() if not fd.get('opt') and f not in objs]
    if exc is None:
        for f, r in refused.items():
            raise Viol('accepted', f'{about(f)} must be refused ({r.excs[-1]!r}) but the record holds '
                                   f'{short(canon(getattr(res, f, None)))}; {me}')
        if missing:
            raise Viol('missing', f'required {missing} missing; {me}')
        if type(res) is not cls:
            raise Viol('class', f'construction gave {short(canon(res))}; {me}')
        for f in objs:
            got = getattr(res, f)
            c = fits(wants[f], got, objs[f])
            if c is not None:
                raise Viol('value', f'{about(f)} holds {short(canon(got))}: {c}; {me}')
        if not ctx.injected and hasattr(mod, 'check_notes') and ctx.interrupt_exc is None:
            mod.check_notes(notes, ctx, me)
        return 'ok'
    if ctx.interrupt_exc is not None:
        return 'interrupted'
    if not isinstance(exc, Exception):
        raise Viol('escaped', f'{type(exc).__name__} came out of {me}')
    if missing or any(x.maybe for w in wants.values() for x in leaves(w)):
        return 'failed'
    chain = causes(exc)
    if ctx.injected and any(x is y for x in chain for y in ctx.injected):
        return 'failed'
    if ctx.injected and any(fields[f][0]['shape'] in ('opt', 'optlist', 'union') and f in str(exc) for f in objs):
        return 'failed'  # (no member matched, the error may be that of another member)
    if ctx.injected and any(len([k for k in fields[f][0]['toks'] if mod.is_coercer(mini.scn['toks'][k])]) > 1 and f in str(exc) for f in objs):
        return 'failed'  # (the other coercers refused)
    if not refused:
        if ctx.injected:
            raise Viol('error-lost', f'{type(exc).__name__}({exc}) (cause {exc.__cause__!r}) does not come from the failure of user code '
                                     f'({ctx.injected[0]!r}); {me}')
        raise Viol('refused', f'{type(exc).__name__}({exc}) (cause {exc.__cause__!r}) but every field accepts its argument: {me}')
    named = [f for f in refused if re.search(r'(?<![A-Za-z0-9_])' + re.escape(f) + r'(?![A-Za-z0-9_])', str(exc))]
    if not named:
        raise Viol('unnamed', f'{type(exc).__name__}({exc}) names none of the failing fields {sorted(refused)}; {me}')
    if exc.__cause__ is None:
        raise Viol('no-cause', f'{type(exc).__name__}({exc}) has no cause; {me}')
    if not any(hasattr(x, 'dst_exact') for f in named for x in refused[f].excs):
        return 'failed'
    if not any(type(exc.__cause__) is type(x) for f in named for x in refused[f].excs):
        raise Viol('error', f'the cause is {exc.__cause__!r}, must be {refused[named[0]].excs[-1]!r}; {me}')
    return 'failed'


def run(mod, scn):
    mini = Mini(mod, scn).build()
    stats = {'ops': 0, 'steps': 0}
    if hasattr(mod, 'start'):
        mod.start()
    threads = scn['threads']
    opc = bool(scn['sched']['op'])
    done = {}

    def one(t, k, op, sim):
        if 'tok' in op:
            ctx = Ctx(sim, op.get('faults', ()))
            TL.ctx = ctx
            exc = None
            try:
                mod.token(op['tok'], mini)
            except (U.Invalid, sched.SimAbort):
                raise
            except BaseException as e:
                exc = e
            TL.ctx = None
            done[t, k] = (op, ctx, None, exc, None)
            return
        objs = {f: dec(v) for f, v in op['kw'].items()}
        ctx = Ctx(sim, op.get('faults', ()))
        if op.get('intr'):
            ctx.interrupt_name, ctx.interrupt_at = op['intr']
        TL.ctx = ctx
        res = exc = None
        try:
            if sim is not None or op.get('intr'):
                with sched.traced(ctx, opc):
                    res = construct(mini, op, objs)
            else:
                res = construct(mini, op, objs)
        except (U.Invalid, sched.SimAbort):
            raise
        except BaseException as e:
            exc = e
        TL.ctx = None
        for v in objs.values():
            if type(v) is U.Once:
                v.reusable = True
        done[t, k] = (op, ctx, res, exc, objs)

    trace = None
    if len(threads) > 1:
        lengths = {t: 60 * len(o) for t, o in enumerate(threads)}
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], lengths))
        sim.run([(lambda t=t, o=o: [one(t, k, op, sim) for k, op in enumerate(o)]) for t, o in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        stats['steps'] += sim.step
        stats['switches'] = len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None)
    sigs = []
    eventful = len(threads) > 1
    for (t, k), (op, ctx, res, exc, objs) in sorted(done.items()):
        stats['ops'] += 1
        stats['steps'] += ctx.steps if len(threads) == 1 else 0
        for f in ctx.fired:
            stats['fault:' + f[1]] = stats.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            stats['fault:interrupt'] = stats.get('fault:interrupt', 0) + 1
        try:
            r = mod.judge_token(mini, op, ctx, exc) if 'tok' in op else judge(mini, op, ctx, res, exc, objs, stats)
        except Viol as v:
            if trace:
                v.detail['schedule'] = trace
            raise
        stats[r] = stats.get(r, 0) + 1
        if exc is not None:
            eventful = True
        sigs.append(zlib.crc32(json.dumps([[f for f in op.get('kw', {})], op, r, ctx.fired]).encode()))
    if hasattr(mod, 'finish'):
        mod.finish(trace)
    return {'nontrivial': eventful, 'sum': stats, 'sigs': sigs,
            'states': [zlib.crc32(json.dumps(trace['sw']).encode())] if trace else [],
            'sample': eventful and len(threads) > 1}


# ---------------------------------------------------------------- generation
def gen_classes(rng, n, field, style=None):
    """``field(style)`` makes one field spec without a name"""
    out = []
    for k in range(n):
        st = style or rng.choice(['check', 'check', 'strict', 'hollow'])
        bases = []
        if out and rng.random() < 0.35:
            bases = [rng.choice(out)['name']]
        fs = []
        for j in range(rng.choice([1, 2, 2, 3, 4])):
            f = field(st)
            f['name'] = 'abcdefg'[j] + str(k)
            if rng.random() < 0.15 and f['shape'] not in ('opt', 'optlist'):
                f['opt'] = 1
            fs.append(f)
        out.append({'name': f'M{k}', 'bases': bases, 'style': st, 'frozen': rng.random() < 0.5, 'fields': fs})
    return out


def all_fields(classes, c):
    spec = next(x for x in classes if x['name'] == c)
    out = []
    for b in spec['bases']:
        out += all_fields(classes, b)
    return out + spec['fields']


def wrap(rng, f, value):
    """a value for the whole field from element values"""
    s = f['shape']
    n = rng.choice([0, 1, 1, 2, 2, 3])
    if s in ('plain', 'union'):
        return value()
    if s in ('opt', 'optlist') and rng.random() < 0.15:
        return ['n']
    if s == 'opt':
        return value()
    if s in ('list', 'optlist'):
        return ['l', [value() for _ in range(n)]]
    if s == 'set':
        return ['S', [value() for _ in range(n)]]
    if s == 'tupv':
        return ['t', [value() for _ in range(n)]]
    if s == 'tup2':
        return ['t', [value(), value()]]
    if s == 'dict':
        return ['d', [[['s', f'k{i}'], value()] for i in range(n)]]
    if s == 'dictlist':
        return ['d', [[['s', f'k{i}'], ['l', [value() for _ in range(rng.choice([0, 1, 2]))]]] for i in range(n)]]
    raise U.Invalid(s)


ENTRIES = ['new', 'new', 'new', 'from_mapping', 'from_instance', 'mapping_kw', 'select', 'arg']


def gen_op(rng, classes, value, faults, intr=0.1):
    c = rng.choice(classes)['name']
    fs = all_fields(classes, c)
    kw = {}
    for f in fs:
        if not f.get('opt') or rng.random() < 0.6:
            kw[f['name']] = wrap(rng, f, lambda: value(f))
    op = {'o': rng.choice(ENTRIES), 'c': c, 'kw': kw}
    req = [f['name'] for f in fs if not f.get('opt')]
    if op['o'] == 'arg':
        if len(req) == 1 and req[0] in kw:
            op['pos'] = req[0]
        else:
            op['o'] = 'new'
    if op['o'] == 'from_instance' and any(f.get('opt') for f in fs) or op['o'] == 'mapping_kw' and not kw:
        op['o'] = 'from_mapping'
    fl = faults(rng)
    if fl:
        op['faults'] = fl
    if rng.random() < intr:
        op['intr'] = [rng.choice(sorted(U.BASE)), rng.choice([1, 2, 3, 5, 8, 13, 20, 30, 45, 70])]
    return op


def gen_threads(rng, make):
    conc = rng.random() < 0.25
    threads = []
    for _ in range(rng.choice([2, 2, 3]) if conc else 1):
        threads.append([make() for _ in range(rng.choice([1, 2, 3]) if conc else rng.choice([4, 8, 12]))])
    return {'threads': threads, 'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.4)}}
