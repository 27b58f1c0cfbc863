"""Operations of the public API, given as JSON, and the description of their outcomes."""
import copy
import json
import pickle
import re
import sys

from dst import userland as U
from dst.userland import TL, canon, dec, Invalid, Ctx
from dst.world import load, select_kwargs
from dst.sched import traced, StepLimit, SimAbort

ADDR = re.compile(r'0x[0-9a-f]+')


class SimText:
    """a text stream: falsy while empty, a scheduling point per call, can fail at the n-th call"""

    def __init__(self, text='', fail_at=None, exc='OSError'):
        self.text = text
        self.parts = []
        self.calls = 0
        self.fail_at = fail_at
        self.exc = exc

    def __len__(self):
        return len(self.parts)

    def _call(self):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.point(('io',))
        self.calls += 1
        if self.calls == self.fail_at:
            e = U.make_exc(self.exc)
            if ctx is not None:
                if self.exc in U.BASE:
                    ctx.interrupt_exc = e
                ctx.injected.append(e)
                ctx.fired.append(['io', 'raise', self.exc])
            raise e

    def write(self, s):
        self._call()
        self.parts.append(s)
        return len(s)

    def read(self, *n):
        self._call()
        t, self.text = self.text, '' if isinstance(self.text, str) else b''
        return t

    def value(self):
        return ''.join(self.parts)


class SimBytes(SimText):
    def read(self, n=-1):
        self._call()
        if n is None or n < 0:
            n = len(self.text)
        t, self.text = self.text[:n], self.text[n:]
        return t

    def readline(self):
        self._call()
        i = self.text.find(b'\n')
        n = len(self.text) if i < 0 else i + 1
        t, self.text = self.text[:n], self.text[n:]
        return t

    def value(self):
        return b''.join(bytes(p) for p in self.parts)


def describe_exc(e, depth=0):
    msg = ADDR.sub('0x', str(e))
    out = {'t': type(e).__name__, 'm': msg}
    if depth < 3 and e.__cause__ is not None:
        out['c'] = describe_exc(e.__cause__, depth + 1)
    return out


def resolve(world, x):
    v = dec(x, world)
    if world.notes is not None:
        world.notes.append(v)
    return v


def sel_apply(world, bound, sel):
    """derive a bound factory/exporter with a chain of selections"""
    for s in sel or ():
        if 'use' in s:
            idx = s['use'] if isinstance(s['use'], list) else [s['use']]
            if any(i >= len(world.selects) for i in idx):
                raise Invalid('no such select')
            bound = bound.select(*[world.selects[i] for i in idx], **select_kwargs(s.get('kw', {}), world))
        elif 'kw' in s:
            bound = bound.select(**select_kwargs(s['kw'], world))
        elif 'export' in s:
            bound = bound.export_with(**export_kw(world, s['export']))
    return bound


WHITELIST = {'one': lambda v: v[0], 'sub': lambda v: U.StrSub(v[0]), 'set': set, 'list': list, 'fset': frozenset, 'tuple': tuple,
             'dict': dict.fromkeys, 'keys': lambda v: dict.fromkeys(v).keys()}


def export_kw(world, ex):
    out = {}
    for k, v in (ex or {}).items():
        if k == 'sort':
            out['sort'] = U.Callback(v[1], 'sortkey', v[2]) if isinstance(v, list) else v
        elif k == 'blacklist':
            tags = [world.tag(t) for t in v[1]]
            out['blacklist_tags'] = tags[0] if v[0] == 'one' else (
                set(tags) if v[0] == 'set' else frozenset(tags))
        elif k == 'whitelist':
            out['whitelist_keys'] = WHITELIST[v[0]](v[1])
        else:
            out[k] = v
    if world.notes is not None:
        world.notes.extend(out.values())
    return out


def get_cls(world, name):
    if name not in world.classes:
        raise Invalid(f'no class {name}')
    return world.classes[name]


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def build_handle(world, h):
    owner = get_cls(world, h['c']) if 'c' in h else resolve(world, h['r'])
    return sel_apply(world, getattr(owner, h['what']), h.get('steps'))


def mutate_value(v, how, to):
    """change a value of the user in place: at its end, to nothing, or to the content of ``to``"""
    if isinstance(v, list):
        if how == 'set' and isinstance(to, list):
            v[:] = to
        elif how == 'less':
            del v[-1:]
        elif how != 'set':
            v.append(0)
    elif type(v) is dict:
        if how == 'set' and isinstance(to, dict):
            v.clear()
            v.update(to)
        elif how == 'less':
            v.pop(next(iter(v), None), None)
        elif how != 'set':
            v['more'] = 0
    elif isinstance(v, U.Box):
        v.k = to.k if how == 'set' and isinstance(to, U.Box) else 0 if how == 'less' else 5


def field_op(world, op):
    """what the field objects of a class tell"""
    cls = get_cls(world, op['c'])
    what = op['what']
    if what == 'names':
        return [list(cls._fields), type(cls._fields).__name__, [getattr(cls, n, None) is f for n, f in cls._fields.items()]]
    if what == 'tagged':
        found = cls._fields
        for t in op['ts']:
            found = found.filter_by_tag(world.fresh_tag(t) if op.get('fresh') else world.tag(t))
        out = [type(found).__name__, [[n, f is cls._fields.get(n)] for n, f in found.items()]]
        if op['ts'] and op.get('clear'):
            found.clear()
        return out
    f = getattr(cls, op['n']) if op.get('attr') else cls._fields[op['n']]
    if what == 'facts':
        return [f.name, f.owner, f.has_default, {t: (world.fresh_tag(t) if op.get('fresh') else world.tag(t)) in f.tags for t in op['ts']},
                len(f.tags)]
    if what == 'is_default':
        return f.is_default(resolve(world, op['v']))
    if what == 'make_default':
        before = len(TL.ctx.log)
        v = f.make_default()
        return ['made', v, TL.ctx.log[before:]]
    raise Invalid(what)


def raw(world, op):
    """execute the operation on the code under test and return the raw result"""
    o = op['o']
    if o == 'new':
        cls = get_cls(world, op['c'])
        kw = {k: resolve(world, v) for k, v in op.get('kw', {}).items()}
        if op.get('arg') is not None:
            return cls(resolve(world, op['arg']), **kw)
        return cls(**kw)
    if o == 'parse':
        return get_cls(world, op['c']).parse(resolve(world, op['v']))
    if o == 'parser':
        return sel_apply(world, getattr(get_cls(world, op['c']), op['n']), op.get('sel'))(resolve(world, op['v']))
    if o in ('from_mapping', 'from_instance'):
        f = sel_apply(world, getattr(get_cls(world, op['c']), o), op.get('sel'))
        args = [resolve(world, v) for v in op['a']]
        return f(*args, **{k: resolve(world, v) for k, v in op.get('kw', {}).items()})
    if o == 'from_json':
        return sel_apply(world, get_cls(world, op['c']).from_json, op.get('sel'))(resolve(world, op['v']))
    if o == 'from_json_io':
        st = SimText(resolve(world, op['v']), op.get('fail_at'), op.get('exc', 'OSError'))
        return sel_apply(world, get_cls(world, op['c']).from_json_io, op.get('sel'))(st)
    if o == 'pickle_rt':
        r = resolve(world, op['r'])
        cls = get_cls(world, op['c'])
        if op.get('io'):
            st = SimBytes(b'', op.get('fail_at'), op.get('exc', 'OSError'))
            ret = r.to_pickle(op.get('proto', 4), io=st)
            if ret is not None:
                return ['returned', ret]
            return cls.from_pickle_io(SimBytes(st.value()))
        return cls.from_pickle(r.to_pickle(op.get('proto', 4)))
    if o == 'from_pickle_obj':
        return get_cls(world, op['c']).from_pickle(pickle.dumps(resolve(world, op['v'])))
    if o in ('to_dict', 'to_json'):
        r = resolve(world, op['r'])
        ex = export_kw(world, op.get('ex'))
        how = op.get('how', 'inst')
        owner = type(r) if how == 'cls' else r
        if op.get('via'):
            owner = get_cls(world, op['via'])
            how = 'cls'
        f = sel_apply(world, getattr(owner, o), op.get('sel'))
        pos = (r,) if how == 'cls' else ()
        if o == 'to_dict':
            if op.get('ew'):
                return f.export_with(**ex)(*pos)
            return f(*pos, **ex)
        if ex:
            f = f.export_with(**ex)
        jkw = dict(op.get('jkw', {}))
        if op.get('io'):
            st = SimText('', op.get('fail_at'), op.get('exc', 'OSError'))
            ret = f(*pos, io=st, **jkw)
            return ['stream', ret, st.value()]
        return f(*pos, **jkw)
    if o in CMP:
        return CMP[o](resolve(world, op['a']), resolve(world, op['b']))
    if o == 'hash':
        return hash(resolve(world, op['r']))
    if o == 'repr':
        r = resolve(world, op['r'])
        if 'ex' in op:
            return ADDR.sub('0x', r.__repr__(**export_kw(world, op['ex'])))
        return ADDR.sub('0x', repr(r))
    if o == 'copy':
        r = resolve(world, op['r'])
        return r.__copy__() if op.get('direct') and hasattr(r, '__copy__') else copy.copy(r)
    if o == 'deepcopy':
        r = resolve(world, op['r'])
        return r.__deepcopy__() if op.get('direct') and type(r) in U.REG else copy.deepcopy(r)
    if o == 'getattr':
        return getattr(resolve(world, op['r']), op['n'])
    if o == 'setattr':
        setattr(resolve(world, op['r']), op['n'], resolve(world, op['v']))
        return None
    if o == 'mutval':
        mutate_value(getattr(resolve(world, op['r']), op['n']), op['how'], resolve(world, op['v']))
        return None
    if o == 'delattr':
        delattr(resolve(world, op['r']), op['n'])
        return None
    if o == 'inset':
        return resolve(world, op['a']) in {resolve(world, b) for b in op['bs']}
    if o == 'sel_call':
        if op['s'] >= len(world.selects):
            raise Invalid('no such select')
        # (calling a selection may modify its argument)
        return world.selects[op['s']](dec(op['m'], world))
    if o == 'sel_merge':
        if any(i >= len(world.selects) for i in op['ss']):
            raise Invalid('no such select')
        s0, *rest = [world.selects[i] for i in op['ss']]
        m = s0.merge(*rest, **select_kwargs(op.get('kw', {}), world)) if rest or op.get('kw') else s0
        return m(dec(op['m'], world))
    if o == 'sel_bool':
        return bool(world.selects[op['s']])
    if o == 'handle':
        if op['h'] >= len(world.handles):
            raise Invalid('no such handle')
        args = [resolve(world, v) for v in op.get('a', ())]
        f = world.handles[op['h']]
        if op.get('sel'):
            f = sel_apply(world, f, op['sel'])
        return f(*args)
    if o == 'tags':
        cls = get_cls(world, op['c'])
        return {k: f.name for k, f in cls._fields.filter_by_tag(world.tag(op['t'])).items()}
    if o == 'field':
        return field_op(world, op)
    if o == 'meta':
        cls = get_cls(world, op['c'])
        return [cls.is_frozen(), cls.default_type_check_style().name]
    if o == 'isinst':
        return isinstance(resolve(world, op['r']), get_cls(world, op['c']))
    if o == 'define':
        return world.define(op['spec']).__name__
    if o == 'define_use':
        cls = world.define(op['spec'])
        return cls(**{k: resolve(world, v) for k, v in op['kw'].items()})
    raise Invalid(f'bad op {o}')


def outcome(world, op, ctx, opcodes=False, trace=True):
    """run one operation under ``ctx``; returns its JSON outcome"""
    TL.ctx = ctx
    exc = None
    try:
        if trace:
            with traced(ctx, opcodes):
                val = raw(world, op)
        else:
            val = raw(world, op)
        sys.settrace(None)
    except (Invalid, SimAbort):
        sys.settrace(None)
        TL.ctx = None
        raise
    except BaseException as e:
        sys.settrace(None)
        exc = e
    TL.ctx = None
    out = finish(world, ctx, val if exc is None else None, exc)
    exc = None
    return out


def finish(world, ctx, val, exc):
    """the JSON outcome of an operation that ended"""
    if exc is not None:
        out = {'err': describe_exc(exc)}
        if isinstance(exc, (U.Hang, StepLimit)):
            out['hang'] = True
        if ctx.interrupt_exc is not None:
            out['same'] = exc is ctx.interrupt_exc
        elif ctx.injected:
            out['inj'] = exc is ctx.injected[-1]
        exc.__traceback__ = None
        return out
    res = canon(val)
    out = {'ok': res}
    for i, p in enumerate(world.pool):
        if val is p and type(val) in U.REG:
            out['is'] = i
    if ctx.interrupt_exc is not None:
        out['same'] = False
    return out


def outcome_inside(world, op, ctx):
    """run one operation in the middle of another one of this thread, leaving tracing as it is"""
    TL.ctx = ctx
    exc = val = None
    try:
        val = raw(world, op)
    except (Invalid, SimAbort):
        raise
    except BaseException as e:
        exc = e
    TL.ctx = None
    out = finish(world, ctx, val, exc)
    exc = None
    return out


def run_solo(world, op, opcodes=False, trace=True):
    """one operation, alone; returns (outcome, log, ctx)"""
    ctx = Ctx(None, op.get('faults', ()))
    ctx.interrupt_at = op.get('intr_at')
    ctx.interrupt_name = op.get('intr')
    out = outcome(world, op, ctx, opcodes, trace)
    return out, ctx.log, ctx


def run_solo_forked(world, op):
    """outcome of the operation in a fork, leaving this process as it was"""
    from dst.common import forked
    return forked(lambda: run_solo(world, op, trace=False)[0])
