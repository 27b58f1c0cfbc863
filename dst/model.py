"""Reference interpreter of field filling, written from the documentation: independent of the code under test.

``fill`` returns (value, kind) or raises Failure(types) where ``types`` are the acceptable kinds of the failure.
"""
import collections
import collections.abc
import inspect
import json
from ast import literal_eval
from collections import deque, defaultdict
from math import isclose
from numbers import Complex, Rational, Real, Integral

from dst import userland as U
from dst.userland import dec, apply_sem, Ctx, Callback, TL
from dst.world import PLAIN, BARE, ITER9

STRICT, SUBTYPE, COERCE, HOLLOW = range(4)
RANK = {STRICT: 'exact', SUBTYPE: 'subtype', COERCE: 'coerced', HOLLOW: 'unchecked'}


class Failure(Exception):
    """a failure of user code or of a check: ``exc`` is what the user sees as the cause, ``alts`` other acceptable ones"""

    def __init__(self, exc, alts=()):
        self.exc = exc
        self.alts = [exc] + [a for a in alts]


def flat(node):
    """a new type is its supertype, with the tokens of both"""
    while node['k'] == 'newtype':
        n = node['n']
        node = {**n, 'toks': list(n.get('toks', ())) + list(node.get('toks', ()))}
    return node


class Model:
    """fills values for one class world; user callbacks run under ``ctx`` (the same fault plan as the real run)"""

    def __init__(self, world, ctx):
        self.world = world
        self.ctx = ctx

    # user code ------------------------------------------------------------
    def cb(self, cbid, role, sem, v, extra=()):
        return self.ctx.callback(cbid, role, sem, v, extra)

    def coercer(self, tok, origin):
        if tok[0] == 'shared':
            tok = self.world.shared_spec.get(tok[1], tok[2])  # (its results are the same objects everywhere)
        k = tok[0]
        if k == 'co':
            extra = [dec(a) for a in tok[3]] if len(tok) > 3 else []
            return lambda v: self.cb(tok[1], 'coercer', tok[2], v, tuple(extra))
        if k == 'map':
            vm = {dec(a): dec(b) for a, b in tok[1]}
            fm = {dec(a): (cb, sem) for a, cb, sem in tok[2]}
            # the mapped values are the very objects of the token: canonical equality is enough here
            def m(v):
                if v in vm:
                    return vm[v]
                if v in fm:
                    return self.cb(fm[v][0], 'mapfactory', fm[v][1], None)
                raise TypeError
            return m
        if k == 'cm':
            extra = [dec(a) for a in tok[2]] if len(tok) > 2 else []
            return lambda v: getattr(origin, tok[1])(v, *extra)
        if k == 'compose':
            fs = [self.coercer(t, origin) for t in tok[1]][::-1]

            def comp(v):
                for f in fs:
                    v = f(v)
                return v
            return comp
        if k in ('loose', 'loosei'):
            cons = tuple(U.TYPES[x] for x in tok[1]) if len(tok) > 1 else None

            def loose(v):
                if cons is not None and not isinstance(v, cons):
                    raise TypeError
                return origin(v)
            return loose
        if k == 'lunpack':
            cons = [U.TYPES[x] for x in tok[1]] if len(tok) > 1 else None

            def unpack(v):
                if cons is not None:
                    v = tuple(v)
                    if len(v) != len(cons) or not all(isinstance(a, t) for a, t in zip(v, cons)):
                        raise TypeError
                return origin(*v)
            return unpack
        if k == 'lmap':
            return lambda v: origin(**v)
        if k == 'whole':
            def whole(v):
                if isinstance(v, Rational):
                    if v.denominator == 1:
                        return origin(v.numerator)
                elif isinstance(v, Real):
                    m = v % 1
                    if isclose(m, 0) or isclose(m, 1):
                        return origin(round(v))
                elif isinstance(v, Complex):
                    if v.imag == 0:
                        return whole(v.real)
                raise TypeError
            return whole
        if k == 'tobytes':
            def tob(v):
                if not isinstance(v, Integral):
                    raise TypeError
                return origin(v.to_bytes(tok[1], 'big'))
            return tob
        if k == 'fromint':
            def fi(v):
                if v == 0:
                    return False
                if v == 1:
                    return True
                raise TypeError
            return fi
        if k == 'falsish':
            def fa(v):
                if not v:
                    return origin()
                raise TypeError
            return fa
        if k == 'eval':
            ns = {x: {'P': U.P, 'len': len, 'int': int}[x] for x in tok[1] if x != '...'}
            if '...' in tok[1]:
                ns[origin.__name__] = origin
            if len(tok) > 2:
                ns['call'] = lambda v: self.cb(tok[2][0], 'evalcall', tok[2][1], v)

            def ev(v):
                if not isinstance(v, str):
                    raise TypeError
                try:
                    return eval(v, {'__builtins__': ns})
                except Exception as e:
                    raise TypeError from e
            return ev
        if k == 'leval':
            def le(v):
                while isinstance(v, str):
                    try:
                        v = literal_eval(v)
                    except ValueError:
                        raise TypeError
                return v
            return le
        return None

    def validator(self, tok):
        if tok[0] == 'shared':
            tok = self.world.shared_spec.get(tok[1], tok[2])  # (its results are the same objects everywhere)
        k = tok[0]
        if k == 'va':
            extra = [dec(a) for a in tok[3]] if len(tok) > 3 else []
            return lambda v: self.cb(tok[1], 'validator', tok[2], v, tuple(extra))
        if k == 'as':
            o = tok[3] if len(tok) > 3 else {}

            def asr(v):
                if not self.cb(tok[1], 'assert', tok[2], v):
                    err = o.get('err', 'validation failed')
                    warn = o.get('warn')
                    if warn:
                        exc = UserWarning(err) if isinstance(err, str) else U.EXC[err[0]]()
                        if warn == 'logger':
                            self.cb(tok[1] + '.log', 'logger', 'ident', str(exc))
                        else:
                            self.cb('warnings', 'warning', 'ident', [type(exc).__name__, str(exc)])
                    else:
                        raise ValueError(err) if isinstance(err, str) else U.EXC[err[0]]()
                return v
            return asr
        if k == 'clamp':
            return lambda v: min(max(v, dec(tok[1])), dec(tok[2]))
        if k == 'cyclic':
            def cyc(v):
                lo, hi = dec(tok[1]), dec(tok[2])
                if lo <= v < hi:
                    return v
                r = lo + (v - lo) % (hi - lo)
                if r < lo:
                    r += hi - lo
                return lo + (v - v) if r >= hi else r
            return cyc
        if k == 'within':
            def within(v):
                lo, hi = dec(tok[1]), dec(tok[2])
                ok = (lo <= v if tok[3] else lo < v) and (v <= hi if tok[4] else v < hi)
                if not ok:
                    raise ValueError
                return v
            return within
        if k == 'fullmatch':
            import re
            pat = re.compile(tok[1])

            def fm(v):
                if not pat.fullmatch(v):
                    raise ValueError
                return v
            return fm
        if k == 'truth':
            def tr(v):
                if not v:
                    raise ValueError
                return v
            return tr
        return None

    # resolution -----------------------------------------------------------
    @staticmethod
    def style(tokens, inherited):
        for t in tokens:
            if t[0] == 'shared':
                t = t[2]
            if t[0] == 'style':
                inherited = t[1]
        return inherited

    def hollow(self, node, before, cstyle):
        """is the node unchecked? ``before``: tokens applied from outside (a union, pre_bind), before its own"""
        node = flat(node)
        toks = list(before) + list(node.get('toks', ()))
        k = node['k']
        if k in ('union', 'optional', 'self'):
            return all(self.hollow(m, self.union_tokens(node, before), cstyle) for m in self.members(node))
        return self.style(toks, cstyle) == 'hollow'

    def trivial(self, node, before, cstyle):
        """unchecked and without validators"""
        node = flat(node)
        toks = list(before) + list(node.get('toks', ()))
        k = node['k']
        if k in ('union', 'optional', 'self'):
            return all(self.trivial(m, self.union_tokens(node, before), cstyle) for m in self.members(node))
        return self.style(toks, cstyle) == 'hollow' and not any(self.validator(t) for t in toks)

    @staticmethod
    def union_tokens(node, before):
        # the union's own Annotated tokens, then the ones applied to it
        return list(node.get('toks', ())) + list(before)

    def members(self, node):
        if node['k'] == 'union':
            return node['m']
        if node['k'] == 'optional':
            return [node['m'][0], {'k': 'none'}]
        return [{'k': 'rec', 'c': node['c']}, {'k': 'none'}]

    # filling --------------------------------------------------------------
    def fill(self, node, v, cstyle, before=(), sub=None):
        """``sub``: {key: tokens} applied by pre_bind to sub-fillers"""
        node = flat(node)
        k = node['k']
        sub = sub or {}
        if k in ('union', 'optional', 'self'):
            return self.fill_union(node, v, cstyle, before, sub)
        own = list(before) + list(node.get('toks', ()))
        style = self.style(own, cstyle)
        origin = self.origin(node)
        coercers = [c for c in (self.coercer(t, origin) for t in own) if c]
        validators = [w for w in (self.validator(t) for t in own) if w]
        if style == 'hollow':
            kind = HOLLOW
        else:
            m = self.match(node, v)
            if m == 'exact':
                kind = STRICT
            elif m == 'sub' and style == 'check':
                kind = SUBTYPE
            else:
                if not coercers:
                    raise Failure(TypeError('no coercers'))
                fails = []
                for c in coercers:
                    try:
                        r = c(v)
                    except Exception as e:
                        fails.append(e)
                        continue
                    m = self.match(node, r)
                    if m == 'exact' or (m == 'sub' and style == 'check'):
                        v = r
                        break
                    fails.append(TypeError('wrong type'))
                else:
                    raise Failure(fails[-1], fails)
                kind = COERCE
        for w in validators:
            try:
                v = w(v)
            except Exception as e:
                raise Failure(e)
        if style != 'hollow':
            v = self.structure(node, v, cstyle, sub)
        return v, kind

    def fill_union(self, node, v, cstyle, before, sub):
        toks = self.union_tokens(node, before)
        ms = self.members(node)
        if all(self.trivial(m, list(sub.get(('u', i), ())) + toks, cstyle) for i, m in enumerate(ms)):
            return v, HOLLOW
        best, results, fails = None, [], []
        for i, m in enumerate(ms):
            try:
                r, kind = self.fill(m, v, cstyle, list(sub.get(('u', i), ())) + toks, {})
            except Failure as f:
                fails += f.alts
                continue
            if best is None or kind < best:
                best, results = kind, [r]
            elif kind == best:
                results.append(r)
        if best is None:
            raise Failure(fails[-1], fails)
        if any(r is not results[0] for r in results):
            raise Failure(ValueError('ambiguous'))
        return results[0], best

    def origin(self, node):
        k = node['k']
        if k == 'plain':
            return PLAIN[node['t']]
        if k == 'bare':
            return {'List': list, 'Dict': dict, 'Tuple': tuple, 'SequenceT': collections.abc.Sequence}[node['t']]
        if k == 'iter':
            return ITER9[node['c']]
        if k == 'map':
            return {'dict': dict, 'Mapping': collections.abc.Mapping, 'defaultdict': defaultdict,
                    'MutableMapping': collections.abc.MutableMapping}[node['c']]
        if k in ('tup', 'tupv'):
            return tuple
        if k == 'gen':
            return getattr(collections.abc, node['c'])
        if k == 'any':
            return object
        if k == 'type':
            return type
        if k == 'rec':
            return self.world.classes[node['c']]
        if k == 'none':
            return type(None)
        if k == 'ellipsis':
            return type(...)
        return None

    def match(self, node, v):
        k = node['k']
        if k == 'none':
            return 'exact' if v is None else None
        if k == 'ellipsis':
            return 'exact' if v is ... else None
        if k == 'callable':
            return 'exact' if callable(v) else None
        if k == 'lit':
            ts = {type(dec(x)) for x in node['v']}
            if type(v) in ts:
                return 'exact'
            return 'sub' if isinstance(v, tuple(ts)) else None
        t = self.origin(node)
        if type(v) is t:
            return 'exact'
        return 'sub' if isinstance(v, t) else None

    def structure(self, node, v, cstyle, sub):
        """checks of the content of an accepted value"""
        k = node['k']
        try:
            if k == 'lit':
                if not any(type(v) is type(dec(x)) and v == dec(x) for x in node['v']):
                    raise Failure(ValueError('not one of the literals'), [TypeError('unhashable')])
                return v
            if k == 'type':
                if node['t'] != 'Any' and not issubclass(v, PLAIN[node['t']]):
                    raise ValueError('not a subclass')
                return v
            if k in ('iter', 'tupv'):
                if self.trivial(node['e'], sub.get(0, ()), cstyle):
                    return v
                return self.elements(v, lambda i: (node['e'], sub.get(0, ())), cstyle)
            if k == 'tup':
                if len(v) != len(node['e']):
                    raise ValueError('wrong length')
                return self.elements(v, lambda i: (node['e'][i], sub.get(i, ())), cstyle)
            if k == 'map':
                kn, vn = node['kk'], node['vv']
                if self.trivial(kn, sub.get(0, ()), cstyle) and self.trivial(vn, sub.get(1, ()), cstyle):
                    return v
                items = list(v.items())
                out = [(self.fill(kn, a, cstyle, sub.get(0, ()))[0], self.fill(vn, b, cstyle, sub.get(1, ()))[0])
                       for a, b in items]
                if all(a is c and b is d for (a, b), (c, d) in zip(items, out)):
                    return v
                return self.rebuild_map(v, out)
        except Failure:
            raise
        except Exception as e:
            raise Failure(e)
        return v

    def elements(self, v, node_of, cstyle):
        items = list(v)
        if not items:
            return v
        nodes = [node_of(i) for i in range(len(items))]
        if all(self.trivial(n, b, cstyle) for n, b in nodes):
            return v
        try:
            out = [self.fill(n, x, cstyle, b)[0] for (n, b), x in zip(nodes, items)]
        except Failure:
            if not isinstance(v, (list, tuple, deque)):
                self.ctx.loose = True
            raise
        if all(a is b for a, b in zip(items, out)):
            return v
        t = type(v)
        try:
            if isinstance(v, str):
                return t(''.join(out))
            if isinstance(v, deque):
                return t(out, v.maxlen)
            return t(out)
        except Exception:
            # how many elements were filled before the container was found impossible is not determined
            self.ctx.loose = True
            raise

    @staticmethod
    def rebuild_map(v, pairs):
        if isinstance(v, defaultdict):
            return type(v)(v.default_factory, pairs)
        return type(v)(dict(pairs))


def wrapped_type(cause):
    """the type of error a failing field raises"""
    try:
        return type(type(cause)('m'))
    except Exception:
        return ValueError


class ClassModel:
    """one record class: its fields with everything that applies to them"""

    def __init__(self, world, name):
        self.world = world
        self.name = name
        self.fields = world.field_specs(name)
        self.required = [n for n, (_, f) in self.fields.items() if not f.get('default')]

    def fill_field(self, ctx, fname, v):
        spec, f = self.fields[fname]
        style = spec.get('style') or 'hollow'
        before, sub = [], {}
        for p in spec.get('pre_bind', ()):
            if p['field'] != fname:
                continue
            extra = [['t', [['s', k], a]] for k, a in sorted((p.get('kw') or {}).items())]
            extra = [extra] if extra else []
            tok = {'coercer': ['co', p['cb'][0], p['cb'][1], *extra], 'validator': ['va', p['cb'][0], p['cb'][1], *extra],
                   'assert': ['as', p['cb'][0], p['cb'][1], p.get('opts') or {}]}[p['kind']]
            if p.get('sub') is None:
                before.append(tok)
            else:
                key = ('u', p['sub']) if flat(f['node'])['k'] in ('union', 'optional') else p['sub']
                sub.setdefault(key, []).append(tok)
        old = getattr(TL, 'ctx', None)
        TL.ctx = ctx
        try:
            return Model(self.world, ctx).fill(f['node'], v, style, before, sub)
        finally:
            TL.ctx = old
