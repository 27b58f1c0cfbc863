"""Constructs records on the code under test and on the reference interpreter, and compares (C05, C06, C08)."""
import json
import random
import re
import zlib

from dst import model, ops, opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.userland import Ctx, canon, dec


def construct(world, op, objs):
    """the construction itself; ``objs``: already decoded field arguments"""
    o = op['o']
    cls = world.classes[op['c']]
    if o == 'new':
        return cls(**objs)
    if o == 'arg':
        kw = dict(objs)
        return cls(kw.pop(op['pos']), **kw)
    if o == 'from_mapping':
        ks = list(objs)
        if op.get('split') and len(ks) > 1:
            n = len(ks) // 2
            return cls.from_mapping({k: objs[k] for k in ks[:n]}, {k: objs[k] for k in ks[n:]})
        return cls.from_mapping(dict(objs))
    if o == 'from_instance':
        from types import SimpleNamespace
        return cls.from_instance(SimpleNamespace(**objs))
    if o == 'mapping_kw':
        ks = list(objs)
        return cls.from_mapping({k: objs[k] for k in ks[:1]}, **{k: objs[k] for k in ks[1:]})
    if o == 'select':
        al = {k: f'{k}_alias' for k in objs}
        return cls.from_mapping.select(keys_to_rename={v: k for k, v in al.items()})({al[k]: v for k, v in objs.items()})
    raise U.Invalid(o)


ENTRIES = ['new', 'new', 'new', 'from_mapping', 'from_mapping', 'from_instance', 'mapping_kw', 'select', 'arg']


def gen_op(g, c, near=0.85, faults=0.45, kinds=None, p_opt=0.5):
    kw = g.kwargs_for(c, near, p_opt=p_opt)
    for k, v in kw.items():
        if v[0] == 'r':
            kw[k] = v
    op = {'o': g.ch(ENTRIES), 'c': c, 'kw': kw}
    if op['o'] == 'arg':
        req = [f['name'] for f in g.fields_of(c) if not f.get('default')]
        if len(req) == 1 and req[0] in kw and not g.specs[c].get('unary'):
            op['pos'] = req[0]
        else:
            op['o'] = 'new'
    if op['o'] == 'from_instance' and any(f['name'] in kw and f.get('default') and f['default'][0] != 'fac'
                                          for f in g.fields_of(c)):
        op['o'] = 'from_mapping'  # attributes that equal a plain default count as not given
    own = [c] + g.all_bases(c)
    cbs = [cb for cb, role in g.cbids if any(cb.startswith(n + '.') or cb.startswith(n + '#') for n in own)
           and (kinds is None or role in kinds)]
    f = g.faults(faults, cbs=cbs or None, names=sorted(U.EXC) if g.p(0.3) else None)
    if f:
        op['faults'] = f
    return op


def hollow_validators(g, names):
    """give validators to unchecked elements of checked containers and to (members of) unchecked unions of the classes"""
    rng = random.Random(zlib.crc32(json.dumps([g.specs[n] for n in names]).encode()))

    def put(node):
        if rng.random() < 0.5:
            cb = g.cbid('validator')
            tok = ['va', cb, rng.choice(['ident', 'ident', 'ident', 'nonempty', 'abs', 'str'])]
        else:
            cb = g.cbid('assert')
            tok = ['as', cb, rng.choice(['a_true', 'a_true', 'a_true', 'a_false']), {}]
        node['toks'] = list(node.get('toks', ()))
        node['toks'].insert(rng.randrange(len(node['toks']) + 1), tok)

    def walk(node, style, cstyle, inside):
        k = node['k']
        if 'share' in node or k in ('rec', 'self', 'newtype'):
            return
        st = model.Model.style(node.get('toks', ()), style)
        if k in ('union', 'optional'):
            if all(g.eff_style(m, st) == 'hollow' for m in node['m']) and (k == 'union' or st == 'hollow') and rng.random() < 0.3:
                put(node)
            for m in node['m']:
                walk(m, st, cstyle, True)
            return
        if st == 'hollow':
            if inside and rng.random() < 0.3:
                put(node)
            return
        for e in ([node['e']] if k in ('iter', 'tupv') else node['e'] if k == 'tup' else [node['kk'], node['vv']] if k == 'map' else ()):
            walk(e, cstyle, cstyle, True)

    for n in names:
        spec = g.specs[n]
        for f in spec['fields']:
            g.prefix = f"{n}.{f['name']}"
            walk(f['node'], spec['style'], spec['style'], False)
    g.prefix = ''


def expected(world, op, objs):
    """what the reference says: per field ('ok', value, log, loose) | ('fail', Failure, log, loose)"""
    cm = model.ClassModel(world, op['c'])
    out = {}
    for f, v in objs.items():
        ctx = Ctx(None, op.get('faults', ()))
        try:
            r, kind = cm.fill_field(ctx, f, v)
            out[f] = ('ok', r, ctx.log, ctx.loose, kind, ctx.fired)
        except model.Failure as e:
            out[f] = ('fail', e, ctx.log, ctx.loose, None, ctx.fired)
    return cm, out


CB = re.compile(r'"([A-Za-z0-9_.]+#[0-9]+)"')


def callbacks_of(cm):
    """{field: its callback ids}, or None for fields whose callbacks cannot be told from another field's"""
    ids = {}
    for f, (spec, fs) in cm.fields.items():
        mine = set(CB.findall(json.dumps([fs['node'], [p for p in spec.get('pre_bind', ()) if p['field'] == f]])))
        ids[f] = mine
    out = {}
    for f, mine in ids.items():
        others = set().union(*[ids[o] for o in ids if o != f]) if len(ids) > 1 else set()
        out[f] = None if mine & others else mine
    return out


def field_log(log, ids):
    if ids is None:
        return None
    return [e for e in log if e[0] in ids]


def check_one(world, op, real_ctx, res, exc, objs, stats, fields=None, want=('value', 'error', 'log', 'factory')):
    """compare one construction with the reference.  ``fields``: only report about these fields (None: all)"""
    cm, exp = expected(world, op, objs)
    missing = [f for f in cm.required if f not in objs]
    ids = callbacks_of(cm)
    failing = [f for f, e in exp.items() if e[0] == 'fail']
    stats['fields'] = stats.get('fields', 0) + len(exp)
    for e in exp.values():
        k = 'filled-' + model.RANK[e[4]] if e[0] == 'ok' else 'refused'
        stats[k] = stats.get(k, 0) + 1
    log = norm(real_ctx.log)
    me = f"{short(op)} of class {op['c']}"

    def about(f):
        return f'field {f} ({short(cm.fields[f][1])}) given {short(canon(objs[f]))}'

    fac = [f for f, (_, fs) in cm.fields.items() if f not in objs and fs.get('default') and fs['default'][0] == 'fac']
    facbad = None
    for f in fac:
        act = U.fault_for(op.get('faults'), cm.fields[f][1]['default'][1], canon(None))
        if act and act[0] == 'raise':
            facbad = f
            break
    if exc is None:
        if failing and 'error' in want:
            for f in failing:
                if fields is None or f in fields:
                    raise Viol('accepted', f'{about(f)} must be refused ({exp[f][1].exc!r}), but the record was created with '
                                           f'{short(canon(getattr(res, f)))}; {me}')
        if missing and 'error' in want:
            raise Viol('missing', f'required {missing} missing but a record was created: {me}')
        if 'factory' in want and facbad is not None:
            raise Viol('factory-error-lost', f'the factory of {facbad} fails but a record was created: {me}')
        if type(res) is not world.classes[op['c']]:
            raise Viol('class', f'construction gave {short(canon(res))}: {me}')
        for f, e in exp.items():
            if e[0] != 'ok' or (fields is not None and f not in fields):
                continue
            got = getattr(res, f)
            if 'value' in want and (norm(canon(got)) != norm(canon(e[1])) or (e[1] is objs[f]) != (got is objs[f])):
                raise Viol('value', f'{about(f)} holds {short(canon(got))}{" (the argument itself)" if got is objs[f] else ""}, '
                                    f'must be {short(canon(e[1]))}'
                                    f'{" (the argument itself)" if e[1] is objs[f] else ""} [{model.RANK[e[4]]}]; {me}')
            if 'log' in want and not e[3]:
                pre = ids[f]
                a, b = field_log(norm(e[2]), pre), field_log(log, pre)
                if a != b:
                    raise Viol('callbacks', f'{about(f)}: callbacks {short(b)}, must be {short(a)}; {me}')
        if 'log' in want and fields is None and not any(e[3] for e in exp.values()):
            facs = {fs['default'][1] for _, fs in cm.fields.values() if fs.get('default') and fs['default'][0] == 'fac'}
            a = sorted((x for e in exp.values() for x in norm(e[2])), key=json.dumps)
            b = sorted((x for x in log if x[0] not in facs), key=json.dumps)
            if a != b:
                raise Viol('callbacks', f'callbacks of all fields {short(b)}, must be {short(a)}; {me}')
        if 'factory' in want:
            for f in cm.fields:
                if f in objs:
                    continue
                d = cm.fields[f][1].get('default')
                if d is None:
                    continue
                got = getattr(res, f)
                if d[0] == 'fac':
                    made = [r for cb, r in real_ctx.keep if cb == d[1]]
                    if len(made) != 1:
                        raise Viol('factory-calls', f'the factory of omitted field {f} was called {len(made)} times: {me}')
                    if made[0] is not got:
                        raise Viol('factory-value', f'field {f} holds {short(canon(got))}, not the factory result '
                                                    f'{short(canon(made[0]))}: {me}')
                else:
                    obj = world.defaults[cm.fields[f][0]['name'], f]
                    if got is not obj:
                        raise Viol('default-identity', f'field {f} holds {short(canon(got))} which is not the declared default '
                                                       f'object {short(canon(obj))}: {me}')
            check_factories(cm, objs, real_ctx, log, me, fac)
        return 'ok'
    # an exception
    if 'factory' in want:
        check_factories(cm, objs, real_ctx, log, me, None)
    if not isinstance(exc, Exception):
        raise Viol('escaped', f'{type(exc).__name__} came out of {me}')
    if failing:
        if 'error' not in want:
            return 'failed'
        cause = exc.__cause__
        named = [f for f in failing if re.search(r'(?<![A-Za-z0-9_])' + re.escape(f) + r'(?![A-Za-z0-9_])', str(exc))]
        if not named:
            if fields is not None and not set(failing) & set(fields):
                return 'failed'
            raise Viol('unnamed', f'{type(exc).__name__}({exc}) names none of the failing fields {failing}: {me}')
        ok = False
        why = ''
        for f in named:
            if fields is not None and f not in fields:
                ok = True
                continue
            fl = exp[f][1]
            accept = {type(a) for a in fl.alts}
            if cause is None or type(cause) not in accept:
                why = f'{about(f)}: the cause is {cause!r}, must be {[repr(a) for a in fl.alts][:4]}'
                continue
            if getattr(cause, 'dst_injected', False) and not any(cause is x for x in real_ctx.injected):
                why = f'{about(f)}: the cause is not the exception that was raised'
                continue
            w = model.wrapped_type(cause)
            if type(exc) is not w:
                why = f'{about(f)}: raised {type(exc).__name__}, must be {w.__name__} (cause {cause!r})'
                continue
            pre = ids[f]
            if 'log' in want and not exp[f][3] and field_log(norm(exp[f][2]), pre) != field_log(log, pre):
                why = (f'{about(f)}: callbacks {short(field_log(log, pre))}, must be '
                       f'{short(field_log(norm(exp[f][2]), pre))}')
                continue
            ok = True
            break
        if not ok:
            raise Viol('error', f'{why}; {me}')
        if 'log' in want:
            for f, e in exp.items():
                if e[0] != 'ok' or e[3] or (fields is not None and f not in fields):
                    continue
                pre = ids[f]
                a, b = field_log(norm(e[2]), pre), field_log(log, pre)
                if b and a != b:
                    raise Viol('callbacks', f'{about(f)}: callbacks {short(b)}, must be {short(a)} or none; {me}')
        return 'failed'
    if missing:
        return 'failed'
    if facbad is not None:
        if 'factory' in want and not any(exc is x for x in real_ctx.injected):
            raise Viol('factory-error', f'the factory of {facbad} fails, but construction raised {type(exc).__name__}({exc}): {me}')
        return 'failed'
    if 'error' in want or 'value' in want:
        raise Viol('refused', f'{type(exc).__name__}({exc}) (cause {exc.__cause__!r}) but every field accepts its argument: {me}')
    return 'failed'


def check_factories(cm, objs, ctx, log, me, fac):
    calls = [e[0] for e in log]
    order = []
    for f, (spec, fs) in cm.fields.items():
        d = fs.get('default')
        if d and d[0] == 'fac':
            n = calls.count(d[1])
            if f in objs and n:
                raise Viol('factory-needless', f'the factory of {f} was called {n} times though the field was given: {me}')
            if n > 1:
                raise Viol('factory-calls', f'the factory of {f} was called {n} times: {me}')
            if f not in objs:
                order.append(d[1])
    seen = [c for c in calls if c in order]
    if seen != [c for c in order if c in seen]:
        raise Viol('factory-order', f'factories were called in order {seen}, declared as {order}: {me}')
    if seen != order[:len(seen)]:
        raise Viol('factory-skipped', f'factories called: {seen}, declared: {order}: {me}')


def run(scn, fields_of=None, want=('value', 'error', 'log', 'factory')):
    """execute the constructions of a scenario, sequentially or under a schedule, and check each"""
    world = opgen.build(scn)
    stats = {'steps': 0, 'ops': 0}
    sigs = []
    threads = scn['threads']
    conc = len(threads) > 1
    done = {}

    def one(t, k, op, sim, opc):
        objs = {f: dec(v, world) for f, v in op['kw'].items()}
        ctx = Ctx(sim, op.get('faults', ()))
        ctx.keep = []
        U.TL.ctx = ctx
        res = exc = None
        try:
            if sim is not None:
                with sched.traced(ctx, opc):
                    res = construct(world, op, objs)
            else:
                res = construct(world, op, objs)
        except (U.Invalid, sched.SimAbort):
            raise
        except BaseException as e:
            exc = e
        U.TL.ctx = None
        done[t, k] = (op, ctx, res, exc, objs)

    trace = None
    if conc:
        opc = bool(scn['sched']['op'])

        def body(t, ops_):
            def f():
                for k, op in enumerate(ops_):
                    one(t, k, op, sim, opc)
            return f

        lengths = {t: 60 * len(o) for t, o in enumerate(threads)}
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], lengths))
        sim.run([body(t, o) for t, o in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        stats['steps'] += sim.step
        stats['switches'] = len(sim.switches)
    else:
        for k, op in enumerate(threads[0]):
            one(0, k, op, None, False)
    interesting = False
    for (t, k), (op, ctx, res, exc, objs) in sorted(done.items()):
        stats['ops'] += 1
        for f in ctx.fired:
            stats['fault:' + f[1]] = stats.get('fault:' + f[1], 0) + 1
        try:
            r = check_one(world, op, ctx, res, exc, objs, stats, fields_of(world, op['c']) if fields_of else None, want)
        except Viol as v:
            if trace:
                v.detail['schedule'] = trace
            raise
        stats[r] = stats.get(r, 0) + 1
        if ctx.log or exc is not None:
            interesting = True
            sigs.append(zlib.crc32(json.dumps([[s for s in scn['classes'] if s['name'] == op['c']], op, r]).encode()))
    return {'nontrivial': interesting, 'sum': stats, 'sigs': sigs, 'sample': interesting and stats['fields'] > 2}
