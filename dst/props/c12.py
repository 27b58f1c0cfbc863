"""C12: defining a class never changes the classes that already exist."""
import json
import zlib

from dst import fillcheck, model, ops, opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm, diff_outcome
from dst.gen import flavour
from dst.userland import Ctx, TL, canon, dec

ID = 'C12'
QUICK = 2600
THOROUGH = 60000
RULE = ('a seeded world of existing record classes and 1-5 new definitions (children, siblings, namesakes; sharing hint objects, '
        'coercer and validator tokens, tags and default objects with existing classes; complete, contradictory in one of nine '
        'ways, failing in a user hook, or interrupted at a seeded step, and then sometimes repeated with the same objects), in '
        'sequence or from 2-3 threads under one seeded schedule, mixed with uses of the existing classes; every use during and '
        'after is compared with the same use before any definition, every new class with itself defined alone in a fresh fork '
        'and with the reference interpreter over the parents\' and its own fields; non-trivial: a definition failed, was '
        'interrupted, inherited or was concurrent')
MEASURE = 'crc of (classes, definitions, switch sequence)'
REAL = ['records (all of it)', 'typing', 'CPython threads, released one at a time']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'user callbacks and hooks', 'asynchronous interrupts',
        'reference interpreter of filling (dst/model.py) for the new classes']
ASSUMPTIONS = ['code of the typing module is atomic']

READS = ['to_dict', 'to_json', 'eq', 'lt', 'hash', 'repr', 'copy', 'deepcopy', 'pickle_rt', 'tags', 'meta', 'isinst', 'getattr']
BUILDS = ['new', 'new', 'new', 'new', 'parse', 'parse', 'parser', 'from_mapping', 'from_instance', 'from_json', 'handle']
BREAK = ['nofields', 'override', 'hollowco', 'rebind', 'rebind', 'hook', 'hook', 'hook', 'strictabs', 'twobases', 'final', 'badhint']


def use(og, c):
    op = og.op(og.g.ch(BUILDS if og.g.p(0.65) else READS), c if og.g.p(0.8) else None, faults=0.3)
    return op


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.6)
    g.cls('A0', p_post=0.15, p_parsers=0.3, p_pre=0.4)
    for k in range(1, rng.choice([1, 2, 3, 3, 4])):
        g.cls(f'A{k}', p_post=0.1, p_parsers=0.25, p_pre=0.4, p_inherit=0.6)
    old = sorted(g.specs)
    og = opgen.OpGen(g)
    og.fill_pool(rng.choice([2, 3]), 2)
    og.fill_selects(1)
    og.fill_handles(rng.choice([0, 1, 2]))
    pin = g.ch(old)
    battery = [use(og, g.ch(old) if g.p(0.5) else pin) for _ in range(rng.choice([4, 6, 9]))]
    nshare = 0
    defs = []
    motif = None
    if g.p(0.12):
        # one token object on fields of different types
        t1, *others = rng.sample(['int', 'str', 'float', 'bool'], 4)
        tok = ['shared', 'TM', g.ch([['eval', ['...']], ['eval', ['...']], ['eval', ['...', 'P']], ['loose'], ['falsish']])]
        motif = (others, lambda name, t: {'name': name, 'node': {'k': 'plain', 't': t, 'toks': [['style', 'check'], tok]}})
        g.specs[pin]['fields'].append({**motif[1]('tm', t1), 'default': ['v', {'int': ['i', 1], 'str': ['s', 'a'], 'float': ['f', 1.5],
                                                                              'bool': ['b', True]}[t1]]})
        for _ in range(rng.choice([1, 2, 3])):
            op = {'o': 'new', 'c': pin, 'kw': g.kwargs_for(pin, 1.0, complete=True)}
            t2 = g.ch(others)
            op['kw']['tm'] = g.ch([['s', f'{t1}({t2}(1))'], ['s', f'{t1}({t2}(1))'], ['s', f'{t2}(1)'], ['s', '1'], ['i', 0], ['f', 2.5]])
            battery.append(op)
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        name = f'D{k}'
        bases = None
        if g.p(0.65):
            bases = [pin if g.p(0.6) else g.ch(old)]
            if g.p(0.3):
                b2 = g.ch(old)
                if not set(g.field_names(b2)) & set(g.field_names(bases[0])):
                    bases.append(b2)
        else:
            bases = []
        base = g.specs[pin]
        spec = g.cls(name, bases=bases, p_post=0.1, p_parsers=0.2, p_pre=0.4, p_default=0.5, no_self=True,
                     style=g.ch([base['style'], 'check', 'strict', 'hollow']))
        if g.p(0.25):
            spec['pyname'] = g.ch(old + ['D0'])
        # share hints and default objects with existing fields
        for f in spec['fields']:
            src = g.ch([x for c in old for x in g.specs[c]['fields'] if x['node']['k'] != 'self'] or [None])
            if src is None or f['node']['k'] == 'self' or '"self"' in json.dumps(src['node']):
                continue
            if spec['style'] == base['style'] and g.p(0.35):
                if 'share' not in src['node']:
                    src['node']['share'] = f'N{nshare}'
                    nshare += 1
                f['node'] = json.loads(json.dumps(src['node']))
                f.pop('default', None)
                spec['pre_bind'] = [p for p in spec.get('pre_bind', ()) if p['field'] != f['name']]
                d = src.get('default')
                if d and d[0] == 'v':
                    src['default'] = ['sv', f'V{nshare}', d[1]]
                    nshare += 1
                if d and d[0] != 'fac' and g.p(0.6):
                    f['default'] = json.loads(json.dumps(src['default']))
        if motif and g.p(0.8):
            spec['fields'].append(motif[1](f'tm{k}', g.ch(motif[0])))
        if g.p(0.5):
            spec['pre_hook'] = g.cbid('pre_bind')
        item = {'spec': spec, 'uses': []}
        for _ in range(rng.choice([2, 3, 5])):
            op = fillcheck.gen_op(g, name)
            item.setdefault('fills', []).append(op)
        for _ in range(rng.choice([1, 2])):
            op = use(og, name)
            if spec.get('pyname') and ('pickle' in op['o']):
                continue
            item['uses'].append(op)
        k2 = rng.random()
        if k2 < 0.3:
            how = g.ch(BREAK)
            good = json.loads(json.dumps(spec))
            if spoil(g, spec, how, old):
                item['why'] = how
                if how == 'hook':
                    item['faults'] = [{'cb': spec['pre_hook'], 'act': ['raise', g.ch(U.ORDINARY)] if g.p(0.6) else
                                       ['raiseB', g.ch(sorted(U.BASE))]}]
                    item['retry'] = g.p(0.6)
                elif g.p(0.5):
                    item['retry'] = True
                    item['good'] = good
        elif k2 < 0.55:
            item['intr'] = [g.ch(sorted(U.BASE)), rng.random()]
            item['retry'] = g.p(0.6)
        defs.append(item)
        del g.specs[name]
    nt = rng.choice([1, 1, 2, 2, 3])
    threads = [[] for _ in range(nt)]
    for j in range(len(defs)):
        threads[j % nt if nt > 1 else 0].append({'def': j})
    for t in threads:
        for _ in range(rng.choice([0, 1, 2])):
            t.insert(rng.randrange(len(t) + 1), {'use': rng.randrange(len(battery))})
    olds = [g.specs[c] for c in old]
    return {'classes': olds, 'pool': og.pool, 'selects': og.selects, 'handles': [h for h, _, _ in og.handles],
            'battery': battery, 'defs': defs, 'threads': threads,
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.3)}}


def spoil(g, spec, how, old):
    """make the declaration fail, if it can be made to in this way"""
    inh = [f for b in spec['bases'] if b in g.specs for f in g.fields_of(b)]
    if how == 'nofields':
        if inh:
            return False
        spec['fields'] = []
        spec.pop('pre_bind', None)
    elif how == 'override':
        if not inh:
            return False
        spec['fields'].insert(g.rng.randrange(len(spec['fields']) + 1),
                              {'name': g.ch(inh)['name'], 'node': {'k': 'plain', 't': 'int', 'toks': []}})
    elif how == 'hollowco':
        spec['fields'].append({'name': 'bad', 'node': {'k': 'plain', 't': 'int', 'toks': [['style', 'hollow'], ['co', g.cbid('coercer'), 'int']]}})
    elif how == 'rebind':
        if not inh:
            return False
        f = g.ch(inh)
        kind = g.ch(['coercer', 'validator', 'assert'])
        sub = 0 if f['node']['k'] in ('tup', 'union', 'iter', 'tupv', 'map', 'optional') and f['node'].get('e') != [] and g.p(0.6) else None
        spec.setdefault('pre_bind', []).append({'field': f['name'], 'sub': sub, 'kind': kind,
                                                'cb': [g.cbid(kind), g.ch(['ident', 'none', 'fail'])]})
    elif how == 'hook':
        spec.setdefault('pre_hook', g.cbid('pre_bind'))
    elif how == 'strictabs':
        spec['fields'].append({'name': 'bad', 'node': {'k': 'plain', 't': 'abc.Sequence', 'toks': [['style', 'strict']]}})
    elif how == 'twobases':
        if not inh:
            return False
        kids = [b for b in old if b not in spec['bases'] and not any(b in g.all_bases(x) or x in g.all_bases(b) for x in spec['bases'] if
                                                                     x in g.specs)
                and set(g.field_names(b)) & {f['name'] for f in inh}]
        if not kids:
            return False
        spec['bases'].append(g.ch(kids))
    elif how == 'final':
        if spec.get('frozen') or not spec['fields']:
            return False
        spec['fields'][-1]['final'] = True
    elif how == 'badhint':
        spec['fields'].append({'name': 'bad', 'node': {'k': 'iter', 'c': 'list', 'e': {'k': 'plain', 't': 'int', 'toks': [['co', g.cbid('coercer'), 'int']]},
                                                       'toks': [['style', 'hollow']]}})
    return True


def definition(world, spec, ns, ctx, opc=False):
    """outcome of one definition and the class"""
    TL.ctx = ctx
    cls = None
    try:
        with sched.traced(ctx, opc):
            cls = world.finish(spec, *ns)
        out = {'ok': cls.__qualname__}
    except (U.Invalid, sched.SimAbort):
        raise
    except BaseException as e:
        out = {'err': ops.describe_exc(e)}
        e.__traceback__ = None
    TL.ctx = None
    return out, cls


def attempts(item):
    """the definitions an item stands for: (spec, faults, interrupt)"""
    out = [(item['spec'], item.get('faults', ()), item.get('intr'))]
    if item.get('retry'):
        out.append((item.get('good', item['spec']), (), None))
    return out


def solo_use(world, op):
    out, log, _ = ops.run_solo(world, op, trace=False)
    return norm({'out': out, 'log': log})


def run(scn):
    world = opgen.build(scn)
    opc = bool(scn['sched']['op'])
    ref = [forked(lambda: solo_use(world, op)) for op in scn['battery']]

    def uses_of(w, item):
        return [solo_use(w, op) for op in item['fills'] + item['uses']]

    def alone(item):
        """what each attempt gives when it is the only definition ever made"""
        out = []
        for spec, faults, intr in attempts(item):
            def f():
                ns = world.namespace(spec)
                ctx = Ctx(None, faults)
                o, cls = definition(world, spec, ns, ctx)
                return {'out': norm(o), 'log': norm(ctx.log), 'steps': ctx.steps,
                        'uses': (world.register(spec, cls), use_ops(world, item))[1] if cls is not None else None}
            out.append(forked(f))
        return out

    def use_ops(w, item):
        out = []
        for op in item['fills']:
            out.append(forked(lambda: fill_outcome(w, op)))
        for op in item['uses']:
            out.append(forked(lambda: solo_use(w, op)))
        return out

    solo = [alone(item) for item in scn['defs']]
    got = {}
    used = []
    classes = {}
    s = {'definitions': 0, 'uses': 0}

    def step(t, it, sim):
        if 'use' in it:
            if it['use'] >= len(scn['battery']):
                return
            op = scn['battery'][it['use']]
            ctx = Ctx(sim, op.get('faults', ()))
            out = ops.outcome(world, op, ctx, opc)
            used.append((t, it['use'], norm({'out': out, 'log': ctx.log})))
            return
        j = it['def']
        item = scn['defs'][j]
        for a, (spec, faults, intr) in enumerate(attempts(item)):
            if a == 0 or item.get('good'):
                ns = world.namespace(spec)
            ctx = Ctx(sim, faults)
            if intr:
                ctx.interrupt_name = intr[0]
                ctx.interrupt_at = 1 + int(intr[1] * solo[j][a]['steps'])
            out, cls = definition(world, spec, ns, ctx, opc)
            got[j, a] = (norm(out), norm(ctx.log), ctx)
            if cls is not None:
                classes[j] = (spec, cls, a)
                world.register(spec, cls)
                break

    threads = scn['threads']
    trace = None
    if len(threads) > 1:
        lengths = {t: 1 + sum(solo[it['def']][0]['steps'] if 'def' in it else 60 for it in x) for t, x in enumerate(threads)}
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], lengths))
        sim.run([(lambda t=t, x=x: [step(t, it, sim) for it in x]) for t, x in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for it in threads[0]:
            step(0, it, None)

    det = {'schedule': trace} if trace else {}
    story = []
    eventful = len(threads) > 1
    for (j, a), (out, log, ctx) in sorted(got.items()):
        item = scn['defs'][j]
        s['definitions'] += 1
        kind = 'interrupted' if ctx.interrupt_exc is not None else 'failed' if 'err' in out else 'complete'
        s['def-' + kind] = s.get('def-' + kind, 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        for f in ctx.fired:
            s['fault:hook-' + f[1]] = s.get('fault:hook-' + f[1], 0) + 1
        eventful = eventful or kind != 'complete' or bool(item['spec']['bases'])
        story.append(f"{item['spec']['name']}({', '.join(item['spec']['bases'])}) {kind} {item.get('why', '')}".strip())
        if kind == 'interrupted' and not (ctx.fired or 'ok' in out):
            continue
        exp = solo[j][a]
        if a == 0 and (item.get('intr') and 'ok' not in out):
            continue
        if out != exp['out']:
            raise Viol('definition-' + diff_outcome(exp['out'], out),
                       f'definition {short(item["spec"])} gives {short(out)}, alone {short(exp["out"])}', **det)
        if log != exp['log']:
            raise Viol('definition-hooks', f'definition {short(item["spec"])}: hook calls {short(log)}, alone {short(exp["log"])}', **det)
    tale = '; '.join(story)
    for t, u, o in used:
        s['uses'] += 1
        if o != ref[u]:
            raise Viol('existing-during', f"{short(scn['battery'][u])} gives {short(o)} while classes are being defined, "
                                          f"{short(ref[u])} before ({tale})", **det)
    for u, op in enumerate(scn['battery']):
        o = forked(lambda: solo_use(world, op))
        s['uses'] += 1
        if o != ref[u]:
            raise Viol('existing-' + diff_outcome(ref[u]['out'], o['out']) if o['out'] != ref[u]['out'] else 'existing-callbacks',
                       f'{short(op)} gave {short(ref[u])} before the definitions, gives {short(o)} after them ({tale})', **det)
    for j, (spec, cls, a) in sorted(classes.items()):
        item = scn['defs'][j]
        now = use_ops(world, item)
        exp = solo[j][a]['uses']
        for op, x, y in zip(item['fills'] + item['uses'], exp, now):
            s['new-uses'] = s.get('new-uses', 0) + 1
            if x != y:
                raise Viol('new-class', f'{short(op)} on the new class gives {short(y)}, and {short(x)} when that class is defined alone ({tale})', **det)
        check_new(world, item, spec, s, det)
    sig = zlib.crc32(json.dumps([scn['classes'], scn['defs'], trace]).encode())
    return {'nontrivial': eventful, 'sum': s, 'sigs': [sig],
            'states': [zlib.crc32(json.dumps(trace['sw'] if trace else []).encode())], 'sample': eventful and len(threads) > 1}


def build_op(world, op):
    objs = {f: dec(v, world) for f, v in op['kw'].items()}
    ctx = Ctx(None, op.get('faults', ()))
    ctx.keep = []
    TL.ctx = ctx
    res = exc = None
    try:
        res = fillcheck.construct(world, op, objs)
    except U.Invalid:
        raise
    except BaseException as e:
        exc = e
    TL.ctx = None
    return objs, ctx, res, exc


def fill_outcome(world, op):
    objs, ctx, res, exc = build_op(world, op)
    return norm({'out': {'err': ops.describe_exc(exc)} if exc is not None else {'ok': canon(res)}, 'log': ctx.log})


def check_new(world, item, spec, s, det):
    """the new class against the reference interpreter: parents' fields, then its own"""
    name = spec['name']
    chain = [spec] + [world.specs[b] for b in ancestors(world, name)]
    if any(x.get('post_new') for x in chain):
        return

    def f():
        st = {}
        for op in item['fills']:
            objs, ctx, res, exc = build_op(world, op)
            fillcheck.check_one(world, op, ctx, res, exc, objs, st)
            if res is not None:
                want = world.field_order(name)
                for what, keys in (('to_dict', list(res.to_dict(include_defaults=True))), ('sorted', None)):
                    if keys is not None and keys != want:
                        raise Viol('field-order', f'a record of {short(spec)} exports {keys}, must be {want}')
                st['modelled'] = st.get('modelled', 0) + 1
        return st

    try:
        st = forked(f)
    except Viol as v:
        raise Viol('new-' + v.kind, v.msg, **{**v.detail, **det})
    s['modelled'] = s.get('modelled', 0) + st.get('modelled', 0)


def ancestors(world, name):
    out = []
    for b in world.specs[name].get('bases', ()):
        if b in world.specs:
            out += [b] + ancestors(world, b)
    return out
