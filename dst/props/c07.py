"""C07: parsing succeeds exactly when one interpretation does."""
import json
import zlib

from dst import ops, opgen, sched
from dst import userland as U
from dst.common import Viol, HarnessError, forked, short, norm
from dst.gen import flavour
from dst.userland import Ctx, TL, canon, dec

ID = 'C07'
QUICK = 8000
THOROUGH = 200000
RULE = ('seeded record classes (mostly with one required field, with custom parsers: plain, selectable, static and inherited; '
        'post_new steps that reject, replace or fail) and 2-5 uses of parse or of the constructor with one positional argument, '
        'under a seeded plan of failing parsers, coercers, validators, factories and post_new calls, one third of the scenarios '
        'with the uses spread over 2-3 threads; the expected outcome is computed from running every registered parser and the '
        'keyword construction one by one, each in its own process; non-trivial: some interpretation succeeds')
MEASURE = 'crc of (class, use, pattern of succeeding interpretations, outcome)'
REAL = ['records (all of it)', 'json', 'CPython threads, released one at a time']
STUB = ['thread scheduling', 'locks and clocks (simulated)', 'user callbacks']
ASSUMPTIONS = []


def gen_world(rng):
    """classes for which an argument often has several interpretations"""
    g = flavour(rng, share=rng.random() < 0.2)
    n = rng.choice([1, 1, 2, 3])
    for k in range(n):
        g.cls(f'A{k}', p_post=0.4, p_parsers=0.6, p_default=rng.choice([0.4, 0.6, 0.85, 0.85]), n_fields=rng.choice([1, 1, 2, 3]),
              p_inherit=0.6)
    for s in g.specs.values():
        if rng.random() < 0.6:
            s['unary'] = True
        old = [p for b in g.all_bases(s['name'])[1:] for p in g.specs[b].get('parsers', ())]
        own = [p['name'] for p in s.get('parsers', ())]
        if rng.random() < 0.3:
            # a parser overridden by something that is none, or that is one of another kind
            fresh = json.loads(json.dumps(g.ch(old))) if old and g.p(0.7) else None
            if fresh is None:
                g.parsers(s if not own else json.loads(json.dumps(s)), 1)
                if own or not s.get('parsers'):
                    continue
                fresh = s['parsers'].pop()
                fresh['name'] = g.ch(['from_mapping', 'from_instance', 'from_json'])
            if fresh['name'] in own:
                continue
            fresh['cb'] = g.cbid('parser')
            if fresh['kind'] == 'selectable' or g.p(0.2):
                fresh['kind'] = 'class'
            if g.p(0.8):
                fresh['nopar'] = 1
            s.setdefault('parsers', []).append(fresh)
    return g


def gen_use(g, og):
    c = g.ch(sorted(g.specs))
    req = [f for f in g.fields_of(c) if not f.get('default')]
    u = {'u': g.ch(['parse', 'unary', 'unary']), 'c': c, 'v': og.parse_arg(c)}
    if len(req) == 1 and g.p(0.45):
        u['v'] = g.value_for(req[0]['node'], 0.97)
    own = g.all_bases(c)
    for s in own:  # an argument that suits a custom parser
        for p in g.specs[s].get('parsers', ()):
            if g.p(0.15):
                u['v'] = g.scalar(g.ch(['str', 'str', 'int'])) if p['sem'] != 'dict' else og.mapping(c)
    if u['u'] == 'unary' and len(req) == 1 and g.p(0.12):
        opt = [f for f in g.fields_of(c) if f.get('default')]
        if opt:
            f = g.ch(opt)
            u['kw'] = {f['name']: g.value_for(f['node'], 0.95)}
    cbs = [cb for cb, role in g.cbids if any(cb.startswith(b + '.') or cb.startswith(b + '#') for b in own)]
    f = g.faults(0.45, cbs=cbs or None, names=sorted(U.EXC) if g.p(0.2) else None)
    if f:
        u['faults'] = f
    return u


def as_op(u):
    """the use as an operation of dst.ops"""
    op = {'o': 'parse', 'c': u['c'], 'v': u['v']} if u['u'] == 'parse' else \
        {'o': 'new', 'c': u['c'], 'arg': u['v'], 'kw': u.get('kw', {})}
    if 'faults' in u:
        op['faults'] = u['faults']
    return op


def gen(rng, i):
    g = gen_world(rng)
    og = opgen.OpGen(g)
    og.fill_pool(2, 2)
    uses = [gen_use(g, og) for _ in range(rng.choice([2, 3, 4, 5]))]
    scn = og.world()
    nt = rng.choice([1, 1, 2, 3])
    nt = min(nt, len(uses))
    scn['threads'] = [uses[t::nt] for t in range(nt)]
    scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.4)}
    return scn


def attempt(world, ctx, f):
    """outcome of f(): {'ok':..} or {'err': names of the classes of the error}"""
    TL.ctx = ctx
    try:
        val = f()
    except (U.Invalid, sched.SimAbort):
        raise
    except BaseException as e:
        TL.ctx = None
        e.__traceback__ = None
        return {'err': [c.__name__ for c in type(e).__mro__], 'm': str(ops.ADDR.sub('0x', str(e)))}
    TL.ctx = None
    out = {'ok': canon(val)}
    for i, p in enumerate(world.pool):
        if val is p and type(val) in U.REG:
            out['is'] = i
    return out


def use(world, u):
    cls = ops.get_cls(world, u['c'])
    v = dec(u['v'], world)
    if u['u'] == 'parse':
        return cls.parse(v)
    return cls(v, **{k: dec(x, world) for k, x in u.get('kw', {}).items()})


def parser_names(world, c):
    # (the definition nearest to the class decides whether a name is a parser)
    mine = {world.classes[n]: s for n, s in world.specs.items() if n in world.classes}
    nearest = {}
    for b in world.classes[c].__mro__:
        for p in mine.get(b, {}).get('parsers', ()):
            nearest.setdefault(p['name'], not p.get('nopar'))
    return [n for n in ('from_mapping', 'from_instance', 'from_json') if nearest.get(n, True)] + \
        [n for n in nearest if nearest[n] and n not in ('from_mapping', 'from_instance', 'from_json')]


def expect(world, u):
    """the outcomes that are acceptable: a list of ('ok', outcome) / ('parsefailure',) / ('typeerror',) / ('raise',)"""
    cls = ops.get_cls(world, u['c'])

    def solo(f):
        return norm(forked(lambda: attempt(world, Ctx(None, u.get('faults', ())), f)))

    single = {}
    if not u.get('kw'):
        for n in parser_names(world, u['c']):
            single[n] = solo(lambda: getattr(cls, n)(dec(u['v'], world)))
    good = [n for n in single if 'ok' in single[n]]
    if u['u'] == 'parse':
        if not good:
            return [('parsefailure',)], good
        if len(good) == 1:
            return [('ok', single[good[0]])], good
        return [('typeerror',)], good
    fields = world.field_specs(u['c'])
    req = [n for n, (_, f) in fields.items() if not f.get('default')]
    unary = world.specs[u['c']].get('unary')
    unary = len(req) != 1 if unary is None else unary
    if u.get('kw'):
        unary = False
    if len(req) == 1:
        triv = solo(lambda: cls(**{req[0]: dec(u['v'], world), **{k: dec(x, world) for k, x in u.get('kw', {}).items()}}))
    else:
        triv = None
    tsum = ('ok', triv) if triv is not None and 'ok' in triv else ('raise',)
    if triv is not None:
        good = good + (['<field>'] if 'ok' in triv else [])
    if not unary:
        return [tsum], good
    npar = len([n for n in good if n != '<field>'])
    if npar == 0:
        return [tsum], good
    if npar > 1:
        return [('raise',)], good
    par = ('ok', single[good[0]])
    if par[1]['ok'] == ['n']:
        return [par, tsum, ('raise',)], good
    if tsum[0] == 'ok':
        return [('typeerror',)], good
    return [par], good


def matches(exp, got):
    if exp[0] == 'ok':
        return got == exp[1]
    if exp[0] == 'parsefailure':
        return 'err' in got and 'ParseFailure' in got['err']
    if exp[0] == 'typeerror':
        return 'err' in got and 'TypeError' in got['err'] and 'ParseFailure' not in got['err']
    return 'err' in got and 'Exception' in got['err']


def run(scn):
    world = opgen.build(scn)
    threads = scn['threads']
    flat = [(t, k, u) for t, us in enumerate(threads) for k, u in enumerate(us)]
    exp = {(t, k): expect(world, u) for t, k, u in flat}
    got = {}
    trace = None
    s = {'uses': len(flat), 'steps': 0}
    fired = []
    if len(threads) > 1:
        opc = bool(scn['sched']['op'])
        strat = sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'], {t: 80 * len(us) for t, us in enumerate(threads)})
        sim = sched.Sim(strat)

        def body(t, us):
            def f():
                for k, u in enumerate(us):
                    ctx = Ctx(sim, u.get('faults', ()))

                    def call():
                        with sched.traced(ctx, opc):
                            return use(world, u)
                    got[t, k] = attempt(world, ctx, call)
                    fired.extend(ctx.fired)
            return f

        sim.run([body(t, us) for t, us in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'] = sim.step
        s['switches'] = len(sim.switches)
    else:
        for t, k, u in flat:
            ctx = Ctx(None, u.get('faults', ()))
            got[t, k] = attempt(world, ctx, lambda: use(world, u))
            fired.extend(ctx.fired)
    for f in fired:
        s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
    sigs = []
    some = False
    for t, k, u in flat:
        acc, good = exp[t, k]
        g = norm(got[t, k])
        key = 'expect-' + acc[0][0] + ('-ambiguous' if len(good) > 1 else '')
        s[key] = s.get(key, 0) + 1
        some = some or bool(good)
        if not any(matches(e, g) for e in acc):
            raise Viol(f"{u['u']}-{acc[0][0]}-{'ok' if 'ok' in g else 'err'}",
                       f'{short(u)}: succeeding interpretations {good}, so it must give {short([list(e) for e in acc])}, '
                       f'but gave {short(g)}', **({'schedule': trace} if trace else {}))
        sigs.append(zlib.crc32(json.dumps([scn['classes'], u, good, g]).encode()))
    return {'nontrivial': some, 'sum': s, 'sigs': sigs, 'sample': some and bool(fired)}
