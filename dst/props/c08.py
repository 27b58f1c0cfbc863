"""C08: factory defaults are called freshly, once, and only when needed."""
from dst import fillcheck, sched
from dst import userland as U
from dst.gen import flavour

ID = 'C08'
QUICK = 22000
THOROUGH = 400000
RULE = ('seeded record classes with 2-6 fields most of which have factory or plain defaults (own and inherited); 2-8 '
        'constructions each with a seeded subset of fields given, factories failing or returning odd values by a seeded plan, '
        'half of them from 2-4 threads under a seeded schedule; factory calls, their order and the identity of stored objects '
        'are compared with the declaration, under several string-hash seeds; non-trivial: a factory ran')
MEASURE = 'crc of (class declaration, construction, fault plan, result kind) of each construction with a callback or a failure'
REAL = ['records (all of it)']
STUB = ['user callbacks (factories)', 'thread scheduling', 'locks and clocks']
ASSUMPTIONS = ['factories of a construction that fails otherwise may or may not have been called']


def gen(rng, i):
    g = flavour(rng)
    for k in range(rng.choice([1, 1, 2, 3])):
        g.cls(f'A{k}', p_post=0.2, post_modes=['none', 'self'], p_parsers=0, p_pre=0.15, p_default=0.85, p_inherit=0.6,
              n_fields=rng.choice([2, 3, 4, 5, 6]), style=g.ch(['hollow', 'hollow', 'check']))
    names = sorted(g.specs)
    c = g.ch(names)
    conc = rng.random() < 0.5
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4]) if conc else 1):
        ops_ = []
        for _ in range(rng.choice([1, 2]) if conc else rng.choice([2, 4, 8])):
            n = c if g.p(0.8) else g.ch(names)
            op = fillcheck.gen_op(g, n, near=0.97, faults=0, p_opt=0.35)
            cbs = [f['default'][1] for f in g.fields_of(n) if f.get('default') and f['default'][0] == 'fac']
            if cbs and g.p(0.35):
                act = ['raise', g.ch(sorted(U.EXC))] if g.p(0.7) else ['ret', g.ch([['n'], ['l', []], ['e'], ['i', 0]])]
                op['faults'] = [{'cb': g.ch(cbs), 'act': act}]
            ops_.append(op)
        threads.append(ops_)
    scn = {'classes': list(g.specs.values()), 'threads': threads}
    if conc:
        scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.4)}
    return scn


def run(scn):
    return fillcheck.run(scn, want=('factory',))
