"""C05: checked fields hold only values that passed type check, coercion and validation."""
from dst import fillcheck, sched
from dst.gen import flavour

ID = 'C05'
QUICK = 32000
THOROUGH = 500000
RULE = ('seeded record classes over all supported hints with random coercers, validators, assertions, pre_bind additions and '
        'inheritance; 2-6 constructions each (by keyword, mapping, instance, selection, position), callbacks failing or '
        'returning wrong values by a seeded plan, a third of them from 2-3 threads under a seeded schedule; every field value, '
        'error and callback sequence is compared with an independent reference interpreter; non-trivial: a callback ran or the '
        'construction failed')
MEASURE = 'crc of (class declaration, construction, fault plan, result kind) of each construction with a callback or a failure'
REAL = ['records (all of it)']
STUB = ['user callbacks', 'thread scheduling', 'locks and clocks', 'reference interpreter of filling (dst/model.py) as oracle']
ASSUMPTIONS = ['which of several failing fields is reported, and how many elements of a container are filled before one fails, '
               'is not prescribed']


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.25, nest=rng.random() < 0.3)
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0, p_parsers=0, p_pre=0.3, p_default=0.25)
    names = sorted(g.specs)
    fillcheck.hollow_validators(g, names)
    conc = rng.random() < 0.3
    threads = []
    for _ in range(rng.choice([2, 2, 3]) if conc else 1):
        threads.append([fillcheck.gen_op(g, g.ch(names)) for _ in range(rng.choice([1, 2]) if conc else rng.choice([2, 4, 6]))])
    scn = {'classes': list(g.specs.values()), 'threads': threads}
    if conc:
        scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.4)}
    return scn


def run(scn):
    return fillcheck.run(scn, want=('value', 'error', 'log'))
