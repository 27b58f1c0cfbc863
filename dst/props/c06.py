"""C06: union fields pick the best match whatever other members fail."""
import json

from dst import fillcheck, sched
from dst.gen import flavour

ID = 'C06'
QUICK = 24000
THOROUGH = 500000
RULE = ('seeded record classes whose fields are unions (plain, optional, nested in containers and in each other) of 2-4 members '
        'with coercers and validators; 2-6 constructions each, member callbacks failing or misbehaving by a seeded plan, a third '
        'of them from 2-3 threads under a seeded schedule; results are compared with an independent reference interpreter; '
        'non-trivial: a callback ran or the construction failed')
MEASURE = 'crc of (class declaration, construction, fault plan, result kind) of each construction with a callback or a failure'
REAL = ['records (all of it)']
STUB = ['user callbacks', 'thread scheduling', 'locks and clocks', 'reference interpreter of filling (dst/model.py) as oracle']
ASSUMPTIONS = []


def has_union(node):
    return any(f'"k": "{k}"' in json.dumps(node) for k in ('union', 'optional', 'self'))


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.25, nest=rng.random() < 0.6)
    for k in range(rng.choice([1, 1, 2])):
        g.want = has_union
        g.cls(f'A{k}', p_post=0, p_parsers=0, p_pre=0.3, p_default=0.15, n_fields=rng.choice([1, 2, 3]),
              style=g.ch(['check', 'check', 'check', 'strict', 'hollow']))
        g.want = None
    names = sorted(g.specs)
    fillcheck.hollow_validators(g, names)
    conc = rng.random() < 0.3
    threads = []
    for _ in range(rng.choice([2, 2, 3]) if conc else 1):
        threads.append([fillcheck.gen_op(g, g.ch(names), faults=0.5)
                        for _ in range(rng.choice([1, 2]) if conc else rng.choice([2, 4, 6]))])
    scn = {'classes': list(g.specs.values()), 'threads': threads}
    if conc:
        scn['sched'] = {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.4)}
    return scn


def union_fields(world, name):
    return [f for f, (_, fs) in world.field_specs(name).items() if has_union(fs['node'])]


def run(scn):
    return fillcheck.run(scn, fields_of=union_fields, want=('value', 'error', 'log'))
