"""C23: exports contain exactly the requested fields."""
import json

from dst import ops, reads
from dst import userland as U
from dst.userland import dec, canon, NOREC

ID = 'C23'
QUICK = 20000
THOROUGH = 150000
RULE = ('a seeded world of record classes (tags, plain and factory defaults, parents and children, frozen and mutable) and '
        'records holding defaults, values equal to defaults and others; a history of assignments, deletions, interrupted and '
        'completed reads, and exports to dictionaries and JSON with every mix of filters and orders, through the record, the '
        'class or a related class, in sequence or from 2-3 threads under one seeded schedule, with the comparison of values to '
        'defaults failing by a seeded plan; every export against a model of the filters (keys, their order, the very values); '
        'non-trivial: an export after some other operation')
MEASURE = 'crc of (operations with the kinds of their outcomes, switch sequence)'
REAL = ['records (all of it)', 'json', 'CPython threads, released one at a time']
STUB = ['comparison of user values, sort keys', 'asynchronous interrupts', 'thread scheduling, locks and clocks']
ASSUMPTIONS = []


def gen(rng, i):
    def read(g, og):
        r, c = g.ch(og.recs)
        op = {'o': 'to_dict' if g.p(0.8) else 'to_json', 'r': ['ref', r]}
        if g.p(0.85):
            op['ex'] = g.export_args(c)
        if g.p(0.3):
            op['how'] = 'cls'
            if g.p(0.4):
                op['via'] = g.ch(sorted(g.specs))
        if op['o'] == 'to_dict' and g.p(0.3):
            op['ew'] = 1
        sort = op.get('ex', {}).get('sort')
        if isinstance(sort, list) and g.p(0.2):
            op['faults'] = [{'cb': sort[1], 'when': ['mod', 3, g.rng.randrange(3)], 'act': ['raise', g.ch(U.ORDINARY)]}]
        return op
    return reads.gen(rng, read, ordered=0.2, p_default=0.65)


def model(world, op):
    r = dec(op['r'], world)
    if r is NOREC:
        return Ellipsis
    names = {id(c): n for n, c in world.classes.items()}
    owner = op.get('via') or names[id(type(r))]
    ex = op.get('ex') or {}
    black = set(ex['blacklist'][1]) if 'blacklist' in ex else set()
    white = set(ex['whitelist'][1]) if 'whitelist' in ex else set()
    if 'blacklist' in ex and ex['blacklist'][0] == 'one':
        black = {ex['blacklist'][1][0]}
    if 'whitelist' in ex and ex['whitelist'][0] in ('one', 'sub'):
        white = {ex['whitelist'][1][0]}
    items = []
    for n, (spec, f) in world.field_specs(owner).items():
        if n not in white and black & all_tags(f):
            continue
        d = f.get('default')
        try:
            v = getattr(r, n)
        except AttributeError:
            if d is None:
                raise
            if ex.get('include_defaults'):
                items.append((n, dec(d[2][1]) if d[0] == 'fac' else world.defaults[spec['name'], n]))
            continue
        if n in white or ex.get('include_defaults') or d is None or d[0] == 'fac' or not world.defaults[spec['name'], n] == v:
            items.append((n, v))
    sort = ex.get('sort')
    if isinstance(sort, list):
        items.sort(key=lambda t: U.apply_sem(sort[2], t[0]))
    elif sort == -1:
        items.sort(key=lambda t: t[0], reverse=True)
    elif sort:
        items.sort(key=lambda t: t[0])
    out = dict(items)
    return out if op['o'] == 'to_dict' else json.dumps(out)


def all_tags(f):
    out = set(f.get('tags', ()))
    out |= {t[1] for t in f['node'].get('toks', ()) if t[0] == 'tag'}
    return out


def same(world, op):
    def f(res, want):
        if op['o'] == 'to_json':
            return None if res == want else 'text'
        if type(res) is not dict:
            return 'type'
        if list(res) != list(want):
            return 'keys'
        for k in res:
            if res[k] is not want[k] and canon(res[k]) != canon(want[k]):
                return 'value'
    return f


def is_read(op):
    return op['o'] in ('to_dict', 'to_json') and not op.get('noise')


def run(scn):
    return reads.run(scn, model, is_read, same)
