"""C22: comparisons follow the current field values."""
from dst import reads
from dst.ops import CMP
from dst.userland import dec, REG, NOREC

ID = 'C22'
QUICK = 20000
THOROUGH = 150000
RULE = ('a seeded world of record classes (ordered or not, fields tagged out of the ordering, parents and children, frozen and '
        'mutable) and records that mostly differ in one field; a history of assignments, deletions, interrupted and completed '
        'reads, and comparisons by all six operators, in sequence or from 2-3 threads under one seeded schedule, with the '
        'comparison of user values failing by a seeded plan; every comparison against the comparison of the values the fields '
        'hold, field by field; non-trivial: a comparison after some other operation')
MEASURE = 'crc of (operations with the kinds of their outcomes, switch sequence)'
REAL = ['records (all of it)', 'CPython threads, released one at a time']
STUB = ['comparison of user values (can fail)', 'asynchronous interrupts', 'thread scheduling, locks and clocks']
ASSUMPTIONS = ['the hash of a frozen record, which equality may ask for first, can fail with TypeError without any effect']

REFLECTED = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}


def gen(rng, i):
    def read(g, og):
        a, c = g.ch(og.recs)
        near = [x for x in og.recs if x[1] == c]
        kin = [x for x in og.recs if x[1] in g.specs[c]['bases'] or c in g.specs[x[1]]['bases']]
        b, _ = g.ch(near if g.p(0.75) else kin if kin and g.p(0.6) else og.recs)
        return {'o': g.ch(['eq', 'ne', 'lt', 'le', 'gt', 'ge']), 'a': ['ref', a], 'b': ['ref', b]}
    return reads.gen(rng, read, ordered=0.75, p_default=0.35)


def model(world, op):
    a, b = dec(op['a'], world), dec(op['b'], world)
    if a is NOREC or b is NOREC:
        return Ellipsis
    ta, tb = type(a), type(b)
    if op['o'] in ('eq', 'ne'):
        eq = ta is tb and all(not (getattr(a, n) != getattr(b, n)) for n in REG[ta])
        return eq if op['o'] == 'eq' else not eq
    spec = {id(c): n for n, c in world.classes.items()}
    if not is_ordered(world, spec[id(ta)]) or not is_ordered(world, spec[id(tb)]):
        raise TypeError('not ordered')
    if not issubclass(ta, tb) and not issubclass(tb, ta):
        raise TypeError('other class')

    def key(x):
        return [getattr(x, n) for n, (_, f) in world.field_specs(spec[id(type(x))]).items() if 'noorder' not in f.get('tags', ())]

    if ta is not tb and issubclass(ta, tb):
        return CMP[REFLECTED[op['o']]](key(b), key(a))  # (the class of the one is asked about records of the other)
    return CMP[op['o']](key(a), key(b))


def is_ordered(world, name):
    return bool(world.specs[name].get('ordered'))


def same(world, op):
    def f(res, want):
        if res is not want:
            return 'comparison'
    return f


def is_read(op):
    return op['o'] in CMP and not op.get('noise')


def run(scn):
    return reads.run(scn, model, is_read, same, excused)


def excused(world, op, errs):
    """comparing a frozen record asks for its hash, which leaves out the fields that hold their defaults; that may fail"""
    return op['o'] in ('eq', 'ne') and all(isinstance(e, TypeError) for e in errs) and type(dec(op['a'], world)).is_frozen()
