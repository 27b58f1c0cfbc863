"""C27: field objects and the textual form of records tell the truth."""
import json

from dst import ops, reads
from dst import userland as U
from dst.props import c23
from dst.userland import dec, canon, NOREC, TL

ID = 'C27'
QUICK = 20000
THOROUGH = 150000
RULE = ('a seeded world of record classes (tags, plain and factory defaults of any truth value, parents and children, frozen and mutable) '
        'and records; a history of assignments, mutations, deletions, interrupted and completed operations, definitions of further child '
        'classes, and questions: the textual form with every mix of filters, what the field objects (reached from the class that declares '
        'the field or from a child) tell about names, owners, tags and defaults, filtering fields by tags in chains, and class options; in '
        'sequence or from 2-3 threads under one seeded schedule, with comparisons, factories, sort keys and textual forms of values '
        'failing by a seeded plan; every answer against the declaration and the model of exports; non-trivial: a question after some other '
        'operation')
MEASURE = 'crc of (operations with the kinds of their outcomes, switch sequence)'
REAL = ['records (all of it)', 'CPython threads, released one at a time']
STUB = ['user callbacks, comparison and textual form of user values', 'asynchronous interrupts', 'thread scheduling, locks and clocks']
ASSUMPTIONS = ['field objects are reached as attributes of the class or through its mapping of fields, as in the repository\'s own tests']

TAGS = ['t1', 't2', 't3', 'm1', 'm2', 'noorder', 'never']


def gen(rng, i):
    count = [0]

    def read(g, og):
        k = rng.random()
        if k < 0.4:
            r, c = g.ch(og.recs)
            op = {'o': 'repr', 'r': ['ref', r]}
            if g.p(0.6):
                op['ex'] = g.export_args(c)
                sort = op['ex'].get('sort')
                if isinstance(sort, list) and g.p(0.2):
                    op['faults'] = [{'cb': sort[1], 'when': ['mod', 3, rng.randrange(3)], 'act': ['raise', g.ch(U.ORDINARY)]}]
            if g.p(0.2):
                op.setdefault('faults', []).append({'cb': 'hk-repr', 'when': g.ch(['all', ['mod', 2, rng.randrange(2)]]),
                                                    'act': ['raise', g.ch(U.ORDINARY)]})
            return op
        c = g.ch(sorted(g.specs))
        if k < 0.45:
            return {'o': 'meta', 'c': c}
        if k < 0.52 and count[0] < 2 and not defs_off:
            count[0] += 1
            spec = g.cls(f'D{count[0]}', bases=[c], p_post=0, p_parsers=0, p_pre=0, no_self=True)
            del g.specs[spec['name']]
            return {'o': 'define', 'spec': spec, 'noise': 1}
        tags = sorted({t for f in g.fields_of(c) for t in c23.all_tags(f)} | {g.ch(TAGS)})
        op = {'o': 'field', 'c': c, 'what': g.ch(['names', 'tagged', 'tagged', 'facts', 'facts', 'is_default', 'is_default',
                                                  'make_default', 'make_default'])}
        if op['what'] in ('tagged', 'facts'):
            op['ts'] = rng.sample(tags, min(len(tags), g.ch([1, 1, 2]))) if op['what'] == 'tagged' else tags
            if g.p(0.5):
                op['fresh'] = 1
            if op['what'] == 'tagged' and g.p(0.3):
                op['clear'] = 1
        if op['what'] not in ('names', 'tagged'):
            f = g.ch(g.fields_of(c))
            op['n'] = f['name']
            if g.p(0.5):
                op['attr'] = 1
            d = f.get('default')
            if op['what'] == 'is_default':
                if g.p(0.5) and d:
                    op['v'] = json.loads(json.dumps(d[-1][-1] if d[0] == 'fac' else d[-1]))
                    if g.p(0.3):
                        from dst.props.c02 import twist
                        op['v'] = twist(rng, op['v'])
                else:
                    op['v'] = reads.field_value(g, f)
            if op['what'] == 'make_default':
                if not d:
                    op['what'] = 'facts'
                    op['ts'] = tags
                elif d[0] == 'fac' and g.p(0.4):
                    act = ['raise', g.ch(U.ORDINARY)] if g.p(0.7) else ['ret', g.ch([['n'], ['l', []], ['i', 0]])]
                    op['faults'] = [{'cb': d[1], 'act': act}]
        return op

    defs_off = rng.random() < 0.5
    return reads.gen(rng, read, ordered=0.2, p_default=0.65)


def model(world, op):
    if op['o'] == 'repr':
        r = dec(op['r'], world)
        if r is NOREC:
            return Ellipsis
        items = c23.model(world, {'o': 'to_dict', 'r': op['r'], 'ex': op.get('ex')})
        parts = ', '.join(f'{k}={v!r}' for k, v in items.items())
        return ops.ADDR.sub('0x', f'{type(r).__qualname__}({parts})')
    c = op['c']
    fs = world.field_specs(c)
    if op['o'] == 'meta':
        spec = world.specs[c]
        return [bool(spec.get('frozen')), {'strict': 'check_strict'}.get(spec.get('style') or 'hollow', spec.get('style') or 'hollow')]
    what = op['what']
    if what == 'names':
        return [list(fs), 'FieldDict', [True] * len(fs)]
    if what == 'tagged':
        return ['FieldDict', [[n, True] for n, (_, f) in fs.items() if c23.all_tags(f) >= set(op['ts'])]]
    spec, f = fs[op['n']]
    d = f.get('default')
    if what == 'facts':
        tags = c23.all_tags(f)
        return [op['n'], world.classes[spec['name']], d is not None, {t: t in tags for t in op['ts']}, len(tags)]
    if what == 'is_default':
        v = dec(op['v'], world)
        if d is None or d[0] == 'fac':
            return False
        return world.defaults[spec['name'], op['n']] == v
    if d[0] != 'fac':
        return ['made', world.defaults[spec['name'], op['n']], []]
    ctx = U.Ctx(None, op.get('faults', ()))
    old = getattr(TL, 'ctx', None)
    TL.ctx = ctx
    try:
        v = U.Callback(d[1], 'factory', d[2])()
    except Exception as e:
        return Ellipsis if not ctx.injected else None
    finally:
        TL.ctx = old
    return ['made', v, ctx.log]


def same(world, op):
    def f(res, want):
        if op['o'] == 'field' and op['what'] == 'make_default' and type(res) is list and len(res) == 3:
            if res[2] != want[2]:
                return 'calls'
            factory = world.field_specs(op['c'])[op['n']][1]['default'][0] == 'fac'
            return None if res[1] is want[1] or factory and canon(res[1]) == canon(want[1]) else 'value'
        if op['o'] == 'repr':
            return None if type(res) is str and res == want else 'text'
        if res == want and canon(res) == canon(want):
            return None
        return op.get('what', op['o'])
    return f


def is_read(op):
    return op['o'] in ('repr', 'field', 'meta') and not op.get('noise')


def run(scn):
    return reads.run(scn, model, is_read, same)
