"""C16: results do not depend on the process or its hash randomisation."""
import json
import zlib

from dst import ops, opgen, server
from dst.common import Viol, forked, short, norm
from dst.gen import flavour
from dst.userland import Ctx, TL

ID = 'C16'
QUICK = 6000
THOROUGH = 80000
RULE = ('a seeded world (definitions included) and a sequence of 4-20 public operations with assignments, callback faults and '
        'shared selections and exporters, executed in three processes that differ in string-hash seed and memory layout; the '
        'transcripts (values with order, texts, kinds of error with their causes, callback order and arguments) must be '
        'identical; non-trivial: at least one operation succeeded and one of exports, texts or callbacks took part')
MEASURE = 'crc of (scenario, transcript)'
REAL = ['records (all of it)', 'json', 'pickle', 'copy', 'processes with different hash seeds']
STUB = ['user callbacks', 'byte and text streams', 'locks and clocks (simulated)', 'memory layout (junk allocated first)']
ASSUMPTIONS = ['sets whose own iteration order depends on the hash seed are not given as values; messages of errors are not compared']

N_SERVERS = 2


def setup():
    server.start(N_SERVERS)


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.3, sets=False)
    for k in range(rng.choice([1, 2, 2, 3])):
        g.cls(f'A{k}', p_post=0.25, p_parsers=0.35, n_fields=rng.choice([1, 2, 3, 4, 5, 6]), p_default=rng.choice([0.3, 0.6, 0.9]))
        if g.p(0.3):
            g.specs[f'A{k}']['pre_hook'] = g.cbid('pre_bind')
    og = opgen.OpGen(g)
    og.fill_pool(rng.choice([2, 3, 4]), rng.choice([2, 3]))
    og.fill_selects(rng.choice([1, 2]))
    og.fill_handles(rng.choice([0, 1, 2]))
    prog = []
    c = g.ch(sorted(g.specs))
    for _ in range(rng.choice([4, 7, 12, 20])):
        if g.p(0.12):
            op = og.op('setattr', faults=0)
        elif g.p(0.35):
            op = og.op(g.ch(['to_dict', 'to_json', 'repr', 'new', 'new', 'tags', 'parse']), c if g.p(0.6) else None, faults=0.25)
        else:
            op = og.op(None, c if g.p(0.6) else None, faults=0.25)
        if op['o'] == 'tags':
            op['t'] = g.ch(g.tagnames)
        prog.append(op)
    scn = og.world()
    scn['program'] = prog
    scn['junk'] = [rng.randrange(2000) for _ in range(N_SERVERS)]
    return scn


def kind(e):
    out = {'t': e['t']}
    if 'c' in e:
        out['c'] = kind(e['c'])
    return out


def execute(scn, junk):
    keep = [type('Junk', (), {}) for _ in range(junk % 7)] + [object() for _ in range(junk)]
    TL.ctx = ctx = Ctx(None)
    try:
        world = opgen.build({k: v for k, v in scn.items() if k != 'program'})
    finally:
        TL.ctx = None
    out = [['build', ctx.log, None]]
    fired = {}
    for op in scn['program']:
        o, log, ctx = ops.run_solo(world, op, trace=False)
        if 'err' in o:
            o = {**o, 'err': kind(o['err'])}
        elif op['o'] == 'hash':
            o = {'ok': 'hashed'}
        for f in ctx.fired:
            fired[f[1]] = fired.get(f[1], 0) + 1
        out.append([op['o'], log, o])
    del keep
    return {'out': out, 'fired': fired}


def serve(arg):
    return execute(arg['scn'], arg['junk'])


def run(scn):
    here = norm(forked(lambda: execute(scn, 0)))
    for k in range(N_SERVERS):
        there = norm(server.SERVERS[k].call(ID, {'scn': scn, 'junk': scn['junk'][k]}))
        for j, (a, b) in enumerate(zip(here['out'], there['out'])):
            what = short(scn['program'][j - 1]) if j else 'the definitions'
            if a[2] != b[2]:
                raise Viol('result', f'{what} gives {short(a[2])} here and {short(b[2])} in a process with another hash seed')
            if a[1] != b[1]:
                d = next((x for x in zip(a[1], b[1]) if x[0] != x[1]), 'another number of calls')
                raise Viol('callbacks', f'{what}: callbacks differ between processes: {short(d)}')
    s = {'ops': len(scn['program'])}
    for k, v in here['fired'].items():
        s['fault:' + k] = v
    good = [x for x in here['out'][1:] if 'ok' in x[2]]
    s['succeeded'] = len(good)
    s['callbacks'] = sum(len(x[1]) for x in here['out'])
    shows = any(x[1] or x[0] in ('to_dict', 'to_json', 'repr', 'tags', 'new', 'handle') for x in good)
    return {'nontrivial': bool(good and shows), 'sum': s, 'sigs': [zlib.crc32(json.dumps([scn, here['out']]).encode())],
            'sample': len(good) > 3}
