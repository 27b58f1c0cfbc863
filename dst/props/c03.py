"""C03: no operation modifies the objects the caller handed in."""
import json
import zlib
from types import GeneratorType

from dst import ops, opgen
from dst import userland as U
from dst.common import Viol, forked, short, norm
from dst.gen import flavour
from dst.props.c02 import INTR, plan_interrupt

ID = 'C03'
QUICK = 16000
THOROUGH = 100000
RULE = ('a seeded world and 3-8 public operations, each executed plainly, with failing callbacks and interrupted at seeded '
        'steps; every argument object, shared object and declared default is described in full (types, order, contents) before '
        'and after; non-trivial: an operation that failed or was interrupted, or one given a mutable argument')
MEASURE = 'crc of (operation, outcome) of each executed operation'
REAL = ['records (all of it)', 'json', 'pickle', 'copy']
STUB = ['user callbacks', 'asynchronous interrupts', 'streams', 'locks and clocks']
ASSUMPTIONS = ['one-shot iterators given as selections are consumed by being read; only re-readable arguments are compared']


def gen(rng, i):
    if rng.random() < 0.35:
        return gen_fills(rng)
    g = flavour(rng, share=rng.random() < 0.3)
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.2, p_parsers=0.3, p_default=0.5)
    og = opgen.OpGen(g)
    og.fill_pool(rng.choice([1, 3]), rng.choice([2, 4]))
    og.fill_selects(rng.choice([0, 1, 2]))
    og.fill_handles(rng.choice([0, 1, 2]))
    hist = []
    for _ in range(rng.choice([3, 4, 6, 8])):
        op = og.op(None, None, faults=0.35)
        if rng.random() < 0.4:
            op['intr'] = [g.ch(INTR), rng.random()]
        if op['o'] in ('from_json_io', 'to_json', 'pickle_rt') and op.get('io', op['o'] == 'from_json_io') and rng.random() < 0.3:
            op['fail_at'] = rng.choice([1, 2, 3])
            op['exc'] = g.ch(['OSError', 'ValueError', 'KeyboardInterrupt'])
        hist.append(op)
    if rng.random() < 0.3:
        hist.insert(rng.randrange(len(hist)), og.op('setattr', faults=0))
    scn = og.world()
    scn['history'] = hist
    return scn


def holds_mutable(n):
    """a field that takes mutable values and looks into them"""
    return n['k'] in ('iter', 'map') or any(holds_mutable(x) for x in n.get('m', ()))


def gen_fills(rng):
    """many constructions from mutable values that are to be converted"""
    g = flavour(rng, share=rng.random() < 0.2)
    g.o['hashable'] = False
    g.want = holds_mutable
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.05, p_parsers=0.1, p_default=0.3, style=g.ch(['check', 'check', 'strict', 'hollow']))
    og = opgen.OpGen(g)
    og.fill_pool(1, 2)
    hist = []
    for _ in range(rng.choice([6, 10, 16])):
        op = og.op(g.ch(['new', 'new', 'new', 'new', 'from_mapping', 'from_instance', 'parse']), faults=0.15)
        if rng.random() < 0.05:
            op['intr'] = [g.ch(INTR), rng.random()]
        hist.append(op)
    scn = og.world()
    scn['history'] = hist
    return scn


ONE_SHOT = (GeneratorType, type(iter([])), map, zip)


def snap(v):
    return json.dumps(U.canon(v))


def run(scn):
    world = opgen.build(scn)
    s = {'ops': 0, 'steps': 0}
    trail = []
    hard = False
    for op in scn['history']:
        o = plan_interrupt(world, op) if isinstance(op.get('intr'), list) else op
        pool = [snap(p) for p in world.pool]
        defs = {k: snap(v) for k, v in world.defaults.items()}
        sels = [sel_probe(world, j) for j in range(len(world.selects))]
        world.notes = notes = _Notes()
        out, log, ctx = ops.run_solo(world, o)
        world.notes = None
        s['ops'] += 1
        s['steps'] += ctx.steps
        for f in ctx.fired:
            s['fault:' + f[1]] = s.get('fault:' + f[1], 0) + 1
        if ctx.interrupt_exc is not None:
            s['fault:interrupt'] = s.get('fault:interrupt', 0) + 1
        hard = hard or 'err' in out or bool(notes)
        trail.append([o, norm(out)])
        changed = None
        if o['o'] in ('setattr', 'delattr'):
            changed = o['r'][1] if o['r'][0] == 'ref' else None
        for obj, b in notes:
            if o['o'] in ('setattr', 'delattr') and type(obj) in U.REG:
                continue
            a = snap(obj)
            if a != b:
                raise Viol('argument', f'{short(o)} ({short(norm(out), 200)}) changed its argument {short(b)} into {short(a)}')
        for j, b in enumerate(pool):
            a = snap(world.pool[j])
            if a != b:
                if changed is not None:
                    # records that refer to the assigned record show the change as well
                    if j == changed or world.pool[j] is world.pool[changed]:
                        continue
                raise Viol('shared', f'{short(o)} ({short(norm(out), 200)}) changed object {j} from {short(b)} into {short(a)}')
        for k, b in defs.items():
            a = snap(world.defaults[k])
            if a != b:
                raise Viol('default', f'{short(o)} changed the default of {k} from {short(b)} into {short(a)}')
        for j, b in enumerate(sels):
            a = sel_probe(world, j)
            if a != b:
                raise Viol('selection', f'{short(o)} changed selection {j}: it gave {short(b)}, now {short(a)}')
    return {'nontrivial': hard, 'sum': s, 'sigs': [zlib.crc32(json.dumps(trail).encode())], 'sample': hard}


class _Notes(list):
    """argument objects with their description at the time they were handed over"""

    def append(self, v):
        if not isinstance(v, ONE_SHOT) and type(v).__name__ not in ('OneShot', 'chain', 'dict_keys', 'dict_items', 'Callback'):
            super().append((v, snap(v)))

    def extend(self, vs):
        for v in vs:
            self.append(v)


def sel_probe(world, j):
    """what a selection does, on a few mappings"""
    s = world.selects[j]
    out = []
    keys = ['x', 'y', 'z', 'w', 'u', 'v', 'alpha', 'beta', 'n', 'm', 'p', 'q', 'X', 'Y', 'Z', 'K']
    for ks in (keys, keys[:12], [], ['x', 'X']):
        try:
            out.append(U.canon(s({k: k for k in ks})))
        except Exception as e:
            out.append([type(e).__name__, str(e)])
    return norm(out)
