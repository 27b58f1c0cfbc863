"""C04: interrupts and cancellations always reach the caller unchanged."""
import json
import zlib

from dst import ops, opgen
from dst import userland as U
from dst.common import Viol, forked, short, norm
from dst.gen import flavour

ID = 'C04'
QUICK = 9000
THOROUGH = 80000
RULE = ('a seeded world and 1-4 public operations or class definitions; each is first run undisturbed to find its callback '
        'invocations and steps, then run again with one BaseException injected at a seeded callback invocation, stream call or '
        'execution step (several points per operation); non-trivial: the exception was actually raised inside the operation')
MEASURE = 'crc of (operation, injection point, exception type)'
REAL = ['records (all of it)', 'json', 'pickle', 'copy']
STUB = ['user callbacks', 'asynchronous interrupts', 'streams', 'locks and clocks']
ASSUMPTIONS = ['asynchronous interrupts are raised between two lines or two bytecodes of the code under test']


def gen(rng, i):
    several = rng.random() < 0.3  # arguments with several interpretations
    if several:
        from dst.props import c07
        g = c07.gen_world(rng)
    else:
        g = flavour(rng, share=rng.random() < 0.3)
        for k in range(rng.choice([1, 1, 2])):
            g.cls(f'A{k}', p_post=0.4, p_parsers=0.5, p_pre=0.3)
    og = opgen.OpGen(g)
    og.fill_pool(rng.choice([1, 3]), rng.choice([1, 3]))
    og.fill_selects(rng.choice([0, 1]))
    og.fill_handles(rng.choice([0, 1]))
    # (a factory that a class overrides may be a plain function, from which nothing can be selected)
    names = {p['name'] for spec in g.specs.values() for p in spec.get('parsers', ())}
    og.handles = [h for h in og.handles if h[1] not in names]
    todo = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < 0.12:
            n0 = len(g.cbids)
            known = dict(g.specs)
            spec = g.cls('N0', p_pre=0.6, p_parsers=0.4)
            spec['pre_hook'] = g.cbid('pre_bind')
            g.specs = known
            g.cbids = g.cbids[:n0]
            op = {'o': 'define', 'spec': spec}
        elif several and rng.random() < 0.7:
            op = c07.as_op(c07.gen_use(g, og))
        else:
            kinds = opgen.BUILDS if rng.random() < 0.75 else opgen.READS + ['handle', 'handle', 'sel_call']
            op = og.op(None, None, faults=0.3, kinds=kinds)
        # injection points: at a callback, asynchronous (line or bytecode), at a stream call
        pts = []
        for _ in range(rng.choice([2, 3, 5])):
            k = rng.random()
            x = g.ch(sorted(U.BASE))
            if k < 0.5:
                pts.append(['cb', rng.random(), x])
            elif k < 0.9:
                pts.append(['step', rng.random(), x, int(rng.random() < 0.5)])
            else:
                pts.append(['io', rng.choice([1, 2, 3]), x])
        op['points'] = pts
        todo.append(op)
    scn = og.world()
    scn['ops'] = todo
    return scn


def run(scn):
    world = opgen.build(scn)
    s = {'ops': 0, 'injected': 0, 'steps': 0}
    sigs = []
    for op in scn['ops']:
        base = {k: v for k, v in op.items() if k != 'points'}

        def plain(opc):
            def f():
                out, log, ctx = ops.run_solo(world, base, bool(opc))
                return [ctx.steps, log, out]
            return forked(f)

        counts = {}
        s['ops'] += 1
        for pt in op['points']:
            opc = pt[3] if pt[0] == 'step' else 0
            if opc not in counts:
                counts[opc] = plain(opc)
            steps, log, _ = counts[opc]
            if pt[0] == 'cb':
                if not log:
                    continue
                if len(log) > 1 and pt[1] < 0.1:
                    n = 0
                else:
                    n = int(pt[1] * len(log))
                ctx = U.Ctx(None, op.get('faults', ()))
                ctx.raise_at_call = (n, pt[2])
            elif pt[0] == 'step':
                ctx = U.Ctx(None, op.get('faults', ()))
                ctx.interrupt_at = 1 + int(pt[1] * steps)
                ctx.interrupt_name = pt[2]
            else:
                if base['o'] not in ('from_json_io', 'to_json', 'pickle_rt'):
                    continue
                ctx = U.Ctx(None, op.get('faults', ()))
                base2 = {**base, 'fail_at': pt[1], 'exc': pt[2]}
                if base['o'] != 'from_json_io':
                    base2['io'] = 1

            def hit():
                out = ops.outcome(world, base2 if pt[0] == 'io' else base, ctx, bool(opc))
                return [out, ctx.interrupt_exc is not None, ctx.calls_after, ctx.log[-3:], ctx.steps]

            out, done, after, tail, steps2 = forked(hit)
            s['steps'] += steps2
            if not done:
                continue
            s['injected'] += 1
            s[f'fault:{pt[0]}-{pt[2]}'] = s.get(f'fault:{pt[0]}-{pt[2]}', 0) + 1
            sigs.append(zlib.crc32(json.dumps([base, pt]).encode()))
            if 'ok' in out:
                raise Viol('swallowed', f'{pt[2]} injected at {pt[0]} into {short(base)} was swallowed: it returned '
                                        f'{short(out["ok"])}', point=pt)
            if not out.get('same'):
                raise Viol('replaced', f'{pt[2]} injected at {pt[0]} into {short(base)} reached the caller as '
                                       f'{short(out["err"])}', point=pt)
            if after:
                raise Viol('continued', f'after {pt[2]} injected at {pt[0]} into {short(base)}, {after} more callbacks ran: '
                                        f'{short(tail)}', point=pt)
    return {'nontrivial': s['injected'] > 0, 'sum': s, 'sigs': sigs, 'sample': s['injected'] > 2}
