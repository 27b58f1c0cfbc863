"""C10: pickled records survive crashes and restarts intact."""
import json
import os
import pickle
import zlib

from dst import ops, opgen, sched, server, simio
from dst import userland as U
from dst.common import Viol, HarnessError, short, norm
from dst.gen import flavour
from dst.userland import Ctx, TL, canon, dec

ID = 'C10'
QUICK = 16000
THOROUGH = 90000
RULE = ('seeded record classes (own and inherited fields, nested records, coercers, validators, post_new) and 1-4 records, some '
        'hashed, compared or (mutable ones) assigned before; 1-3 threads export them with to_pickle (every protocol; to bytes or '
        'to a file of a simulated disk, several records per file) under one seeded schedule with failing and short writes, '
        'interrupts and a crash at a seeded disk call; the disk keeps what was synced and a seeded prefix of the rest; a '
        'restarted process with another string-hash seed loads every file through the class or a parent of it, with failing '
        'and chunked reads; non-trivial: a record was loaded after the restart or a cut-short one was refused')
MEASURE = 'crc of (classes, exports, disk content, load outcomes)'
REAL = ['records (all of it)', 'pickle', 'two operating-system processes with different string-hash seeds']
STUB = ['disk (cache, fsync, crash, faults)', 'thread scheduling', 'user callbacks', 'asynchronous interrupts']
ASSUMPTIONS = ['after a short write the file is full and the rest of that file is cut', 'values with identity equality are not used']


def setup():
    server.start(1)


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.2)
    g.tame = rng.random() < 0.6
    for k in range(rng.choice([1, 1, 2, 3])):
        g.cls(f'A{k}', p_post=0.2, post_modes=['hash', 'self', 'none', 'reject', 'attr', 'twin'], p_parsers=0.1, p_inherit=0.5,
              p_default=rng.choice([0.2, 0.5, 0.8]), style=g.ch(['hollow', 'hollow', 'check', 'strict']))
        sp = g.specs[f'A{k}']
        if sp.get('post_new', {}).get('mode') == 'hash' and not sp.get('frozen'):
            sp['post_new']['mode'] = 'none'
        if sp.get('post_new', {}).get('mode') == 'reject' and any(
                f['name'] == sp['post_new']['field'] and f.get('default') for f in g.fields_of(f'A{k}')):
            # (a class may reject its own default, though it takes a value that is equal to it)
            sp['post_new']['mode'] = 'none'
    names = sorted(g.specs)
    pool = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        c = g.ch(names)
        e = g.record_alts(c, 0.98)
        for kw in e[2]:
            for f in g.fields_of(c):
                d = f.get('default')
                if f['name'] in kw and d and d[0] == 'v' and g.p(0.25):
                    kw[f['name']] = twist(g, d[1])
        pool.append(e)
    n = len(pool)
    pre = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        j = rng.randrange(n)
        c = pool[j][1]
        o = g.ch(['hash', 'hash', 'eq', 'setattr', 'copy', 'repr'])
        p = {'o': o, 'r': ['ref', j]}
        if o == 'setattr':
            f = g.ch(g.fields_of(c))
            p['n'], p['v'] = f['name'], g.value_for(f['node'], 0.95)
        if o == 'eq':
            p = {'o': o, 'a': ['ref', j], 'b': ['ref', rng.randrange(n)]}
        pre.append(p)
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        exs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.randrange(n)
            e = {'r': j, 'proto': g.ch([None, 0, 1, 2, 3, 4, 5]), 'io': g.p(0.75), 'sync': g.p(0.5)}
            if g.p(0.15):
                e['sized'] = g.ch(['len', 'never'])
            k = rng.random()
            if k < 0.2:
                e['faults'] = [[g.ch([1, 1, 2, 3]), 'raise', g.ch(['OSError', 'OSError', 'ValueError', 'TypeError', 'KeyboardInterrupt',
                                                                  'MemoryError', 'EOFError']), rng.choice([0, 0.5, 1])]]
            elif k < 0.4:
                e['faults'] = [[g.ch([1, 1, 1, 2]), 'short', rng.choice([0, 0.3, 0.7, 0.99])]]
            elif k < 0.5:
                e['intr'] = [g.ch(sorted(U.BASE)), rng.choice([1, 2, 3, 5, 8, 13, 20])]
            if g.p(0.2):
                e['hash'] = 1
            c = pool[j][1]
            e['via'] = g.ch(g.all_bases(c)) if g.p(0.3) else c
            k = rng.random()
            if k < 0.2:
                e['rfail'] = [g.ch([1, 2, 3, 4]), g.ch(['OSError', 'ValueError', 'TypeError', 'EOFError', 'KeyboardInterrupt', 'AttributeError'])]
            exs.append(e)
        threads.append(exs)
    return {'classes': list(g.specs.values()), 'pool': pool, 'pre': pre, 'threads': threads,
            'disk': {'crash_at': g.ch([None] * 7 + [1, 2, 3, 4, 6, 9]), 'keep': rng.choice([0, 0.5, 0.8, 0.95, 1, 1, 1, 1])},
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.3)}}


def twist(g, e):
    from dst.props.c02 import twist as tw
    return tw(g.rng, json.loads(json.dumps(e)))


def plain_pickles(vals):
    """can the field values be pickled at all (their records: through their own field values)?"""
    try:
        pickle.dumps(vals, 4)
        return True
    except Exception:
        return False


def accepts_unchanged(r):
    """would the class of r build the very same record from its values?"""
    names = U.REG[type(r)]
    try:
        vals = {n: getattr(r, n) for n in names}
        t = type(r)(**vals)
        return type(t) is type(r) and all(norm(canon(getattr(t, n))) == norm(canon(vals[n])) for n in names) \
            and all(deep_ok(v) for v in vals.values())
    except Exception:
        return False


def deep_ok(v, d=0):
    """records nested in the value are rebuilt by pickle as well"""
    if d > 6:
        return True
    if type(v) in U.REG:
        return accepts_unchanged(v)
    if isinstance(v, dict):
        return all(deep_ok(k, d + 1) and deep_ok(x, d + 1) for k, x in list(dict.items(v)))
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(deep_ok(x, d + 1) for x in v)
    if isinstance(v, U.P):
        return deep_ok(v.k, d + 1)
    return True


def has_identity(c):
    s = json.dumps(c)
    return '"Obj"' in s or '"f", "nan"' in s


def same_value(a, b):
    """are the two equal by their own fields, type by type?"""
    return norm(canon(a)) == norm(canon(b))


def run(scn):
    world = opgen.build(scn)
    recs = {j: p for j, p in enumerate(world.pool) if type(p) in U.REG}
    s = {'exports': 0, 'loads': 0, 'steps': 0}
    if not recs:
        return {'nontrivial': False, 'sum': s, 'sigs': []}
    done_pre = []
    for p in scn['pre']:
        try:
            ops.raw(world, p)
        except Exception:
            continue
        if p['o'] == 'setattr':
            done_pre.append(p)
    disk = simio.SimDisk(scn['disk']['crash_at'])
    extents = {}  # file name -> [[record, start, end, ok, kind, export]]
    problems = []
    faults = {}

    def export(t, k, e, sim, state):
        r = recs.get(e['r'])
        if r is None:
            return
        name = f"{t}.{state['n']}"
        ctx = Ctx(sim)
        if e.get('intr'):
            ctx.interrupt_name, ctx.interrupt_at = e['intr']
        f = simio.SimFile(disk, name, e.get('faults', ()), sized=e.get('sized'))
        args = () if e['proto'] is None else (e['proto'],)
        start = disk.size(name)
        TL.ctx = ctx
        err = None
        crashed = False
        try:
            if e.get('hash'):
                try:
                    hash(r)
                except TypeError:
                    pass
            with sched.traced(ctx, bool(scn['sched']['op']) and sim is not None):
                if e['io']:
                    ret = r.to_pickle(*args, io=f)
                else:
                    ret = r.to_pickle(*args)
            TL.ctx = None
            if not e['io']:
                TL.ctx = Ctx(sim)
                if not isinstance(ret, bytes):
                    problems.append(('type', f'to_pickle returned {short(canon(ret))}'))
                f.faults = ()
                f.write(ret)
            if e['sync']:
                disk.fsync(name)
        except (U.Invalid, sched.SimAbort):
            raise
        except BaseException as x:
            err = x
            crashed = isinstance(x, simio.SimCrash)
            x.__traceback__ = None
        TL.ctx = None
        for x in f.fired:
            faults['fault:write-' + x] = faults.get('fault:write-' + x, 0) + 1
        if ctx.interrupt_exc is not None and not f.raised:
            faults['fault:interrupt'] = faults.get('fault:interrupt', 0) + 1
        if crashed:
            faults['fault:crash'] = faults.get('fault:crash', 0) + 1
        s['exports'] += 1
        if not crashed:
            if f.raised and err is not f.raised[-1]:
                problems.append(('write-error', f'{short(e)}: the stream raised {f.raised[-1]!r} but to_pickle '
                                                f'{"raised " + repr(err) if err is not None else "reported success"}'))
            if err is not None and not f.raised and ctx.interrupt_exc is None and (e['proto'] is None or e['proto'] >= 2) \
                    and plain_pickles([getattr(r, n) for n in U.REG[type(r)]]):
                problems.append(('refused', f'{short(e)}: to_pickle of {short(canon(r))} raised {err!r}'))
        end = disk.size(name)
        short_write = 'short' in f.fired
        ok = err is None and not short_write
        extents.setdefault(name, []).append([e['r'], start, end, ok, bool(short_write and err is None), e])
        if not ok:
            state['n'] += 1

    threads = scn['threads']
    trace = None
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'],
                                            {t: 60 * len(x) for t, x in enumerate(threads)}))

        def body(t, exs):
            def f():
                st = {'n': 0}
                for k, e in enumerate(exs):
                    export(t, k, e, sim, st)
            return f
        sim.run([body(t, x) for t, x in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        st = {'n': 0}
        for k, e in enumerate(threads[0]):
            export(0, k, e, None, st)
    det = {'schedule': trace} if trace else {}
    if problems:
        raise Viol(problems[0][0], problems[0][1], **det)
    s.update(faults)
    crash = scn['disk']['crash_at'] is not None or scn['disk']['keep'] < 1
    files = []
    for name, exts in sorted(extents.items()):
        data = disk.after_crash(name, scn['disk']['keep']) if crash else disk.files.get(name, [b''])[0]
        items = []
        for j, a, b, ok, lost, e in exts:
            r = recs[j]
            want = None
            if ok and b <= len(data):
                want = 'ok'
            elif lost or b > len(data):
                want = 'cut'
            if ok and b > len(data):
                s['fault:torn'] = s.get('fault:torn', 0) + 1
            c = norm(canon(r))
            items.append({'j': j, 'a': a, 'b': b, 'want': want, 'canon': c, 'io': e['io'], 'via': e['via'], 'rfail': e.get('rfail'),
                          'same': accepts_unchanged(r) and not has_identity(c), 'proto': e['proto']})
        files.append({'data': data.hex(), 'items': items})
    arg = {'classes': scn['classes'], 'pool': scn['pool'], 'pre': done_pre, 'files': files}
    try:
        res = server.SERVERS[0].call(ID, arg)
    except Viol as v:
        raise Viol(v.kind, v.msg, **{**v.detail, **det})
    for k, v in res['sum'].items():
        s[k] = s.get(k, 0) + v
    sig = zlib.crc32(json.dumps([scn['classes'], scn['threads'], [f['data'] for f in files], res['log']]).encode())
    return {'nontrivial': bool(res['log']), 'sum': s, 'sigs': [sig], 'sample': bool(res['log']) and crash}


def attempt(f):
    try:
        return f(), None
    except BaseException as e:
        e.__traceback__ = None
        return None, e


def serve(arg):
    """the restarted process"""
    world = opgen.build({'classes': arg['classes'], 'pool': arg['pool']})
    for p in arg['pre']:
        ops.raw(world, p)
    s = {}
    log = []

    def inc(k):
        s[k] = s.get(k, 0) + 1

    for f in arg['files']:
        data = bytes.fromhex(f['data'])
        stream = simio.SimReader(data)
        for it in f['items']:
            if it['want'] is None:
                break  # the export failed, but everything it wrote is there: nothing is promised
            cls = world.classes[it['via']]
            if it['want'] == 'ok' and it['rfail']:
                rd = simio.SimReader(data[it['a']:it['b']], it['rfail'])
                val, err = attempt(lambda: cls.from_pickle_io(rd))
                if rd.raised:
                    inc('fault:read-raise')
                    if err is not rd.raised[0]:
                        raise Viol('read-error', f'the stream raised {rd.raised[0]!r} but from_pickle_io '
                                                 f'{"raised " + repr(err) if err is not None else "gave " + short(canon(val))}')
            if it['io']:
                val, err = attempt(lambda: cls.from_pickle_io(stream))
            else:
                piece = data[it['a']:it['b']]
                stream.pos = it['b']
                val, err = attempt(lambda: cls.from_pickle(piece))
            what = f"record {short(it['canon'])} (protocol {it['proto']})"
            if it['want'] == 'cut':
                inc('refused-cut')
                log.append('cut')
                if err is None:
                    raise Viol('cut-accepted', f'the pickle of {what} cut short to {len(data) - it["a"]} of {it["b"] - it["a"]} '
                                               f'bytes loads as {short(canon(val))}')
                break
            if not it['same']:
                inc('not-taken-unchanged')
                if it['io']:
                    stream.pos = it['b']
                continue  # the fields would not take the values as they are
            if err is not None:
                raise Viol('lost', f'the pickle of {what} fails to load: {type(err).__name__}({err})')
            inc('loads')
            log.append('ok')
            rec = world.pool[it['j']]
            if type(val) is not type(rec):
                raise Viol('class', f'the pickle of {what} loads as {short(canon(val))}')
            got = norm(canon(val))
            if got != it['canon']:
                raise Viol('value', f'the pickle of {what} loads as {short(got)}')
            if norm(canon(rec)) != it['canon']:
                continue  # cannot be built here in the same way
            if not (val == rec) or not (rec == val) or val != rec:
                raise Viol('equal', f'the pickle of {what} loads as a record that is not equal to one built here')
            if type(rec).is_frozen():
                h, he = attempt(lambda: hash(rec))
                h2, he2 = attempt(lambda: hash(val))
                if he is None:
                    inc('hashes')
                    if he2 is not None or h != h2:
                        raise Viol('hash', f'the pickle of {what} loads as a record with hash {h2 if he2 is None else he2!r}, one '
                                           f'built here has {h}')
    return {'sum': s, 'log': log}
