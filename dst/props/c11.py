"""C11: JSON exports that succeed read back; damaged ones never become records."""
import json
import zlib

from dst import ops, opgen, sched, server, simio
from dst import userland as U
from dst.common import Viol, HarnessError, short, norm
from dst.gen import Gen
from dst.props.c10 import accepts_unchanged, attempt
from dst.userland import Ctx, TL, canon, dec
from dst.world import select_kwargs

ID = 'C11'
QUICK = 15000
THOROUGH = 140000
RULE = ('seeded record classes over JSON types and 1-4 records of JSON values (unicode, big numbers, nesting, values equal to '
        'defaults); 1-3 threads export them with to_json (to a string or, in many writes, to a file of a simulated disk; with '
        'export options, encoder options and seeded selections, sometimes through one shared derived exporter) under one seeded '
        'schedule with failing and short writes, interrupts and a crash at a seeded disk call; a restarted process with another '
        'string-hash seed imports every text with the reversed selection, from strings, from bytes in every encoding of JSON, and from text and binary streams that can fail; every '
        'readable text is also cut at seeded points; non-trivial: a record was imported after the restart or a cut text refused')
MEASURE = 'crc of (classes, exports, disk content, import outcomes)'
REAL = ['records (all of it)', 'json', 'two operating-system processes with different string-hash seeds']
STUB = ['disk (cache, fsync, crash, faults)', 'thread scheduling', 'user callbacks', 'asynchronous interrupts']
ASSUMPTIONS = ['after a short write the file is full and the rest of that file is cut']

TEXTS = ['', 'a', 'é', '\u2028', '"', '\\', '\n', '{"x": 1}', '\ud800', '😀', '\x00', 'null', 'ключ', '}', ']']
# (None: the text itself; others: its bytes in an encoding that JSON texts can have)
ENCODINGS = ['utf-8', 'utf-8', 'bytearray', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-le', 'utf-8-sig']
NUMS = [['i', 0], ['i', 1], ['i', -1], ['i', str(10 ** 30)], ['f', '-0.0'], ['f', '1e+300'], ['f', '0.1'], ['f', '5e-324'], ['f', '3.0']]


def setup():
    server.start(1)


def jvalue(g, d=0):
    k = g.rng.random()
    if k < 0.3:
        return ['s', g.ch(TEXTS)]
    if k < 0.55:
        return list(g.ch(NUMS))
    if k < 0.7:
        return g.ch([['b', 0], ['b', 1], ['n'], ['l', []], ['d', []]])
    if d > 2:
        return ['i', 3]
    if k < 0.85:
        return ['l', [jvalue(g, d + 1) for _ in range(g.rng.randrange(3))]]
    return ['d', [[['s', x], jvalue(g, d + 1)] for x in g.rng.sample(TEXTS, g.rng.randrange(3))]]


def simple_class(g, name):
    from dst.props.c09 import simple_class as sc
    sc(g, name)
    spec = g.specs[name]
    spec['frozen'] = g.p(0.5)
    for f in spec['fields']:
        f.pop('final', None)
        d = f.get('default')
        if d:
            f['default'] = ['v', jvalue(g)] if d[0] == 'v' else ['fac', d[1], ['const', jvalue(g)]]
    pn = spec.get('post_new')
    if pn and pn['mode'] == 'hash':
        pn['mode'] = 'none'


def gen(rng, i):
    g = Gen(rng, jsonable=True)
    g.tame = True
    simple = rng.random() < 0.5
    for k in range(rng.choice([1, 1, 2, 3])):
        if simple:
            simple_class(g, f'A{k}')
        else:
            g.cls(f'A{k}', p_post=0.2, post_modes=['self', 'none', 'reject', 'attr', 'twin'], p_parsers=0.1, p_inherit=0.5,
                  p_default=rng.choice([0.2, 0.5, 0.8]), style=g.ch(['hollow', 'hollow', 'check', 'strict']))
    names = sorted(g.specs)
    pool = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        c = g.ch(names)
        if simple:
            e = ['r', c, [{f['name']: jvalue(g) for f in g.fields_of(c) if not f.get('default') or g.p(0.6)}]]
        else:
            e = g.record_alts(c, 0.98)
        for kw in e[2]:
            for f in g.fields_of(c):
                d = f.get('default')
                if f['name'] in kw and d and d[0] == 'v' and g.p(0.3):
                    kw[f['name']] = json.loads(json.dumps(d[1]))
        pool.append(e)
    n = len(pool)
    handles = []
    for _ in range(rng.choice([0, 1, 2])):
        j = rng.randrange(n)
        c = pool[j][1]
        handles.append({'c': c, 'what': 'to_json', 'sel': export_sel(g, c)})
    threads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        exs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.randrange(n)
            c = pool[j][1]
            e = {'r': j, 'io': g.p(0.6), 'sync': g.p(0.5)}
            if g.p(0.15):
                e['sized'] = g.ch(['len', 'never'])
            mine = [h for h, x in enumerate(handles) if x['c'] == c]
            if mine and g.p(0.6):
                e['h'] = g.ch(mine)
            else:
                e['sel'] = export_sel(g, c)
                e['how'] = g.ch(['inst', 'inst', 'cls'])
            jkw = {}
            if g.p(0.2):
                jkw['indent'] = g.ch([1, 0, 4, '\t'])
            if g.p(0.3):
                jkw['ensure_ascii'] = False
            if g.p(0.2):
                jkw['sort_keys'] = True
            if g.p(0.2):
                jkw['separators'] = [',', ':']
            if jkw:
                e['jkw'] = jkw
            k = rng.random()
            if k < 0.2:
                e['faults'] = [[g.ch([1, 2, 3, 5, 8, 13]), 'raise', g.ch(['OSError', 'OSError', 'ValueError', 'TypeError', 'KeyboardInterrupt',
                                                                         'MemoryError', 'RecursionError', 'UnicodeDecodeError']), rng.choice([0, 0.5, 1])]]
            elif k < 0.38:
                e['faults'] = [[g.ch([1, 2, 3, 5, 8]), 'short', rng.choice([0, 0.3, 0.7, 0.99])]]
            elif k < 0.48:
                e['intr'] = [g.ch(sorted(U.BASE)), rng.choice([1, 2, 3, 5, 8, 13, 20, 30])]
            e['load'] = {'io': g.ch([0, 0, 1, 2]), 'enc': g.ch([None, None] + ENCODINGS), 'cuts': [rng.random() for _ in range(2)]}
            if g.p(0.25):
                e['load']['rfail'] = [1, g.ch(['OSError', 'ValueError', 'TypeError', 'EOFError', 'KeyboardInterrupt', 'AttributeError',
                                               'UnicodeDecodeError'])]
            exs.append(e)
        threads.append(exs)
    return {'classes': list(g.specs.values()), 'pool': pool, 'pre': [], 'sels': handles, 'threads': threads,
            'disk': {'crash_at': g.ch([None] * 7 + [1, 2, 4, 8, 16, 30]), 'keep': rng.choice([0, 0.5, 0.8, 0.95, 1, 1, 1, 1])},
            'sched': {'desc': sched.gen_strategy(rng), 'seed': rng.randrange(1 << 30), 'op': int(rng.random() < 0.3)}}


def export_sel(g, c):
    """a list of selection steps that can be reversed: each {'rm': [...], 'ren': [[f, alias]..], 'add': [[k, v]..]} with shapes"""
    if g.p(0.4):
        return {}
    fs = g.field_names(c)
    g.rng.shuffle(fs)
    out = {'shape1': g.ch(g.SHAPES1), 'shape2': g.ch(g.SHAPES2)}
    if fs and g.p(0.3):
        out['rm'] = [fs.pop()]
    if fs and g.p(0.6):
        out['ren'] = [[fs.pop(), al] for al in g.rng.sample(['al1', 'al2', 'ключ', ''], min(len(fs), g.ch([1, 2])))]
    if g.p(0.5):
        out['add'] = [[k, jvalue(g)] for k in g.rng.sample(['ex1', 'ex2', 'type'], g.ch([1, 2]))]
    if g.p(0.5):
        out['chain'] = 1
    if g.p(0.3):
        out['ex'] = {'include_defaults': True}
    if g.p(0.3):
        out.setdefault('ex', {})['sort'] = g.ch([1, -1, True])
    return out


def select_steps(sel):
    """keyword arguments of the selections to apply for an export (omitted defaults may be missing)"""
    s1, s2 = sel.get('shape1', 'list'), sel.get('shape2', 'list')
    steps = []
    if sel.get('rm'):
        steps.append({'mrm': [s1, sel['rm']]})
    if sel.get('ren'):
        steps.append({'mren': [s2, sel['ren']]})
    if sel.get('add'):
        steps.append({'add': [s2, sel['add']]})
    if not sel.get('chain'):
        m = {}
        for s in steps:
            m.update(s)
        steps = [m] if m else []
    return steps


def reverse_steps(sel, vals):
    s1, s2 = sel.get('shape1', 'list'), sel.get('shape2', 'list')
    m = {}
    if sel.get('add'):
        m['rm'] = [s1, [k for k, _ in sel['add']]]
    if sel.get('ren'):
        m['mren'] = [s2, [[b, a] for a, b in sel['ren']]]
    if sel.get('rm'):
        m['add'] = [s2, [[k, vals[k]] for k in sel['rm']]]
    if sel.get('chain'):
        return [{k: v} for k, v in m.items()]
    return [m] if m else []


def exporter(world, owner, sel):
    f = owner.to_json
    if sel.get('ex'):
        f = f.export_with(**sel['ex'])
    for s in select_steps(sel):
        f = f.select(**select_kwargs(s, world))
    return f


JSON_TAGS = {'i', 's', 'f', 'b', 'n', 'l', 'd'}


def is_json(c):
    if c[0] not in JSON_TAGS:
        return False
    if c[0] == 'f':
        return c[1] not in ('nan', 'inf', '-inf')
    if c[0] == 'l':
        return all(is_json(x) for x in c[1])
    if c[0] == 'd':
        return all(k[0] == 's' and is_json(v) for k, v in c[1])
    return True


def unordered(c):
    """(an export with sort_keys re-orders the keys of nested mappings)"""
    if c[0] == 'd':
        return ['d', sorted(([k, unordered(v)] for k, v in c[1]), key=json.dumps)]
    if c[0] == 'l':
        return ['l', [unordered(x) for x in c[1]]]
    return c


def json_record(r):
    return all(is_json(v) for _, v in norm(canon(r))[2] if _ != 'x_extra')


def run(scn):
    world = opgen.build(scn)
    recs = {j: p for j, p in enumerate(world.pool) if type(p) in U.REG and json_record(p)}
    s = {'exports': 0, 'loads': 0, 'steps': 0}
    if not recs:
        return {'nontrivial': False, 'sum': s, 'sigs': []}
    handles = [exporter(world, ops.get_cls(world, h['c']), h['sel']) for h in scn['sels']]
    disk = simio.SimDisk(scn['disk']['crash_at'])
    extents, problems, faults = {}, [], {}

    def export(t, k, e, sim):
        r = recs.get(e['r'])
        if r is None or ('h' in e and e['h'] >= len(handles)):
            return
        name = f'{t}.{k}'
        ctx = Ctx(sim)
        if e.get('intr'):
            ctx.interrupt_name, ctx.interrupt_at = e['intr']
        f = simio.SimFile(disk, name, e.get('faults', ()), text=True, sized=e.get('sized'))
        err, crashed, ret = None, False, None
        jkw = dict(e.get('jkw', {}))
        if 'separators' in jkw:
            jkw['separators'] = tuple(jkw['separators'])
        sel = scn['sels'][e['h']]['sel'] if 'h' in e else e['sel']
        TL.ctx = ctx
        try:
            with sched.traced(ctx, bool(scn['sched']['op']) and sim is not None):
                if 'h' in e:
                    ex, pos = handles[e['h']], (r,)
                elif e['how'] == 'cls':
                    ex, pos = exporter(world, type(r), sel), (r,)
                else:
                    ex, pos = exporter(world, r, sel), ()
                ret = ex(*pos, io=f, **jkw) if e['io'] else ex(*pos, **jkw)
            if not e['io']:
                TL.ctx = Ctx(sim)
                if not isinstance(ret, str):
                    problems.append(('type', f'to_json returned {short(canon(ret))}'))
                f.faults = ()
                f.text = False
                f.write(ret.encode('utf-8', 'surrogatepass'))
            if e['sync']:
                disk.fsync(name)
        except (U.Invalid, sched.SimAbort):
            raise
        except BaseException as x:
            err = x
            crashed = isinstance(x, simio.SimCrash)
            x.__traceback__ = None
        TL.ctx = None
        for x in f.fired:
            faults['fault:write-' + x] = faults.get('fault:write-' + x, 0) + 1
        if ctx.interrupt_exc is not None and not f.raised:
            faults['fault:interrupt'] = faults.get('fault:interrupt', 0) + 1
        if crashed:
            faults['fault:crash'] = faults.get('fault:crash', 0) + 1
        s['exports'] += 1
        encodes = not (e['io'] and isinstance(err, UnicodeEncodeError))
        if not crashed:
            if f.raised and err is not f.raised[-1]:
                problems.append(('write-error', f'{short(e)}: the stream raised {f.raised[-1]!r} but to_json '
                                                f'{"raised " + repr(err) if err is not None else "reported success"}'))
            if err is not None and not f.raised and ctx.interrupt_exc is None and encodes:
                problems.append(('refused', f'{short(e)}: to_json of {short(canon(r))} raised {err!r}'))
        short_write = 'short' in f.fired
        extents[name] = [e['r'], err is None and not short_write, bool(short_write and err is None), e, sel]

    threads = scn['threads']
    trace = None
    if len(threads) > 1:
        sim = sched.Sim(sched.make_strategy(scn['sched']['desc'], scn['sched']['seed'],
                                            {t: 120 * len(x) for t, x in enumerate(threads)}))
        sim.run([(lambda t=t, x=x: [export(t, k, e, sim) for k, e in enumerate(x)]) for t, x in enumerate(threads)])
        trace = sim.trace_desc()
        if sim.failure:
            if sim.failure[0] in ('hang', 'deadlock'):
                raise Viol(*sim.failure, schedule=trace)
            raise HarnessError(sim.failure[1])
        s['steps'], s['switches'] = sim.step, len(sim.switches)
    else:
        for k, e in enumerate(threads[0]):
            export(0, k, e, None)
    det = {'schedule': trace} if trace else {}
    if problems:
        raise Viol(problems[0][0], problems[0][1], **det)
    s.update(faults)
    crash = scn['disk']['crash_at'] is not None or scn['disk']['keep'] < 1
    items = []
    for name, (j, ok, lost, e, sel) in sorted(extents.items()):
        full = disk.files.get(name, [b''])[0]
        data = disk.after_crash(name, scn['disk']['keep']) if crash else full
        r = recs[j]
        want = None
        if ok and len(data) == len(full):
            want = 'ok'
        elif lost or len(data) < len(full):
            want = 'cut'
        if ok and want == 'cut':
            s['fault:torn'] = s.get('fault:torn', 0) + 1
        c = norm(canon(r))
        vals = {k: v for k, v in c[2]}
        items.append({'j': j, 'want': want, 'canon': c, 'sel': reverse_steps(sel, vals), 'load': e['load'], 'data': data.hex(),
                      'same': accepts_unchanged(r), 'how': short({k: v for k, v in e.items() if k in ('sel', 'jkw', 'io', 'h')}), 'str': not e['io']})
    arg = {'classes': scn['classes'], 'pool': scn['pool'], 'items': items}
    try:
        res = server.SERVERS[0].call(ID, arg)
    except Viol as v:
        raise Viol(v.kind, v.msg, **{**v.detail, **det})
    for k, v in res['sum'].items():
        s[k] = s.get(k, 0) + v
    sig = zlib.crc32(json.dumps([scn['classes'], scn['threads'], [f['data'] for f in items], res['log']]).encode())
    return {'nontrivial': bool(res['log']), 'sum': s, 'sigs': [sig], 'sample': bool(res['log']) and crash}


def load(cls, world, it, raw, rfail=None):
    """import a text in the way the item says; returns (value, error, reader)"""
    mode = it['load']['io']
    fac = cls.from_json_io if mode else cls.from_json
    for st in it['sel']:
        fac = fac.select(**select_kwargs(st, world))
    if mode:
        rd = simio.SimReader(raw, rfail, text=mode == 1)
        return (*attempt(lambda: fac(rd)), rd)
    text, err = attempt(lambda: raw.decode('utf-8', 'surrogatepass'))
    if err is not None:
        return None, err, None
    enc = it['load'].get('enc')
    if enc == 'bytearray':
        text = bytearray(raw)
    elif enc:
        text = text.encode(enc, 'surrogatepass') if enc != 'utf-8-sig' else b'\xef\xbb\xbf' + raw
    return (*attempt(lambda: fac(text)), None)


def serve(arg):
    """the restarted process"""
    world = opgen.build({'classes': arg['classes'], 'pool': arg['pool']})
    s, log = {}, []

    def inc(k):
        s[k] = s.get(k, 0) + 1

    for it in arg['items']:
        if it['want'] is None:
            continue
        rec = world.pool[it['j']]
        cls = type(rec)
        if cls not in U.REG:
            continue
        raw = bytes.fromhex(it['data'])
        what = f"record {short(it['canon'])} exported by {it['how']}, imported with {short(it['sel'])}"
        if it['want'] == 'cut':
            val, err, _ = load(cls, world, it, raw)
            inc('refused-cut')
            log.append('cut')
            if err is None:
                raise Viol('cut-accepted', f'the text of {what} cut short to {raw!r} imports as {short(canon(val))}')
            continue
        if it['load'].get('rfail') and it['load']['io']:
            val, err, rd = load(cls, world, it, raw, it['load']['rfail'])
            if rd.raised:
                inc('fault:read-raise')
                if err is not rd.raised[0]:
                    raise Viol('read-error', f'the stream raised {rd.raised[0]!r} but from_json_io '
                                             f'{"raised " + repr(err) if err is not None else "gave " + short(canon(val))}')
        for x in it['load']['cuts']:
            cut = raw[:int(x * len(raw))]
            val, err, _ = load(cls, world, it, cut)
            inc('refused-cut')
            if err is None:
                raise Viol('cut-accepted', f'the text of {what} cut short to {cut!r} imports as {short(canon(val))}')
        if not it['same']:
            inc('not-taken-unchanged')
            continue
        lone = b'\xed' in raw and attempt(lambda: raw.decode('utf-8'))[1] is not None
        if lone and it['load']['io']:
            continue  # (a lone surrogate cannot be written to a UTF-8 stream)
        val, err, _ = load(cls, world, it, raw)
        if err is not None:
            raise Viol('lost', f'the text {raw!r} of {what} fails to import: {type(err).__name__}({err})')
        inc('loads')
        log.append('ok')
        if type(val) is not cls:
            raise Viol('class', f'the text of {what} imports as {short(canon(val))}')
        if norm(canon(rec)) != it['canon']:
            raise HarnessError(f"the restarted process builds {short(norm(canon(rec)))} instead of {short(it['canon'])}")
        if not (val == rec) or val != rec:
            raise Viol('equal', f'the text {raw!r} of {what} imports as {short(canon(val))}')
        got = dict(norm(canon(val))[2])
        text = raw.decode('utf-8', 'surrogatepass')
        for k, v in it['canon'][2]:
            if k in got and unordered(got[k]) != unordered(v) and json.dumps(k) in text:
                raise Viol('value', f'field {k} of {what} was {short(v)}, is imported as {short(got.get(k))}')
    return {'sum': s, 'log': log}
