"""Seeded generation of operations over a generated world: a pool of shared objects, selections, handles, and calls."""
import json

from dst.gen import Gen
from dst.userland import dec, f_id

READS = ['to_dict', 'to_dict', 'to_dict', 'to_json', 'to_json', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'hash', 'repr', 'copy', 'deepcopy', 'getattr', 'inset']
BUILDS = ['new', 'new', 'new', 'parse', 'parser', 'from_mapping', 'from_mapping', 'from_instance', 'from_instance', 'from_json',
          'from_json_io', 'pickle_rt', 'from_pickle_obj']
MISC = ['sel_call', 'sel_merge', 'sel_bool', 'handle', 'handle', 'tags', 'meta', 'isinst']
CMPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def jsonable(enc):
    """the plain JSON value an encoded value stands for, or None if it has none"""
    t = enc[0]
    if t in ('i', 's', 'f'):
        return enc[1]
    if t == 'b':
        return bool(enc[1])
    if t == 'n':
        return None
    if t in ('l', 't'):
        return [jsonable(x) for x in enc[1]]
    if t == 'd':
        return {(k[1] if k[0] == 's' else json.dumps(jsonable(k))): jsonable(v) for k, v in enc[1]}
    return 'x'


class OpGen:
    def __init__(self, g: Gen):
        self.g = g
        self.rng = g.rng
        self.pool = []  # encoded values
        self.recs = []  # (pool index, class)
        self.maps = []
        self.texts = []
        self.nss = []
        self.selects = []
        self.handles = []  # (description, kind, class)
        # each scenario dwells on some operations
        self.focus = [g.ch(BUILDS + READS + MISC) for _ in range(2)] if g.p(0.4) else None

    # ------------------------------------------------------------ shared objects
    def add(self, enc):
        self.pool.append(enc)
        return len(self.pool) - 1

    def fill_pool(self, n_rec=3, n_other=3, near=0.97, names=None):
        g = self.g
        names = names or sorted(g.specs)
        for i in range(n_rec):
            c = names[i % len(names)] if g.p(0.6) else g.ch(names)
            self.recs.append((self.add(g.record_alts(c, near)), c))
            if g.p(0.35):  # an equal twin
                self.recs.append((self.add(json.loads(json.dumps(self.pool[self.recs[-1][0]]))), c))
        for _ in range(n_other):
            c = g.ch(names)
            k = g.ch(['map', 'map', 'text', 'ns', 'val'])
            if k == 'map':
                self.maps.append((self.add(g.mapping_for(c)), c))
            elif k == 'text':
                self.texts.append((self.add(['s', self.text_for(c)]), c))
            elif k == 'ns':
                self.nss.append((self.add(self.ns_for(c)), c))
            else:
                self.add(g.any_value())

    def fill_selects(self, n=2):
        g = self.g
        for _ in range(n):
            c = g.ch(sorted(g.specs))
            self.selects.append(g.sel(g.field_names(c)))

    def fill_handles(self, n=2):
        g = self.g
        for _ in range(n):
            c = g.ch(sorted(g.specs))
            what = g.ch(['to_dict', 'to_json', 'from_mapping', 'from_instance', 'from_json'])
            h = {'what': what}
            if what.startswith('to_') and self.recs and g.p(0.6):
                i, c = g.ch(self.recs)
                h['r'] = ['ref', i]
            else:
                h['c'] = c
            h['steps'] = self.sel_steps(c, export=what.startswith('to_'), n=g.ch([0, 1, 1, 2]))
            self.handles.append((h, what, c))

    def sel_steps(self, c, export=False, n=None, mild=True):
        g = self.g
        out = []
        for _ in range(g.ch([0, 0, 0, 1, 1, 2]) if n is None else n):
            if export and g.p(0.4):
                out.append({'export': g.export_args(c)})
            elif self.selects and g.p(0.5):
                s = {'use': g.rng.randrange(len(self.selects))}
                if g.p(0.3):
                    s['use'] = [s['use'], g.rng.randrange(len(self.selects))]
                if g.p(0.3):
                    s['kw'] = g.sel(g.field_names(c))
                out.append(s)
            else:
                out.append({'kw': self.mild_sel(c) if mild and g.p(0.6) else g.sel(g.field_names(c), empty=0)})
        return out

    def mild_sel(self, c):
        """a selection that usually succeeds on an export of the class"""
        g = self.g
        names = g.field_names(c)
        s = {}
        if g.p(0.5):
            s['mrm'] = [g.ch(g.SHAPES1), g.rng.sample(names + ['X'], 1)]
        if g.p(0.4):
            s['mren'] = [g.ch(g.SHAPES2), [[g.ch(names), g.ch(['A', 'B'])]]]
        if g.p(0.5):
            s['madd'] = [g.ch(g.SHAPES2), [[g.ch(['A', 'C', 'D']), g.scalar()]]]
        if not s:
            s['add'] = [g.ch(g.SHAPES2), [['E', g.scalar()]]]
        return s

    def import_sel(self, c, kw):
        """(keyword arguments to give, steps that turn them into kw)"""
        g = self.g
        kw = dict(kw)
        s = {}
        names = list(kw)
        if names and g.p(0.6):
            f = g.ch(names)
            al = g.ch(['al1', 'al2'])
            s['ren' if g.p(0.5) else 'mren'] = [g.ch(g.SHAPES2), [[al, f]]]
            kw[al] = kw.pop(f)
            names.remove(f)
        if g.p(0.4):
            s['rm' if g.p(0.5) else 'mrm'] = [g.ch(g.SHAPES1), ['junk']]
            kw['junk'] = g.scalar()
        if names and g.p(0.4):
            f = g.ch(names)
            s['add' if g.p(0.5) else 'madd'] = [g.ch(g.SHAPES2), [[f, kw.pop(f)]]]
        steps = [{'kw': s}]
        if len(s) > 1 and g.p(0.3):
            k = g.ch(sorted(s))
            steps = [{'kw': {a: b for a, b in s.items() if a != k}}, {'kw': {k: s[k]}}]
        return kw, steps

    # ------------------------------------------------------------ arguments
    def text_for(self, c, near=0.9):
        g = self.g
        kw = g.kwargs_for(c, near, complete=False)
        d = {k: jsonable(v) for k, v in kw.items()}
        if g.p(0.06):
            return g.ch(['', '{', '[1, 2]', 'null', '{"x": }', '3'])
        return json.dumps(d)

    def ns_for(self, c):
        g = self.g
        kw = g.kwargs_for(c, 0.9, complete=False)
        if g.p(0.2):
            kw['other_attr'] = g.scalar()
        return ['ns', kw]

    def rec(self, c=None):
        """a record argument: a shared one or a fresh one"""
        g = self.g
        cand = [x for x in self.recs if c is None or x[1] == c]
        if cand and g.p(0.85):
            i, n = g.ch(cand)
            return ['ref', i], n
        n = c or g.ch(sorted(g.specs))
        return g.record_alts(n, 0.97, 2), n

    def mapping(self, c):
        g = self.g
        cand = [i for i, n in self.maps if n == c]
        if cand and g.p(0.35):
            return ['ref', g.ch(cand)]
        return g.mapping_for(c)

    def text(self, c):
        g = self.g
        cand = [i for i, n in self.texts if n == c]
        if cand and g.p(0.35):
            return ['ref', g.ch(cand)]
        return ['s', self.text_for(c)]

    def namespace(self, c):
        g = self.g
        cand = [i for i, n in self.nss if n == c]
        if cand and g.p(0.3):
            return ['ref', g.ch(cand)]
        if g.p(0.35):
            return self.rec(c if g.p(0.7) else None)[0]
        return self.ns_for(c)

    def parse_arg(self, c):
        g = self.g
        k = g.ch(['map', 'map', 'text', 'ns', 'triv', 'triv', 'any', 'rec'])
        if k == 'map':
            return self.mapping(c)
        if k == 'text':
            return self.text(c)
        if k == 'ns':
            return self.namespace(c)
        if k == 'rec':
            return self.rec(c if g.p(0.6) else None)[0]
        fs = [f for f in g.fields_of(c) if not f.get('default')] or g.fields_of(c)
        if k == 'triv':
            return g.value_for(g.ch(fs)['node'], 0.9)
        return g.any_value()

    # ------------------------------------------------------------ operations
    def op(self, kind=None, c=None, faults=0.25, base=False, kinds=None, wr=False):
        g = self.g
        names = sorted(g.specs)
        if kind is None and self.focus and g.p(0.5):
            kind = g.ch(self.focus if kinds is None else [k for k in self.focus if k in kinds] or kinds)
        if kind is None:
            kind = g.ch(kinds or (BUILDS if g.p(0.5) else READS if g.p(0.75) else MISC))
        op = self._op(kind, c or g.ch(names))
        if faults:
            cname = op.get('c') or op.get('via')
            cbs = None
            if cname and g.p(0.8):
                own = [n for n in [cname] + g.all_bases(cname)]
                cbs = [cb for cb, role in g.cbids if any(cb.startswith(n + '.') or cb.startswith(n + '#') for n in own)]
            f = g.faults(faults, cbs=cbs or None, base=base)
            if f:
                op['faults'] = f
        return op

    def _op(self, kind, c):
        g = self.g
        if kind == 'new':
            op = {'o': 'new', 'c': c, 'kw': g.kwargs_for(c, complete=False)}
            if g.p(0.3):
                req = [f for f in g.fields_of(c) if not f.get('default')]
                if len(req) == 1 and req[0]['name'] in op['kw'] and g.p(0.7):
                    op['arg'] = op['kw'].pop(req[0]['name'])
                    if g.p(0.5):
                        op['kw'] = {}
                else:
                    op['arg'] = self.parse_arg(c)
                    if g.p(0.8):
                        op['kw'] = {}
            elif g.p(0.05):
                op['kw']['unknown'] = ['i', 1]
            return op
        if kind == 'parse':
            return {'o': 'parse', 'c': c, 'v': self.parse_arg(c)}
        if kind == 'parser':
            own = []
            for b in [c] + g.all_bases(c):
                own += g.specs[b].get('parsers', [])
            if not own:
                return self._op('parse', c)
            p = g.ch(own)
            op = {'o': 'parser', 'c': c, 'n': p['name'], 'v': self.parse_arg(c)}
            if p.get('kind') == 'selectable' and g.p(0.4):
                op['sel'] = self.sel_steps(c, n=1)
            return op
        if kind == 'from_mapping':
            op = {'o': kind, 'c': c}
            if g.p(0.35):
                kw, op['sel'] = self.import_sel(c, g.kwargs_for(c))
                op['a'] = [['d', [[['s', k], v] for k, v in kw.items()]]]
                return op
            op['a'] = [self.mapping(c)]
            if g.p(0.25):
                op['a'].append(self.mapping(c))
            if g.p(0.15):
                f = g.ch(g.fields_of(c))
                op['kw'] = {f['name']: g.value_for(f['node'], 0.9)}
            if g.p(0.25):
                op['sel'] = self.sel_steps(c, n=1)
            return op
        if kind == 'from_instance':
            op = {'o': kind, 'c': c}
            if g.p(0.3):
                kw, op['sel'] = self.import_sel(c, g.kwargs_for(c))
                op['a'] = [['ns', kw]]
                return op
            op['a'] = [self.namespace(c)]
            if g.p(0.15):
                op['a'].append(['d', [[['s', g.field_names(c)[0]], g.scalar()]]])
            if g.p(0.15):
                f = g.ch(g.fields_of(c))
                op['kw'] = {f['name']: g.value_for(f['node'], 0.9)}
            if g.p(0.25):
                op['sel'] = self.sel_steps(c, n=1)
            return op
        if kind in ('from_json', 'from_json_io'):
            op = {'o': kind, 'c': c, 'v': self.text(c)}
            if g.p(0.25):
                if g.p(0.6):
                    kw, op['sel'] = self.import_sel(c, g.kwargs_for(c))
                    op['v'] = ['s', json.dumps({k: jsonable(v) for k, v in kw.items()})]
                else:
                    op['sel'] = self.sel_steps(c, n=1)
            return op
        if kind == 'pickle_rt':
            r, n = self.rec(c if g.p(0.8) else None)
            op = {'o': kind, 'c': n if g.p(0.85) else c, 'r': r, 'proto': g.ch([2, 3, 4, 5])}
            if g.p(0.3):
                op['io'] = 1
            return op
        if kind == 'from_pickle_obj':
            return {'o': kind, 'c': c, 'v': g.mapping_for(c) if g.p(0.7) else g.any_value()}
        if kind in ('to_dict', 'to_json'):
            r, n = self.rec(c if g.p(0.8) else None)
            op = {'o': kind, 'r': r}
            if g.p(0.6):
                op['ex'] = g.export_args(n)
            if g.p(0.4):
                op['sel'] = self.sel_steps(n, export=True, n=1)
            if g.p(0.3):
                op['how'] = 'cls'
                if g.p(0.3):
                    op['via'] = g.ch(sorted(g.specs))
            if kind == 'to_dict' and g.p(0.3):
                op['ew'] = 1
            if kind == 'to_json':
                if g.p(0.4):
                    op['io'] = 1
                if g.p(0.3):
                    op['jkw'] = g.ch([{'indent': 1}, {'sort_keys': True}, {'ensure_ascii': False}])
            return op
        if kind in CMPS:
            a, n = self.rec(c if g.p(0.8) else None)
            b, _ = self.rec(n if g.p(0.85) else None)
            return {'o': kind, 'a': a, 'b': b}
        if kind in ('hash', 'repr', 'copy', 'deepcopy'):
            r, _ = self.rec(c if g.p(0.8) else None)
            if kind in ('copy', 'deepcopy') and g.p(0.25):
                return {'o': kind, 'r': r, 'direct': 1}
            return {'o': kind, 'r': r}
        if kind == 'getattr':
            r, n = self.rec(c if g.p(0.8) else None)
            return {'o': kind, 'r': r, 'n': g.ch(g.field_names(n))}
        if kind == 'inset':
            a, n = self.rec(c if g.p(0.8) else None)
            return {'o': kind, 'a': a, 'bs': [self.rec(n)[0] for _ in range(2)]}
        if kind == 'setattr':
            r, n = self.rec(c)
            f = g.ch(g.fields_of(n))
            return {'o': kind, 'r': r, 'n': f['name'], 'v': g.value_for(f['node'], 0.5)}
        if kind == 'delattr':
            r, n = self.rec(c)
            return {'o': kind, 'r': r, 'n': g.ch(g.field_names(n))}
        if kind in ('sel_call', 'sel_merge', 'sel_bool') and not self.selects:
            kind = 'meta'
        if kind == 'sel_call':
            return {'o': kind, 's': g.rng.randrange(len(self.selects)), 'm': g.mapping_for(c)}
        if kind == 'sel_bool':
            return {'o': kind, 's': g.rng.randrange(len(self.selects))}
        if kind == 'sel_merge':
            ss = [g.rng.randrange(len(self.selects)) for _ in range(g.ch([2, 2, 3]))]
            op = {'o': kind, 'ss': ss, 'm': g.mapping_for(c)}
            if g.p(0.3):
                op['kw'] = g.sel(g.field_names(c))
            return op
        if kind == 'handle':
            if not self.handles:
                return self._op('to_dict', c)
            i = g.rng.randrange(len(self.handles))
            h, what, hc = self.handles[i]
            op = {'o': kind, 'h': i, 'c': hc}
            if what == 'from_mapping':
                op['a'] = [self.mapping(hc)]
            elif what == 'from_instance':
                op['a'] = [self.namespace(hc)]
            elif what == 'from_json':
                op['a'] = [self.text(hc)]
            elif 'c' in h:
                op['a'] = [self.rec(hc)[0]]
            if g.p(0.25):
                op['sel'] = self.sel_steps(hc, export=what.startswith('to_'), n=1)
            return op
        if kind == 'tags':
            return {'o': kind, 'c': c, 't': g.ch(g.tagnames)}
        if kind == 'meta':
            return {'o': kind, 'c': c}
        if kind == 'isinst':
            return {'o': kind, 'r': self.rec()[0], 'c': c}
        raise AssertionError(kind)

    def world(self):
        out = {'classes': list(self.g.specs.values()), 'pool': self.pool}
        if self.selects:
            out['selects'] = self.selects
        if self.handles:
            out['handles'] = [h for h, _, _ in self.handles]
        return out


def build(scn):
    """the world of a scenario with its handles"""
    from dst import world as W, ops
    w = W.World()
    w.handles = []
    w.build(scn)
    for h in scn.get('handles', ()):
        try:
            w.handles.append(ops.build_handle(w, h))
        except AttributeError:
            if 'r' not in h or hasattr(dec(h['r'], w), h['what']):
                raise
            w.handles.append(f_id)  # the record of this handle could not be built
    return w
