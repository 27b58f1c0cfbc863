"""Seeded generation of scenarios: worlds (record classes, selections, objects), values and operations.

Everything generated is plain JSON and valid by construction; nothing here touches the code under test.
"""
import json
from dst import userland as U
from dst.model import flat

INTS = [0, 1, 2, 3, -1, 5, 7, -4, 12, 100, 255, 256, 300, 1000, -1000, 10 ** 6]
STRS = ['', 'a', 'b', 'ab', 'abc', '0', '1', '12', '-3', 'x y', ' pad ', 'True', '[1, 2]', '1,2,3', 'zz', 'é', 'Hello',
        '{"k": 1}', '1.5', 'null']
FLOATS = [0.0, 1.0, 2.5, -1.5, 3.0, 1e3, 0.1]

SCAL = ['int', 'str', 'float', 'bool', 'bytes']
OBJT = ['P', 'Q', 'Square', 'Colour']
SUBT = ['IntSub', 'StrSub']

COERCE = {
    'int': ['int', 'int', 'len', 'strict_str_int', 'neg', 'first', ['const', ['i', 77]], 'isub'],
    'str': ['str', 'dec', 'first', ['const', ['s', 'cst']], 'ssub', 'strip'],
    'float': ['float', 'flt', ['const', ['f', 1.25]]],
    'bool': ['bool', ['const', ['b', 1]]],
    'bytes': ['enc', ['const', ['y', '00ff']]],
    'list': ['list', 'wrap', 'split', 'lsub', ['const', ['l', [['i', 1]]]]],
    'tuple': ['tuple', 'wrapt'], 'set': ['set', 'wrap'], 'frozenset': ['fset'], 'dict': ['dict', 'wrapd'],
    'deque': ['deque'], 'P': ['P', 'Q'], 'Q': ['Q', 'P'], 'Square': ['Square'], 'object': ['ident'],
    'IntSub': ['isub', 'int'], 'StrSub': ['ssub', 'str'],
    'Colour': [['const', ['o', 'Colour', 1]]], 'Even': ['int', 'neg', 'len', ['const', ['i', 4]], 'isub'],
    'none': ['none', 'nonefy'], 'ellipsis': ['ell'], 'callable': ['fn', 'type'], 'type': ['type'],
    'lit': ['int', 'str', 'strip', ['const', ['i', 1]], ['const', ['s', 'a']]],
    'defaultdict': ['dict'], 'abc.Sequence': ['list', 'tuple', 'wrap'], 'abc.Mapping': ['dict', 'wrapd'],
    'abc.Shape': ['Square'], 'Shape': ['Square'], 'abc.Sized': ['wrap', 'str'], 'abc.Hashable': ['str'],
    'abc.Iterable': ['wrap', 'str'],
}
WRONG = ['fail', 'failt', 'ident', 'none', 'wrap', 'str', 'int', 'ell']
VALID = {
    'int': ['inc', 'abs', 'nonneg', 'even', 'neg'], 'float': ['inc', 'abs', 'nonneg', 'neg'],
    'str': ['upper', 'strip', 'rev', 'nonempty', 'short', 'app', 'dbl'], 'list': ['rev', 'dbl', 'nonempty', 'short', 'cpl'],
    'tuple': ['rev', 'dbl', 'nonempty', 'short'], 'set': ['nonempty', 'short'], 'frozenset': ['nonempty', 'short'],
    'dict': ['nonempty', 'short'], 'deque': ['nonempty'], 'bytes': ['nonempty', 'short', 'rev'],
}
ASSERT = {
    'int': ['a_pos', 'a_even', 'a_truthy'], 'float': ['a_pos'], 'str': ['a_short', 'a_truthy', 'a_str'],
    'list': ['a_short', 'a_truthy'], 'tuple': ['a_short'],
}
ABSTRACT = {'abc.Sequence', 'abc.Mapping', 'abc.Shape', 'Shape', 'abc.Sized', 'abc.Hashable', 'abc.Iterable'}
SHAREABLE = {'va', 'as', 'truth', 'style', 'co', 'compose', 'eval', 'loose', 'loosei', 'falsish', 'whole', 'cm'}
EVALS = ['P(1)', 'int(3)', 'str(4)', 'list((1,))', 'P(int(2))', 'P(str(1))', 'float(2)', 'tuple([int(1)])', 'Q(1)', 'dict()', '(1, 2)', '1+1',
         'int.__name__', 'set(list((1,)))']
CALLS = ['call(1)', 'call(2)', 'P(call(1))', 'int(call(7))', 'str(call(3))', '[call(1), call(2)]', 'call(call(2))']
FOCUS_NODES = ['any', 'lit', 'union', 'optional', 'tup', 'tupv', 'newtype', 'iter', 'map', 'none', 'ellipsis', 'callable', 'type',
               'bare', 'abc', 'gen', 'rec']
FOCUS_TOKS = ['loose', 'loosei', 'falsish', 'eval', 'whole', 'cm', 'lunpack', 'lmap', 'leval', 'fromint', 'tobytes', 'map', 'compose',
              'clamp', 'within', 'cyclic', 'fullmatch', 'truth', 'as']
LEVAL = {'int', 'str', 'float', 'set', 'tuple', 'dict', 'list', 'bool'}


class Gen:
    def __init__(self, rng, **opts):
        self.rng = rng
        self.o = dict(hashable=False, jsonable=False, rich=True, share=False, unhooked=False, callbacks=True,
                      sets=True, depth=3, warn=True)
        self.o.update(opts)
        self.n = 0
        self.specs = {}  # name -> spec
        self.cbids = []  # (cbid, role)
        self.faultable = []
        self.tagnames = ['t1', 't2', 't3'] if rng.random() < 0.7 else ['t1', 'm1', 'm2']
        self.shared_toks = []
        self.shared_nodes = []
        self.prefix = ''
        self.want = None  # a condition on the fields to generate
        self.tame = False  # only values of exactly the declared types
        # each scenario dwells on some features at the expense of others
        self.focus_node = self.ch(FOCUS_NODES) if self.p(0.35) else None
        self.focus_tok = self.ch(FOCUS_TOKS) if self.p(0.35) else None
        self.focus_con = self.ch(['list', 'Sequence', 'deque', 'MutableSequence', 'set', 'frozenset', 'AbstractSet']) if self.p(0.3) else None
        self.p_reuse = self.ch([0, 0.1, 0.1, 0.3, 0.6])
        self.seen_values = {}  # (class, field) -> values given so far

    # ------------------------------------------------------------ helpers
    def p(self, x):
        return self.rng.random() < x

    def ch(self, xs):
        return xs[self.rng.randrange(len(xs))]

    def cbid(self, role):
        self.n += 1
        c = f'{self.prefix}#{self.n}'
        self.cbids.append((c, role))
        return c

    def size(self):
        return self.ch([0, 1, 1, 2, 2, 2, 3, 3, 4, 6])

    # ------------------------------------------------------------ values
    def scalar(self, t=None):
        t = t or self.ch(['int', 'int', 'str', 'str', 'float', 'bool', 'none'])
        if t == 'int':
            return ['i', self.ch(INTS)]
        if t == 'str':
            return ['s', self.ch(STRS)]
        if t == 'float':
            return ['f', self.ch(FLOATS)]
        if t == 'bool':
            return ['b', self.rng.randrange(2)]
        if t == 'bytes':
            return ['y', self.ch(['', '61', '00ff', '6162'])]
        if t == 'none':
            return ['n']
        raise AssertionError(t)

    def hashable_value(self):
        k = self.rng.random()
        if k < 0.8:
            return self.scalar(self.ch(['int', 'int', 'str', 'str', 'bool', 'none', 'float', 'bytes']))
        return ['t', [self.scalar() for _ in range(self.rng.randrange(3))]]

    def json_value(self, d=0):
        k = self.rng.random()
        if k < 0.7 or d > 2:
            return self.scalar(self.ch(['int', 'str', 'float', 'bool', 'none', 'str', 'int']))
        if k < 0.85:
            return ['l', [self.json_value(d + 1) for _ in range(self.rng.randrange(4))]]
        return ['d', [[['s', f'k{i}'], self.json_value(d + 1)] for i in range(self.rng.randrange(3))]]

    def any_value(self, d=0):
        """a value of any kind"""
        if self.o['jsonable']:
            return self.json_value(d)
        if self.o['hashable']:
            return self.hashable_value()
        k = self.rng.random()
        if k < 0.55 or d > 2:
            return self.scalar(self.ch(['int', 'str', 'int', 'str', 'float', 'bool', 'bytes', 'none']))
        if k < 0.63:
            return [self.ch(['l', 't']), [self.any_value(d + 1) for _ in range(self.rng.randrange(4))]]
        if k < 0.68:
            return ['d', [[self.scalar('str'), self.any_value(d + 1)] for _ in range(self.rng.randrange(3))]]
        if k < 0.72 and self.o['sets']:
            return [self.ch(['S', 'F']), [['i', i] for i in self.rng.sample(range(9), self.rng.randrange(4))]]
        if k < 0.78:
            return ['o', self.ch(['P', 'Q', 'Square']), ['i', self.ch(INTS[:6])]]
        if k < 0.82:
            return self.ch([['is', 3], ['ss', 'sub'], ['ls', [['i', 1]]], ['ts', [['i', 1]]], ['fs', 2.0],
                            ['ds', [[['s', 'k'], ['i', 1]]]]])
        if k < 0.86:
            return ['q', [self.scalar('int') for _ in range(self.rng.randrange(3))], self.ch([None, 5])]
        if k < 0.9:
            return self.ch([['ty', 'int'], ['ty', 'P'], ['ty', 'Q'], ['fn', 'len'], ['e'], ['ty', 'str']])
        if k < 0.94:
            return self.ch([['fr', 4, 2], ['fr', 1, 2], ['c', 2.0, 0.0], ['rg', [3]], ['o', 'Colour', 1]])
        return self.ch([['od', [[['s', 'a'], ['i', 1]]]], ['dd', [[['s', 'a'], ['i', 1]]]],
                        ['ctr', [[['s', 'a'], ['i', 2]]]], ['mp', [[['s', 'a'], ['i', 1]]]]])

    def elements(self, node, n=None, near=0.85):
        n = self.size() if n is None else n
        return [self.value_for(node, near) for _ in range(n)]

    def value_for(self, node, near=0.8, d=0):
        """a value that (with probability ``near``) more or less suits the node"""
        if d > 5 or not self.p(0.99 if self.tame else near):
            return self.any_value()
        node = flat(node)
        k = node['k']
        for t in node.get('toks', ()):
            u = t[2] if t[0] == 'shared' else t
            if u[0] == 'eval' and self.p(0.6):
                return ['s', self.ch(CALLS if len(u) > 2 and self.p(0.6) else EVALS)]
        if k == 'plain':
            return self.value_of(node['t'])
        if k == 'bare':
            return self.value_of({'List': 'list', 'Dict': 'dict', 'Tuple': 'tuple', 'SequenceT': 'list'}[node['t']])
        if k == 'any':
            return self.any_value()
        if k == 'none':
            return ['n'] if self.tame or self.p(0.7) else self.scalar()
        if k == 'ellipsis':
            return ['e']
        if k == 'callable':
            return self.ch([['fn', 'len'], ['fn', 'f_id'], ['ty', 'int']])
        if k in ('union', 'optional'):
            if k == 'optional' and self.p(0.25):
                return ['n']
            return self.value_for(self.ch(node['m']), 0.9, d + 1)
        if k == 'lit':
            if self.tame or self.p(0.75):
                return self.ch(node['v'])
            return self.ch([['is', 1], ['i', 9], ['s', 'a'], ['b', 1], ['ss', 'a'], ['ss', 'b'], ['is', 2]])
        if k == 'iter':
            es = [self.value_for(node['e'], 0.9, d + 1) for _ in range(self.size())]
            c = node['c']
            if c in ('list', 'Sequence', 'MutableSequence') and self.tame:
                t = 'l'
            elif c == 'list':
                t = self.ch(['l', 'l', 'l', 'ls', 't'])
            elif c == 'deque':
                return ['q', es, self.ch([None, 6])]
            elif c in ('set', 'frozenset', 'AbstractSet'):
                es = [e for e in es if self.is_hashable_enc(e)]
                t = {'set': 'S', 'frozenset': 'F', 'AbstractSet': self.ch(['S', 'F'])}[c]
            elif c == 'Sequence':
                t = self.ch(['l', 't', 'l', 't', 'ts'])
                if self.p(0.15):
                    return self.scalar('str')
            else:
                t = self.ch(['l', 'l', 'ls'])
            return [t, es]
        if k == 'gen':
            return [self.ch(['l', 't']), [self.any_value() for _ in range(self.rng.randrange(3))]]
        if k == 'map':
            c = node['c']
            pairs = []
            for i in range(self.size()):
                ke = self.value_for(node['kk'], 0.9, d + 1)
                if not self.is_hashable_enc(ke):
                    ke = ['s', f'k{i}']
                pairs.append([ke, self.value_for(node['vv'], 0.9, d + 1)])
            if c == 'defaultdict':
                return [self.ch(['dd', 'dd', 'dds']) if not self.tame else 'dd', pairs]
            if self.tame:
                return ['d', pairs]
            return [self.ch(['d', 'd', 'd', 'od', 'ds'] + (['mp'] if c == 'Mapping' else []) + (['dds'] if self.p(0.3) else [])), pairs]
        if k == 'tup':
            es = [self.value_for(e, 0.9, d + 1) for e in node['e']]
            if self.tame:
                return ['t', es]
            if self.p(0.06):
                es = es[:-1] if es else [self.any_value()]
            return [self.ch(['t', 't', 't', 'ts', 'l']), es]
        if k == 'tupv':
            es = [self.value_for(node['e'], 0.9, d + 1) for _ in range(self.size())]
            return ['t' if self.tame else self.ch(['t', 't', 't', 'ts', 'l']), es]
        if k == 'type':
            t = ['ty', node['t'] if node['t'] != 'Any' else 'str']
            return t if self.tame else self.ch([['ty', 'P'], ['ty', 'Q'], ['ty', 'int'], t])
        if k == 'newtype':
            return self.value_for(node['n'], near, d + 1)
        if k == 'rec':
            return self.record_value(node['c'], d + 1)
        if k == 'self':
            if d < 2 and self.p(0.4):
                return self.record_value(node['c'], d + 2)
            return ['n']
        if k == 'tvar':
            return self.any_value(2)
        raise AssertionError(node)

    def is_hashable_enc(self, e):
        t = e[0]
        if t in ('l', 'S', 'd', 'od', 'ds', 'q', 'qs', 'ls', 'ctr', 'dd', 'dds', 'mp', 'cm', 'ns'):
            return False
        if t in ('t', 'ts', 'F'):
            return all(self.is_hashable_enc(x) for x in e[1])
        if t == 'o':
            return e[1] != 'Box'
        if t in ('r', 'ref'):
            return False
        return True

    def value_of(self, t):
        p = self.rng.random() * (0.62 if self.tame else 1)
        if self.tame and t in ('list', 'abc.Sequence', 'abc.Iterable', 'abc.Sized', 'tuple', 'dict', 'abc.Mapping'):
            n = self.rng.randrange(4)
            if t in ('dict', 'abc.Mapping'):
                return ['d', [[['s', f'k{i}'], self.scalar()] for i in range(n)]]
            return ['t' if t == 'tuple' else 'l', [self.scalar() for _ in range(n)]]
        if t in ('int', 'str', 'float', 'bool', 'bytes'):
            if p < 0.62:
                return self.scalar(t)
            if p < 0.75:
                return {'int': ['is', self.ch(INTS)], 'str': ['ss', self.ch(STRS)], 'float': ['fs', 2.5],
                        'bool': ['i', self.ch([0, 1, 2])], 'bytes': ['y', '31']}[t] if not self.o['jsonable'] \
                    else self.scalar(t)
            return self.scalar(self.ch(['int', 'str', 'float', 'bool']))
        if t in ('P', 'Q', 'Square'):
            if p < 0.7:
                return ['o', self.ch([t, 'Q' if t == 'P' else t]), self.scalar('int')]
            return self.scalar()
        if t == 'Even':
            return ['i', self.ch([0, 2, 4, 12, 256])] if p < 0.6 else ['i', self.ch([1, 3, 7])] if p < 0.85 else self.scalar()
        if t == 'Colour':
            return ['o', 'Colour', self.ch([1, 2])] if p < 0.8 else self.scalar()
        if t in ('list', 'abc.Sequence', 'abc.Iterable', 'abc.Sized'):
            return [self.ch(['l', 'l', 'ls', 't']), [self.scalar() for _ in range(self.rng.randrange(4))]]
        if t == 'tuple':
            return [self.ch(['t', 't', 'ts', 'l']), [self.scalar() for _ in range(self.rng.randrange(4))]]
        if t in ('dict', 'abc.Mapping'):
            return [self.ch(['d', 'd', 'ds', 'od']), [[['s', f'k{i}'], self.scalar()] for i in
                                                      range(self.rng.randrange(3))]]
        if t in ('set', 'frozenset'):
            return [{'set': 'S', 'frozenset': 'F'}[t], [['i', i] for i in self.rng.sample(range(9), self.rng.randrange(4))]]
        if t == 'deque':
            return ['q', [self.scalar('int')], None]
        if t == 'type':
            return ['ty', self.ch(['int', 'P'])]
        if t == 'object':
            return self.any_value()
        if t in ('abc.Shape', 'Shape'):
            return ['o', 'Square', ['i', 2]] if p < 0.75 else self.scalar('int')
        if t == 'IntSub':
            return ['is', 4] if p < 0.6 else self.scalar('int')
        if t == 'StrSub':
            return ['ss', 'q'] if p < 0.6 else self.scalar('str')
        return self.any_value()

    def record_value(self, name, d=0):
        return ['r', name, self.kwargs_for(name, near=1.0, d=d)]

    # ------------------------------------------------------------ tokens
    def tcat(self, node):
        """the type category used to choose tokens"""
        k = node['k']
        if k == 'plain':
            return node['t']
        if k == 'iter':
            return {'Sequence': 'abc.Sequence', 'MutableSequence': 'list', 'AbstractSet': 'set'}.get(node['c'], node['c'])
        if k == 'map':
            return {'Mapping': 'abc.Mapping', 'MutableMapping': 'dict'}.get(node['c'], node['c'])
        if k in ('tup', 'tupv'):
            return 'tuple'
        if k == 'any':
            return 'object'
        if k == 'bare':
            return {'List': 'list', 'Dict': 'dict', 'Tuple': 'tuple', 'SequenceT': 'abc.Sequence'}[node['t']]
        if k == 'newtype':
            return self.tcat(node['n'])
        if k == 'gen':
            return 'abc.Iterable'
        return k

    def coercer_tok(self, node, cat):
        r = self.rng.random()
        if self.o['rich'] and (r < 0.3 or self.focus_tok is not None and r < 0.75):
            opts = []
            concrete = cat in ('int', 'str', 'float', 'bool', 'list', 'tuple', 'set', 'frozenset', 'dict', 'P', 'Q',
                               'Square', 'deque', 'IntSub', 'StrSub') and \
                node.get('c') not in ('MutableSequence', 'AbstractSet', 'MutableMapping')
            if concrete:
                opts += [['loose'], ['loose', ['str', 'int']], ['falsish'], ['loosei'], ['eval', ['...']]]
                if self.o['share']:
                    opts += [['eval', ['...']]] * 2
                opts.append(['eval', self.ch([['...'], [], ['P']]), [self.cbid('evalcall'), self.ch(COERCE.get(cat, ['ident']))]])
            if cat in ('int', 'float', 'IntSub'):
                opts.append(['whole'])
            if cat in ('P', 'Q'):
                opts += [['cm', 'mk'], ['cm', 'mk', [['i', 5]]], ['lunpack'], ['lunpack', ['int']], ['lmap']]
            if cat in LEVAL and node['k'] == 'plain':
                opts.append(['leval'])
            if cat == 'bool' and node['k'] == 'plain':
                opts.append(['fromint'])
            if cat == 'bytes' and node['k'] == 'plain':
                opts.append(['tobytes', 4])
            if cat not in ('none', 'ellipsis'):
                opts.append(['map', [[['s', 'a'], self.value_of_cat(cat)], [['i', 1], self.value_of_cat(cat)]],
                             [[['s', 'b'], self.cbid('mapfactory'), ['const', self.value_of_cat(cat)]]]])
            sem = self.ch(COERCE.get(cat, ['ident']))
            opts.append(['compose', [['co', self.cbid('coercer'), sem],
                                     ['co', self.cbid('coercer'), self.ch(['ident', 'strip', 'str', 'int', 'ident'])]]])
            if cat == 'int':
                opts.append(['eval', []])
            if cat == 'P':
                opts += [['eval', ['P']], ['eval', ['...', 'int']]]
            mine = [o for o in opts if o[0] == self.focus_tok]
            if mine or r < 0.3:
                return self.ch(mine if mine and self.p(0.7) else opts)
        sem = self.ch(COERCE.get(cat, ['ident'])) if self.p(0.75) else self.ch(WRONG)
        if self.p(0.08) and cat == 'int':
            return ['co', self.cbid('coercer'), 'int', [['i', 10]]]
        return ['co', self.cbid('coercer'), sem]

    def value_of_cat(self, cat):
        if cat == 'lit':
            return ['i', 1]
        if cat in ('callable',):
            return ['fn', 'len']
        return self.value_of(cat)

    def assert_opts(self):
        o = {}
        if self.p(0.25):
            o['err'] = self.ch(['bad value', ['KeyError'], ['TypeError'], ['CustomError'], ['OSError']])
        if self.p(0.25) and self.o['warn']:
            o['warn'] = self.ch([True, 'logger'])
            if o.get('err') is not None and not isinstance(o['err'], str):
                o['warn'] = 'logger'
        return o

    def validator_tok(self, node, cat):
        r = self.rng.random()
        if self.focus_tok == 'as' and self.p(0.6):
            r = 0.3
        if self.o['rich'] and (r < 0.2 or self.focus_tok in ('clamp', 'within', 'cyclic', 'fullmatch', 'truth') and self.p(0.4)):
            if cat in ('int', 'float'):
                if self.focus_tok == 'within' and self.p(0.6):
                    return ['within', ['i', 0], ['i', 9], self.p(0.5), self.p(0.5)]
                if self.focus_tok == 'cyclic' and self.p(0.6):
                    return ['cyclic', ['i', 1], ['i', 6]]
                return self.ch([['clamp', ['i', -2], ['i', 50]], ['within', ['i', -5], ['i', 200], True, False],
                                ['cyclic', ['i', 0], ['i', 360]], ['truth'], ['within', ['i', 0], ['i', 9], False, True]])
            if cat == 'str':
                return self.ch([['fullmatch', r'[a-z0-9]*'], ['fullmatch', r'.*'], ['truth']])
            return ['truth']
        if r < 0.4:
            sem = self.ch(ASSERT.get(cat, ['a_true', 'a_true', 'a_truthy'])) if self.p(0.7) else self.ch(
                ['a_true', 'a_false', 'a_zero', 'a_none', 'a_one', 'a_true', 'a_true', 'a_true'])
            return ['as', self.cbid('assert'), sem, self.assert_opts()]
        sem = self.ch(VALID.get(cat, ['ident'])) if self.p(0.8) else 'ident'
        if self.p(0.1) and cat in ('int', 'float'):
            return ['va', self.cbid('validator'), ['add', ['i', 3]]]
        return ['va', self.cbid('validator'), sem]

    def maybe_share(self, tok):
        if self.o['share'] and self.p(0.4):
            # a token object used by several fields and classes
            mine = [t for t in self.shared_toks if t[2][0] == tok[0]]
            if mine and self.p(0.6) and tok[0] in SHAREABLE:
                return self.ch(mine)
            t = ['shared', f'T{len(self.shared_toks)}', tok]
            self.shared_toks.append(t)
            return t
        return tok

    # ------------------------------------------------------------ nodes
    def node(self, style, d=0, force_hollow=False, in_union=False, inner=False, hashable=False):
        """a random type hint; ``style`` is the style it inherits"""
        rng = self.rng
        hashable = hashable or self.o['hashable']
        kinds = [('plain', 40), ('any', 3), ('lit', 5)]
        if d < self.o['depth']:
            nest = 4 if self.o.get('nest') and not force_hollow else 0
            kinds += [('union', 10 if not in_union else nest), ('optional', 7 if not in_union else nest // 4),
                      ('tup', 4), ('tupv', 5), ('newtype', 2)]
            if not hashable:
                kinds += [('iter', 13), ('map', 6)]
        if not self.o['jsonable']:
            kinds += [('none', 1), ('ellipsis', 1), ('callable', 1), ('type', 2), ('bare', 2), ('abc', 4)]
            if d < self.o['depth'] and not hashable:
                kinds += [('gen', 1)]
            if self.specs and d < self.o['depth'] and not hashable:
                kinds += [('rec', 4)]
        else:
            kinds = [x for x in kinds if x[0] in ('plain', 'any', 'union', 'optional', 'iter', 'map', 'lit')]
        if self.focus_node is not None:
            kinds = [(k, w * 8 if k == self.focus_node else w) for k, w in kinds]
        tot = sum(w for _, w in kinds)
        x = rng.random() * tot
        for k, w in kinds:
            x -= w
            if x < 0:
                break
        n = {'k': k}
        # which style does this node end up with
        toks = []
        eff = style
        if force_hollow:
            if style != 'hollow':
                toks.append(['style', 'hollow'])
            eff = 'hollow'
        elif self.p(0.3):
            eff = self.ch(['check', 'check', 'strict', 'hollow'] if not inner else ['check', 'check', 'strict'])
            toks.append(['style', eff])

        def restyle(to):
            nonlocal eff, toks
            toks = [t for t in toks if t[0] != 'style']
            if to != style:
                toks.append(['style', to])
            eff = to

        if k == 'plain':
            ts = ['int', 'int', 'int', 'str', 'str', 'float', 'bool']
            if not self.o['jsonable']:
                ts += ['bytes', 'P', 'Q', 'Square', 'object', 'IntSub', 'Colour', 'StrSub', 'Even']
                if not hashable:
                    ts += ['list', 'dict', 'tuple', 'set'] if self.o['sets'] else ['list', 'dict', 'tuple']
            n['t'] = self.ch(ts)
        elif k == 'abc':
            n = {'k': 'plain', 't': self.ch(['abc.Sequence', 'abc.Mapping', 'Shape', 'abc.Sized'] if not hashable else
                                            ['Shape', 'abc.Hashable'])}
            k = 'plain'
            if eff == 'strict':
                restyle('check')
        elif k == 'bare':
            n['t'] = self.ch(['List', 'Dict', 'Tuple', 'SequenceT']) if not hashable else 'Tuple'
            if n['t'] == 'SequenceT' and eff == 'strict':
                restyle('check')
        elif k in ('union', 'optional'):
            # tokens of the union are applied to each member first
            if in_union:
                # (in a nested one the style of the outer one wins)
                restyle(style)
            ist = eff
            cnt = rng.choice([2, 2, 2, 3, 3, 4]) if k == 'union' else 1
            n['m'] = [self.node(ist, d + 1, force_hollow=force_hollow or (eff == 'hollow' and self.p(0.5)),
                                in_union=True, inner=inner, hashable=hashable) for _ in range(cnt)]
            if k == 'optional' and n['m'][0]['k'] == 'none':
                n['m'] = [{'k': 'plain', 't': 'int', 'toks': n['m'][0].get('toks', [])}]
            if in_union and k == 'optional' and self.abstract_deep(n['m'][0]):
                n['m'] = [{'k': 'plain', 't': 'int', 'toks': []}]
            if k == 'union':
                self.dedup_members(n)
            if eff == 'strict' and not in_union and any(self.tcat(m) in ABSTRACT or self.abstract_deep(m) for m in n['m']):
                restyle('check')
            n['toks'] = toks
            hollow = all(self.eff_style(m, eff) == 'hollow' for m in n['m']) and (k == 'union' or eff == 'hollow')
            if not hollow and not force_hollow and self.p(0.3) and self.o['callbacks']:
                # the token must suit every member
                anyh = any(self.any_hollow(m, eff) for m in n['m']) or eff == 'hollow'
                cat = self.tcat(self.ch(n['m']))
                if not anyh and self.p(0.4):
                    toks.append(['co', self.cbid('coercer'), self.ch(COERCE.get(cat, ['ident']))])
                else:
                    toks.append(['va', self.cbid('validator'), self.ch(['ident', 'nonempty', 'abs'])])
            if in_union and self.p(0.3):
                j = self.rng.randrange(len(toks) + 1)
                n['toks'] = toks[:j]
                return {'k': 'newtype', 'n': n, 'toks': toks[j:]}
            return n
        elif k == 'lit':
            n['v'] = self.ch([[['i', 1], ['i', 2]], [['s', 'a'], ['s', 'b'], ['i', 1]], [['b', 1], ['i', 1]],
                              [['n'], ['s', 'a']], [['i', 0], ['i', 1], ['s', '1']]]) if not self.o['jsonable'] else \
                self.ch([[['i', 1], ['i', 2]], [['s', 'a'], ['s', 'b']]])
            if n['v'] == [['n'], ['s', 'a']] and in_union:
                n['v'] = [['s', 'a'], ['i', 3]]
        elif k == 'iter':
            cs = ['list', 'list', 'list', 'Sequence', 'deque', 'MutableSequence'] if not self.o['jsonable'] else ['list']
            if self.o['sets'] and not self.o['jsonable']:
                cs += ['set', 'frozenset', 'AbstractSet']
            n['c'] = self.focus_con if self.focus_con in cs and self.p(0.8) else self.ch(cs)
            if self.p(0.3):
                n['nine'] = 1
            if n['c'] in ('Sequence', 'MutableSequence', 'AbstractSet') and eff == 'strict':
                restyle('check')
            n['e'] = self.node(style_root(self, style), d + 1, force_hollow=eff == 'hollow', inner=True,
                               hashable=hashable or n['c'] in ('set', 'frozenset', 'AbstractSet'))
        elif k == 'map':
            n['c'] = self.ch(['dict', 'dict', 'Mapping', 'defaultdict', 'MutableMapping']) if not self.o['jsonable'] else 'dict'
            if n['c'] in ('Mapping', 'MutableMapping') and eff == 'strict':
                restyle('check')
            st = style_root(self, style)
            if self.o['jsonable']:
                n['kk'] = {'k': 'plain', 't': 'str', 'toks': [['style', 'hollow']] if eff == 'hollow' and st != 'hollow' else []}
            else:
                n['kk'] = self.node(st, self.o['depth'], force_hollow=eff == 'hollow', inner=True, hashable=True)
            n['vv'] = self.node(st, d + 1, force_hollow=eff == 'hollow', inner=True)
        elif k == 'tup':
            st = style_root(self, style)
            n['e'] = [self.node(st, d + 1, force_hollow=eff == 'hollow', inner=True, hashable=hashable) for _ in
                      range(rng.choice([1, 2, 2, 3, 3, 4, 5] if self.p(0.94) else [0]))]
        elif k == 'tupv':
            n['e'] = self.node(style_root(self, style), d + 1, force_hollow=eff == 'hollow', inner=True, hashable=hashable)
        elif k == 'gen':
            n['c'] = self.ch(['Iterable', 'Collection', 'Container', 'Reversible'])
            n['e'] = {'k': 'any', 'toks': [['style', 'hollow']]}
            if eff == 'strict':
                restyle('check')
        elif k == 'type':
            n['t'] = self.ch(['P', 'int', 'Q', 'P', 'int', 'Q', 'Any'])
        elif k == 'newtype':
            n['n'] = {'k': 'plain', 't': self.ch(['int', 'str'])}
        elif k == 'rec':
            n['c'] = self.ch(sorted(self.specs))
        n['toks'] = toks
        if k == 'rec' or not self.o['callbacks']:
            return n
        # coercers and validators
        cat = self.tcat(n)
        vs = []
        if eff in ('check', 'strict'):
            nco = self.ch([0, 0, 1, 1, 2, 3]) if d == 0 else self.ch([0, 0, 0, 1, 1, 2])
            if cat == 'none' and nco:
                nco = 1
            for _ in range(nco):
                vs.append(self.maybe_share(self.coercer_tok(n, cat)))
        nva = self.ch([0, 0, 0, 1, 1, 2]) if d == 0 else self.ch([0, 0, 0, 0, 1])
        if not (eff == 'hollow' and (inner or in_union)):
            for _ in range(nva):
                if cat in ('none', 'ellipsis', 'callable', 'type', 'object', 'abc.Hashable', 'Shape', 'lit'):
                    tok = ['va', self.cbid('validator'), 'ident'] if self.p(0.5) else \
                        ['as', self.cbid('assert'), self.ch(['a_true', 'a_true', 'a_one', 'a_false']), {}]
                else:
                    tok = self.validator_tok(n, cat)
                vs.append(self.maybe_share(tok))
        self.rng.shuffle(vs)
        # style tokens may stand anywhere among the others; the last one wins
        for t in vs:
            toks.insert(self.rng.randrange(len(toks) + 1), t)
        if self.p(0.05) and eff != 'hollow' and any(t[0] == 'style' for t in toks):
            toks.insert(0, ['style', self.ch(['hollow', 'check'])])
        if d == 0 and k not in ('rec', 'newtype', 'lit', 'none') and self.p(0.05):
            # a new type of it, with some of its tokens
            j = self.rng.randrange(len(toks) + 1)
            n['toks'] = toks[:j]
            return {'k': 'newtype', 'n': n, 'toks': toks[j:]}
        return n

    def abstract_deep(self, m):
        return m['k'] in ('gen',) or (m['k'] == 'newtype' and self.abstract_deep(m['n']))

    def any_hollow(self, node, inherited):
        """is the node, or any member of it, unchecked?"""
        node = flat(node)
        if node['k'] in ('union', 'optional'):
            st = self.eff_style({'k': 'x', 'toks': node.get('toks', ())}, inherited)
            return node['k'] == 'optional' and st == 'hollow' or any(self.any_hollow(m, st) for m in node['m'])
        return self.eff_style(node, inherited) == 'hollow'

    def eff_style(self, node, inherited):
        node = flat(node)
        st = inherited
        for t in node.get('toks', ()):
            u = t[2] if t[0] == 'shared' else t
            if u[0] == 'style':
                st = u[1]
        if node['k'] in ('union', 'optional'):
            ms = [self.eff_style(m, st) for m in node['m']]
            if node['k'] == 'optional':
                ms.append(st)
            return 'hollow' if all(x == 'hollow' for x in ms) else 'check'
        return st

    def dedup_members(self, n):
        seen = []
        out = []
        for m in n['m']:
            if m['k'] == 'any' and len(n['m']) > 1 and not m.get('toks'):
                m = {'k': 'plain', 't': 'object', 'toks': m.get('toks', [])}
            # members of one type differ when their tokens do
            key = json.dumps(unshared(m), sort_keys=True)
            if key in seen:
                continue
            seen.append(key)
            out.append(m)
        if len(out) < 2:
            extra = 'int' if not any(m.get('t') == 'int' for m in out) else 'str'
            out.append({'k': 'plain', 't': extra, 'toks': []})
        n['m'] = out

    # ------------------------------------------------------------ classes
    def cls(self, name, **kw):
        """a random class spec"""
        rng = self.rng
        self.prefix = name
        frozen = kw.get('frozen', self.p(0.5))
        style = kw.get('style', self.ch(['check', 'check', 'hollow', 'strict']))
        bases = kw.get('bases')
        if bases is None:
            bases = []
            if self.specs and self.p(kw.get('p_inherit', 0.3)):
                cand = [n for n in sorted(self.specs) if not self.specs[n].get('leaf')]
                if cand:
                    b = self.ch(cand)
                    bases.append(b)
                    more = [n for n in cand if not set(self.all_bases(n)) & set(self.all_bases(b)) and
                            not set(self.field_names(n)) & set(self.field_names(b))]
                    if more and self.p(0.4):
                        bases.append(self.ch(more))
            if self.p(0.1):
                bases.append('Mixin')
            elif self.p(0.05):
                bases.append('SlotMixin')
        taken = set()
        for b in bases:
            if b in self.specs:
                taken |= set(self.field_names(b))
        spec = {'name': name, 'bases': bases, 'frozen': frozen, 'style': style}
        self.root_style = style
        nf = kw.get('n_fields') or rng.choice([1, 2, 2, 3, 3, 4, 5])
        fields = []
        names = [n for n in (kw.get('names') or ['x', 'y', 'z', 'w', 'u', 'v', 'alpha', 'beta', 'n', 'm', 'p', 'q']) if
                 n not in taken]
        if not kw.get('names'):
            rng.shuffle(names)
        p_def = kw.get('p_default', 0.4)
        p_tag = self.ch([0.1, 0.25, 0.25, 0.75])
        for i in range(min(nf, len(names))):
            f = {'name': names[i]}
            self.prefix = f'{name}.{names[i]}'
            f['node'] = self.node(style)
            tries = 0
            while self.want is not None and not self.want(f['node']) and tries < 40:
                f['node'] = self.node(style)
                tries += 1
            if self.p(0.1) and not kw.get('no_self') and not self.o['jsonable'] and not self.o['hashable']:
                f['node'] = {'k': 'self', 'c': name}
            if self.p(p_def):
                if self.p(0.5):
                    f['default'] = ['v', self.value_for(f['node'], 1.0) if f['node']['k'] != 'self' else ['n']]
                    if self.has_rec(f['default'][1]):
                        f['default'] = ['v', ['n']]
                else:
                    val = self.value_for(f['node'], 1.0) if f['node']['k'] not in ('self', 'rec') else ['n']
                    if self.has_rec(val):
                        val = ['n']
                    f['default'] = ['fac', self.cbid('factory'), ['const', val]]
            if self.p(p_tag):
                f['tags'] = rng.sample(self.tagnames + ['noorder'], rng.choice([1, 1, 2]))
            if frozen and self.p(0.1) and f['node']['k'] != 'self':
                f['final'] = self.ch([True, 'in', 'half'])
            fields.append(f)
        spec['fields'] = fields
        if kw.get('ordered', self.p(0.3)):
            spec['ordered'] = True
        if self.p(0.3):
            spec['unary'] = self.p(0.6)
        if self.o['callbacks'] and self.p(kw.get('p_pre', 0.2)):
            self.pre_bind(spec)
        if self.o['callbacks'] and self.p(kw.get('p_parsers', 0.2)):
            self.parsers(spec, rng.choice([1, 1, 2]))
        if self.o['callbacks'] and self.p(kw.get('p_post', 0.15)):
            self.post_new(spec, kw.get('post_modes'))
        if self.p(0.08):
            spec['bool'] = False
        elif self.p(0.05):
            spec['len'] = 0
        self.specs[name] = spec
        self.prefix = ''
        return spec

    def has_rec(self, e):
        return '["r"' in json.dumps(e) or '["cls"' in json.dumps(e) or '["ref"' in json.dumps(e)

    def all_bases(self, b):
        out = [b]
        for x in self.specs[b].get('bases', ()):
            if x in self.specs:
                out += self.all_bases(x)
        return out

    def field_names(self, name):
        return [f['name'] for f in self.fields_of(name)]

    def fields_of(self, name):
        out, seen = [], set()
        spec = self.specs[name]
        for b in spec.get('bases', ()):
            if b in self.specs:
                for f in self.fields_of(b):
                    if f['name'] not in seen:
                        seen.add(f['name'])
                        out.append(f)
        for f in spec['fields']:
            if f['name'] not in seen:
                out.append(f)
        return out

    def pre_bind(self, spec):
        pre = []
        for f in spec['fields']:
            if not self.p(0.5) or f['node']['k'] in ('self', 'rec'):
                continue
            node, style = flat(f['node']), spec['style']
            self.prefix = f"{spec['name']}.{f['name']}"
            sub = None
            if node['k'] in ('tup', 'union', 'iter', 'tupv', 'map') and node.get('e') != [] and self.p(0.5):
                sub = 0
                inner = node['e'][0] if node['k'] == 'tup' else node['m'][0] if node['k'] == 'union' else \
                    node['kk'] if node['k'] == 'map' else node['e']
                inh = self.eff_style({'k': 'x', 'toks': node.get('toks', ())}, style) if node['k'] == 'union' else style
                st = self.eff_style(inner, inh)
                target = inner
                if flat(target)['k'] in ('rec', 'self', 'union', 'optional'):
                    continue
                if st == 'hollow':
                    continue
            else:
                st = self.eff_style(node, style)
                target = node
                if node['k'] in ('union', 'optional'):
                    if st == 'hollow' or any(self.any_hollow(m, self.eff_style({'k': 'x', 'toks': node.get('toks', ())}, style))
                                             for m in node['m']):
                        continue
                    inh = self.eff_style({'k': 'x', 'toks': node.get('toks', ())}, style)
                    if inh == 'hollow':
                        continue
            cat = self.tcat(target)
            kind = self.ch(['coercer', 'validator', 'assert'])
            if kind == 'coercer' and st == 'hollow':
                kind = 'validator'
            sem = {'coercer': COERCE.get(cat, ['ident']), 'validator': VALID.get(cat, ['ident']),
                   'assert': ASSERT.get(cat, ['a_true'])}[kind]
            p = {'field': f['name'], 'sub': sub, 'kind': kind, 'cb': [self.cbid(kind), self.ch(sem)]}
            if self.p(0.3):
                p['deco'] = 1
            if kind == 'assert':
                o = self.assert_opts()
                if o:
                    p['opts'] = o
            elif self.p(0.2):
                p['kw'] = {k: ['i', self.rng.randrange(9)] for k in self.rng.sample(['a', 'b', 'default', 'key'], self.ch([1, 2]))}
            pre.append(p)
        if pre:
            spec['pre_bind'] = pre
        self.prefix = spec['name']

    def parsers(self, spec, n):
        out = []
        fields = self.fields_of(spec['name']) if spec['name'] in self.specs else spec['fields']
        inherited = []
        for b in spec.get('bases', ()):
            if b in self.specs:
                inherited += self.fields_of(b)
        req = [f for f in inherited + spec['fields'] if not f.get('default')]
        for i in range(n):
            kind = self.ch(['class', 'class', 'selectable', 'static'])
            p = {'name': f'parse_{i}', 'kind': kind, 'cb': self.cbid('parser')}
            if kind == 'static':
                p['sem'] = self.ch(['upper', 'int', 'first', ['const', ['n']], ['const', ['l', []]]])
            elif len(req) == 1 and self.p(0.7):
                p['mode'] = 'field'
                p['field'] = req[0]['name']
                p['sem'] = self.ch(['int', 'str', 'strip', 'upper', 'first', 'ident', 'split', 'neg', 'len'])
            else:
                p['mode'] = 'mapping'
                # the parser is a JSON-free text or a pair; it maps to constant arguments
                kw = {f['name']: self.value_for(f['node'], 1.0) if f['node']['k'] != 'self' else ['n'] for f in req}
                kw = {k: (['n'] if self.has_rec(v) else v) for k, v in kw.items()}
                p['sem'] = ['const', ['d', [[['s', k], v] for k, v in kw.items()]]] if self.p(0.6) else 'dict'
            out.append(p)
        spec['parsers'] = out

    def post_new(self, spec, modes=None):
        mode = self.ch(modes or ['none', 'self', 'reject', 'reject', 'other', 'twin', 'attr'])
        pn = {'cb': self.cbid('post_new'), 'mode': mode}
        if mode == 'reject':
            pn['field'] = (spec['fields'] or [f for b in spec['bases'] for f in self.fields_of(b)])[0]['name']
            pn['mod'] = 3
            pn['rem'] = self.rng.randrange(3)
        if mode == 'other':
            pn['val'] = self.ch([1, 'falsy'])
        spec['post_new'] = pn

    # ------------------------------------------------------------ arguments
    def kwargs_for(self, name, near=0.9, d=0, complete=None, p_opt=0.5):
        out = {}
        fs = list(self.fields_of(name))
        if self.p(0.4):
            self.rng.shuffle(fs)
        old = self.tame
        self.tame = old or self.p(0.9 if near >= 0.95 else 0.5)
        for f in fs:
            if f.get('default') and not self.p(p_opt):
                continue
            old_values = self.seen_values.setdefault((name, f['name']), [])
            if old_values and self.p(self.p_reuse):
                out[f['name']] = self.ch(old_values)
                continue
            out[f['name']] = self.value_for(f['node'], near, d)
            if d == 0:
                old_values.append(out[f['name']])
        self.tame = old
        if complete is False and out and self.p(0.1):
            del out[self.ch(sorted(out))]
        return out

    def record_alts(self, name, near=0.97, n=4):
        """a record given by alternatives: the first that can be built"""
        return ['r', name, [self.kwargs_for(name, near) for _ in range(n)]]

    def mapping_for(self, name, near=0.9):
        kw = self.kwargs_for(name, near, complete=False)
        if self.p(0.08):
            kw['unknown'] = ['i', 1]
        t = self.ch(['d', 'd', 'd', 'od', 'ds', 'mp', 'cm'])
        return [t, [[['s', k], v] for k, v in kw.items()]]

    def faults(self, p=0.3, kinds=None, names=None, cbs=None, base=False):
        """a fault plan: which callbacks fail, on which arguments, and how"""
        out = []
        cbs = [c for c, role in self.cbids if kinds is None or role in kinds] if cbs is None else cbs
        if not cbs or not self.p(p):
            return out
        for _ in range(self.ch([1, 1, 2, 3])):
            act = ['raiseB', self.ch(sorted(U.BASE))] if base else (
                ['raise', self.ch(names or U.ORDINARY)] if self.p(0.85) else
                ['ret', self.ch([['n'], ['e'], ['s', 'odd'], ['i', -99], ['l', []], ['fn', 'len']])])
            f = {'cb': self.ch(cbs), 'act': act}
            if self.p(0.4):
                f['when'] = ['mod', 2, self.rng.randrange(2)]
            out.append(f)
        return out

    # ------------------------------------------------------------ selections and exports
    SHAPES1 = ['list', 'tuple', 'gen', 'iter', 'oneshot', 'keys', 'deque', 'chain', 'map']
    SHAPES2 = ['list', 'tuple', 'gen', 'iter', 'oneshot', 'dict', 'odict', 'mproxy', 'items', 'chain', 'map', 'zip']

    def sel(self, keys, empty=0.1, shapes=None, values=None):
        """a random selection description over some keys"""
        rng = self.rng
        extra = ['X', 'Y', 'Z', 'K', 'XY']
        pool = list(keys) + extra
        s = {}
        if self.p(empty):
            if self.p(0.5):
                s['rm'] = ['list', []]
            return s
        if self.p(0.35):
            ks = rng.sample(list(keys), min(len(keys), rng.choice([1, 1, 2]))) if self.p(0.8) and keys else [self.ch(pool)]
            s['rm'] = [self.ch(self.SHAPES1 + (['str'] if len(ks) == 1 else [])), ks]
        if self.p(0.35):
            ks = rng.sample(pool, rng.choice([1, 1, 2]))
            s['mrm'] = [self.ch(self.SHAPES1 + (['str'] if len(ks) == 1 else [])), ks]
        if self.p(0.4):
            s['ren'] = [self.ch(self.SHAPES2), self.pairs(pool, extra)]
        if self.p(0.3):
            s['mren'] = [self.ch(self.SHAPES2), self.pairs(pool, extra)]
        if self.p(0.35):
            s['add'] = [self.ch(self.SHAPES2), [[k, (values or self.scalar)()] for k in rng.sample(pool, rng.choice([1, 1, 2]))]]
        if self.p(0.35):
            s['madd'] = [self.ch(self.SHAPES2), [[k, (values or self.scalar)()] for k in rng.sample(pool, rng.choice([1, 1, 2]))]]
        if not s and not empty:
            s['madd'] = [self.ch(self.SHAPES2), [[self.ch(extra), (values or self.scalar)()]]]
        return s

    def pairs(self, pool, extra):
        rng = self.rng
        n = rng.choice([1, 1, 2])
        src = rng.sample(pool, min(n, len(pool)))
        return [[a, self.ch(extra if self.p(0.7) else pool)] for a in src]

    def export_args(self, name=None, callbacks=True):
        ex = {}
        keys = self.field_names(name) if name else ['x']
        if self.p(0.4):
            ex['include_defaults'] = self.p(0.8)
        if self.p(0.3):
            ex['sort'] = self.ch([1, True, -1, 0, None] + ([['cb', self.cbid('sortkey'), self.ch(['ident', 'len', 'rev'])]]
                                                           if callbacks else []))
        if self.p(0.35):
            shape = self.ch(['one', 'one', 'set', 'fset'])
            used = sorted({t for f in self.fields_of(name) for t in f.get('tags', ()) if t in self.tagnames}) if name else []
            tags = used if used and self.p(0.7) else self.tagnames
            ex['blacklist'] = [shape, self.rng.sample(tags, 1 if shape == 'one' else min(len(tags), self.ch([1, 2])))]
        if self.p(0.35):
            ks = self.rng.sample(keys, self.ch([1, min(2, len(keys))]))
            if self.p(0.2):
                ks = ks[1:] + ['unknown']
            ex['whitelist'] = [self.ch(['one', 'one', 'sub', 'set', 'set', 'list', 'fset', 'tuple', 'dict', 'keys']), ks]
        return ex


def flavour(rng, **kw):
    """a generator with random general options"""
    k = rng.random()
    if k < 0.25:
        kw.setdefault('hashable', True)
    elif k < 0.45:
        kw.setdefault('jsonable', True)
    return Gen(rng, **kw)


def unshared(x):
    if isinstance(x, list):
        return unshared(x[2]) if len(x) == 3 and x[0] == 'shared' else [unshared(e) for e in x]
    return {k: unshared(v) for k, v in x.items()} if isinstance(x, dict) else x


def style_root(g, style):
    """elements of containers inherit the style of the class"""
    return g.root_style
