"""Random declarations.  A profile biases the features; what is correct for the
result is decided by the specification alone."""
import random
from dsl import *
import gen

LITS = ['-', ',', ' ', ':', '/', '=', '', 'a', 'ab', '.', '|', '(', ')', '[', ']', '{{', '}}', '\n', 'é', '*', '+', '?', '^', '$', '\\', '#', '1', '--',
        '0x', '<', '>', '日', 'x ', '"', '&', '~', '%', "'", ';', '{{}}', '.*', '\t', '😀', '::', '=>', '@', '\r\n', '(?', 'A']
NAMES = ['A', 'B', 'C', 'VarA', 'VarB1', 'HTTPServer', 'x', 'snake_case', 'Type9x', 'AbcDef', 'ABc', 'a_B', 'Z9', 'Foo_Bar', 'iOS', 'V2', 'Éa', 'naïveX', 'X__Y', 'A1b2C3',
         'A٣b', 'x〇Y', 'किB', 'क्Xa', 'Tª9', 'straßeX', 'ĦaB', 'type', 'Loop', 'async', 'lower', 'UPPER', 'MixedCASEName', 'T', 'Ok', 'Err', 'Some', 'None', 'Default', 'String', 'L1_l2']
FIELDS = ['a', 'b', 'c', 'ab', 'value', 'type', 's', 'f', 'x1', 'self_', 'fn', 'value_1', 'p', 'empty', 'r', 'e', 'm', 'C', '_0', 'long_name', 'crate_', 'é']
STYLES = ['none', 'lowercase', 'UPPERCASE', 'snake_case', 'SNAKE_CASE', 'camelCase', 'CamelCase', 'kebab-case', 'KEBAB-CASE', 'Title Case', 'Title case', 'title case', 'TITLE CASE']
DEFAULT = dict(enum=.45, fs=.85, spec=.1, opt=.12, with_=.12, join=.04, rx=.1, trx=.06, infer=.06, dflt=.12, new=.06, deep=.06, style=.35, nested=.25, generic=.06, wrx=.3, dup=.05, fmt=.2, ignore=.06, debug=.08)

def profile(**k):
    p = dict(DEFAULT)
    p.update(k)
    return p

def unit_scalars(rng):
    return rng.choice([STR, STR, STR, U8, U8, I32, CHAR, BOOL, U64, I8, U16, F64, P(rng.choice(INTS)), PRB])

# ---- regexes --------------------------------------------------------------------
def atom(rng):
    return rng.choice([lambda: lit(rng.choice('abcx1-. é|')), lambda: cls('a-c'), lambda: cls('0-9'), lambda: cls('a-z'), lambda: cls('-.a', neg=rng.random() < .5),
                       lambda: DOT, lambda: cls('0-9a-f'), lambda: lit(rng.choice(['ab', 'x(', '{}', 'é日', '^a$', '# a', 'a b'])), lambda: esc(rng, lit(rng.choice(['a', 'é', '-', ' ', '日', '.', 'ab', '\n']))),
                       lambda: rng.choice(CLASSES), lambda: rng.choice(CLASSES), lambda: at(rng.choice(['wb', 'nwb', 'mbos', 'meos', 'wb', 'bos', 'eos'])) if rng.random() < .6 else cls('a-z')])()
def esc(rng, n):
    n['esc'] = rng.choice('xuc')
    return n
def rand_rx(rng, depth=2, caps=True):
    r = rng.random()
    if depth == 0 or r < .2:
        return atom(rng)
    if r < .45:
        a = atom(rng)
        lo, hi = rng.choice([(0, -1), (1, -1), (0, 1), (1, -1), (2, 3), (1, 2), (0, 2), (2, 2)])
        return rep(a, lo, hi, rng.random() < .7)
    if r < .7:
        return cat(*[rand_rx(rng, depth - 1) for _ in range(rng.choice([2, 2, 3]))])
    if r < .85:
        return alt(*[rand_rx(rng, depth - 1) for _ in range(rng.choice([2, 2, 3]))])
    if r < .92:
        return grp(rand_rx(rng, depth - 1), rng.choice(['(', '?:', '?U:', '?x:', '(', '?:']))
    if r < .94:
        return off(rng.choice(['nci', 'nds']), rand_rx(rng, depth - 1))
    if r < .96:
        # the flag in the middle of a group
        return cat(rand_rx(rng, depth - 1), rng.choice([ci, dotall])(rand_rx(rng, depth - 1), mid=True))
    return rng.choice([ci, dotall])(rand_rx(rng, depth - 1), head=False)
def top_rx(rng):
    x = rand_rx(rng)
    r = rng.random()
    if r < .12:
        x = rng.choice([ci, dotall])(x, head=True)
    elif r < .18:
        x = grp(x, rng.choice(['?x:', '?x:', '?U:']), head=True)
    return x

LAZY = dotall(star(DOT, False))
def with_rx(rng, ty):
    """the pattern of a custom format; often one that is nearly the pattern accepting everything"""
    r = rng.random()
    if ty['k'] != 'str' and r < .5:
        return rng.choice([plus(DIG), rep(DIG, 1, 2), star(DOT), alt(plus(DIG), 'x'), cat(opt('-'), plus(DIG)), plus(DIG, False), dotall(plus(DOT)), dotall(star(DOT))])
    if r < .75:
        return top_rx(rng)
    return rng.choice([cat(LAZY, rng.choice('!a1-')), cat(rng.choice('!a1-'), LAZY), cat(LAZY, 'a', LAZY), alt(LAZY, 'a'), alt('a', LAZY), star(DOT, False), plus(DOT, False), dotall(star(DOT)),
                       dotall(plus(DOT, False)), rep(LAZY, 2, 2), opt(LAZY), grp(LAZY), cat(LAZY, LAZY), rep(DOT, 0, 3, False), ci(cat('a', LAZY), head=True), dotall(star(DOT, False), head=True), lit(''),
                       cat(LAZY, DIG), dotall(DOT), cat(grp(alt('a', 'b')), LAZY)])

# ---- format parameters -----------------------------------------------------------
def rand_spec(rng, ty, a=None):
    """parameters valid for the type ('' for none)"""
    k = ty['k']
    if k == 'ref':
        while True:
            s = rand_spec(rng, ty['e'], a)
            # the address of a reference is not known
            if not s.endswith('p'):
                return s
    if k == 'box':
        k = 'bool'
    trait = ''
    if a and (a['with'] or a['opt']) and False:
        return ''
    if k == 'prb':
        trait = rng.choice(['', '', '', '?', 'x', 'X', 'o', 'b', 'e', 'E', 'x?', 'X?', 'p'])
    elif k in INTS or k.startswith('nz'):
        trait = rng.choice(['', '', '', '?', 'x', 'X', 'o', 'b', 'e', 'E', 'x?', 'X?'])
    elif k in ('f32', 'f64'):
        trait = rng.choice(['', '', '', '?', 'e', 'E', 'x?'])
    elif k in ('str', 'char', 'bool'):
        trait = rng.choice(['', '', '', '?', 'X?'])
    elif k in ('opt', 'vec', 'tup'):
        trait = '?'
    align = rng.choice(['', '', '<', '>', '^'])
    if align and rng.random() < .5:
        align = rng.choice(['*', ' ', '0', 'é', '-', '#', '<', '+', '日', '_', '\n', '{', ':', '"', '\\', '.', '?', 'x', '$']) + align
    sign = rng.choice(['', '', '', '+', '-'])
    alt_ = rng.choice(['', '', '#'])
    zero = rng.choice(['', '', '', '0'])
    width = rng.choice(['', '', '1', '4', '8', '12', '20'])
    prec = ''
    if k in ('str', 'char', 'bool', 'prb') and rng.random() < .3:
        prec = rng.choice(['.0', '.1', '.2', '.5'])
    if k in ('f32', 'f64') and rng.random() < .4:
        prec = rng.choice(['.0', '.1', '.2', '.3', '.4', '.6'])
    if (k in INTS or k.startswith('nz')) and rng.random() < .2:
        prec = rng.choice(['.0', '.1', '.2', '.5'])
    if k not in INTS and not k.startswith('nz') and k not in ('f32', 'f64', 'str', 'char', 'bool', 'prb') and trait != '?':
        return ''
    s = align + sign + alt_ + zero + width + prec + trait
    return ':' + s if s else ''

class G:
    def __init__(self, rng, prof):
        self.rng, self.p = rng, prof
        self.types = []
        self.n = 0
    def hit(self, k):
        return self.rng.random() < self.p[k]
    def scalar(self):
        if self.p.get('prb') and self.rng.random() < self.p['prb']:
            return PRB
        return unit_scalars(self.rng)
    def field(self, key, F_, D_, depth, params):
        """a field dict and whether it can take part in the format, for the derives"""
        rng, p = self.rng, self.p
        attrs = []
        named = [t for t in self.types if not t['params']]
        ty = self.scalar()
        if named and rng.random() < .3:
            t = rng.choice(named)
            if (not F_ or 'F' in t['ds']) and (not D_ or 'D' in t['ds']):
                ty = N(t['name'])
        if F_ and not D_ and rng.random() < .06:
            ty = rng.choice([PATH, OS])
        if params and rng.random() < .5:
            ty = Par(params[0])
        scalar = ty['k'] not in ('named', 'param')
        fmt = None
        if self.hit('fmt'):
            fmt = rng.choice(LITS) + '{%s}' % (rand_spec(rng, ty) if self.hit('spec') and ty['k'] != 'param' else '') + rng.choice(LITS)
        mode = None
        r = rng.random()
        acc = 0
        for m in ('with_', 'join', 'rx', 'infer'):
            acc += p[m]
            if r < acc:
                mode = m
                break
        isopt = self.hit('opt')
        dw = fw = rx = None
        infer = False
        if mode == 'with_' and ty['k'] != 'param':
            if ty['k'] in ('u8', 'u16', 'u32', 'u64') and rng.random() < .5:
                w = 'hex'
            elif scalar and ty['k'] != 'str' and rng.random() < .6:
                w = rng.choice(['brk', 'brkr', 'fmt', 'num', 'pad', 'dis'])
            elif scalar:
                if rng.random() < .7:
                    ty = STR
                w = rng.choice(['num', 'alt', 'alt2', 'grp', 'nest', 'old', 'cis', 'rej', 'dota', 'brk', 'brkr', 'pad', 'fmt', 'dis'])
            else:
                w = rng.choice(['brk', 'fmt', 'dis', 'brkr'])
            if scalar and rng.random() < p['wrx']:
                w = Rx(with_rx(rng, ty))
            dw = w
            if w == 'dis':
                fw = 'fro'
            if F_ and rng.random() < .15 and w not in ('dis',):
                fw = rng.choice(['num', 'brk', 'alt', 'fmt', 'brkr']) if ty['k'] == 'str' else rng.choice(['fmt', 'brk', 'num'])
                if rng.random() < .5:
                    dw = None
                if scalar and ty['k'] == 'str' and rng.random() < p['wrx']:
                    fw = Rx(with_rx(rng, ty))
        elif mode == 'join' and ty['k'] != 'param':
            e = ty
            dl = rng.choice([',', ', ', '|', '-', '::', 'aa', '.', ' ', 'é', '', '\n', '*'])
            item = rng.choice(['fmt', 'fmt', 'brk', 'hex' if e['k'] in ('u8', 'u16', 'u32', 'u64') else 'fmt'])
            w = Delim(dl) if item == 'fmt' else Join(W(item), dl)
            if rng.random() < .1:
                e, w = Vec(e), Join(w, rng.choice([';', '/', '--']))
            ty = Vec(e)
            dw = w
        elif mode == 'rx' and F_:
            if scalar and rng.random() < .6:
                ty = STR
            rx = top_rx(rng) if ty['k'] == 'str' else rng.choice([plus(DIG), star(DOT), rep(DIG, 1, 2), alt(plus(DIG), 'x'), top_rx(rng)])
            q = rng.random()
            if q < .2:
                rx = cat(rng.choice(['<', 'v=', '', '(']), cap('', rx), rng.choice(['>', '', ';', 'a']))
                if fmt is not None and rng.random() < .7:
                    fmt = None
        elif mode == 'infer' and F_ and ty['k'] != 'param':
            infer = True
        if not F_ and ty['k'] != 'param' and rng.random() < .2:
            ty = Box(ty) if fmt is None and not dw and rng.random() < .4 else Ref(Ref(ty)) if rng.random() < .2 else Ref(ty)
        if isopt:
            ty = Opt(ty)
        kd = dict(fmt=fmt, with_=dw, opt=isopt)
        if rng.random() < p['dup']:
            attrs.append(d(fmt=fmt if rng.random() < .5 else None, with_=rng.choice([None, dw]), opt=isopt))
        if fmt is not None or dw or isopt:
            attrs.append(d(**kd))
        if F_ and (fw or rx or infer):
            attrs.append(fs(regex=rx, with_=fw, infer=infer))
        if rng.random() < p['dup'] * 2:
            rng.shuffle(attrs)
        return F(key, ty, *attrs)
    def keys(self, n):
        rng = self.rng
        if rng.random() < .35:
            return [None] * n
        return rng.sample(FIELDS, n)
    def fields(self, n, F_, D_, depth, params):
        return [self.field(k, F_, D_, depth, params) for k in self.keys(n)]
    def fname(self, fs_, i):
        f = fs_[i]
        if f['key'] is None:
            return str(i)
        return ('r#' if self.rng.random() < .1 and f['key'] not in ('self_',) else '') + f['key']
    def can_show(self, f):
        a = gen.resolve(f['attrs'])
        return f['ty']['k'] not in ('opt', 'vec', 'tup') or a['opt'] or a['w']
    def fmt(self, fs_, idx, F_, name=False):
        """a format naming the fields idx (each once when parsed)"""
        rng = self.rng
        order = list(idx)
        if rng.random() < .35:
            rng.shuffle(order)
        out = rng.choice(LITS) if rng.random() < .4 else ''
        if name and rng.random() < .6:
            out += '{}' + rng.choice(LITS)
        for j, i in enumerate(order):
            f = fs_[i]
            sp = ''
            if self.hit('spec') and f['ty']['k'] != 'param':
                a = gen.resolve(f['attrs'])
                t = f['ty']['e'] if a['opt'] else f['ty']
                # under `with` only Display can be named
                if a['w']:
                    sp = rng.choice(['', ':>6', ':<4', ':^9', ':*^7', ':.2', ':05'])
                elif a['opt'] or t['k'] not in ('opt', 'vec', 'tup'):
                    sp = rand_spec(rng, t)
            out += '{%s%s}' % (self.fname(fs_, i), sp)
            if j + 1 < len(order) or rng.random() < .4:
                out += rng.choice(LITS)
        if not F_ and order and rng.random() < .2:
            out += '{%s}' % self.fname(fs_, rng.choice(order))
        return out
    def value(self, t):
        return gen.gen_value(Case('tmp', *self.types, roots=[]), t, self.rng)
    def struct(self, name, F_, D_, depth, params):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4] if depth == 0 else [1, 2, 2])
        fl = self.fields(n, F_, D_, depth, params)
        ds = ('D' if D_ else '') + ('F' if F_ else '')
        attrs, dv = [], None
        idx = list(range(n))
        whole = False
        if F_ and n and not params and self.hit('dflt'):
            drop = [i for i in idx if rng.random() < .4]
            if rng.random() < .5:
                whole = True
                dv = [self.value(f['ty']) for f in fl]
                ds += 'm'
                for i in drop:
                    if rng.random() < .3 and self.hasdef(fl[i]['ty']):
                        fl[i]['attrs'].append(fs(default=True))
            else:
                ok = [i for i in drop if self.hasdef(fl[i]['ty'])]
                if rng.random() < .3 and ok:
                    ks = [str(i) if fl[i]['key'] is None else fl[i]['key'] for i in ok]
                    if len(ks) > 1 and rng.random() < .5:
                        attrs.append(fs(default_fields=ks[:1]))
                        ks = ks[1:]
                    attrs.append(fs(default_fields=ks))
                else:
                    for i in ok:
                        fl[i]['attrs'].append(fs(default=True))
                drop = ok
            idx = [i for i in idx if i not in drop]
        deep = []
        if n and not params and self.hit('deep'):
            cands = [t for t in self.types if t['kind'] == 'struct' and 'M' in t['ds'].upper() and not t['params'] and t['vs'][0]['fs'] and t['vs'][0]['shape'] != 'unit']
            if cands:
                t = rng.choice(cands)
                i = rng.randrange(n)
                nt = N(t['name'])
                nt = nt if rng.random() < .8 else Box(nt) if F_ or rng.random() < .5 else Ref(nt)
                f = F(fl[i]['key'], nt, *( [fs(default=True)] if F_ and (not whole or rng.random() < .4) else []))
                fl[i] = f
                if whole:
                    dv[i] = self.value(f['ty'])
                fs2 = t['vs'][0]['fs']
                js = [j for j in range(len(fs2)) if fs2[j]['ty']['k'] not in ('opt', 'vec', 'tup', 'param')
                      and (fs2[j]['ty']['k'] != 'named' or (set(self.type(fs2[j]['ty']['name'])['ds']) >= set(('F' if F_ else '') + ('D' if D_ else ''))))]
                rng.shuffle(js)
                deep = [(i, str(j) if fs2[j]['key'] is None else fs2[j]['key'], fs2[j]['ty']) for j in js[:rng.choice([1, 1, 2])]]
                idx = [x for x in idx if x != i]
        new = None
        if F_ and n and self.hit('new') and not params:
            if whole:
                # new leaves nothing to the default of the whole
                for i in range(n):
                    if i not in idx and not any(a['dflt'] for a in fl[i]['attrs']):
                        if self.hasdef(fl[i]['ty']):
                            fl[i]['attrs'].append(fs(default=True))
                        elif fl[i]['ty']['k'] != 'named' or not any(x[0] == i for x in deep):
                            idx.append(i)
            new = self.new(fl)
        mono = []
        if n == 1 and idx == [0] and rng.random() < .4 and not deep:
            pass
        elif F_ and n and self.hit('trx') and not deep:
            parts = []
            for i in rng.sample(idx, len(idx)):
                parts += [rng.choice(['', '-', 'a', 'é', '__', '(', 'x.y']), cap(self.fname(fl, i).replace('r#', ''), top_rx(rng) if rng.random() < .6 else rng.choice([plus(DIG), star(DOT), star(cls('a-z'))]), p=rng.random() < .3)]
            parts.append(rng.choice(['', ';', 'b']))
            rx = cat(*parts)
            if rng.random() < .15:
                rx = ci(rx, head=True)
            attrs.append(fs(regex=rx))
            if D_ or rng.random() < .3:
                attrs.append(d(self.fmt(fl, idx, False)))
        else:
            f = self.fmt(fl, [i for i in idx if self.can_show(fl[i])], F_)
            for i, k, t in deep:
                f += rng.choice(LITS) + '{%s.%s%s}' % (str(i) if fl[i]['key'] is None else fl[i]['key'], k, rand_spec(rng, t) if self.hit('spec') else '')
            if self.hit('dup'):
                attrs.append(d('zz'))
            if '{}' in f.replace('{{', '').replace('}}', ''):
                f = f.replace('{}', '')
            attrs.append(d(f))
            if F_ and self.hit('infer') and not params:
                attrs.append(fs(infer=True))
        if whole:
            attrs.append(fs(default=True))
        if new:
            attrs.append(fs(new=new))
        if rng.random() < .3:
            rng.shuffle(attrs)
            # keep the last display format the intended one
            attrs.sort(key=lambda a: bool(a['fmt']) and ''.join(map(chr, a['fmt'][0])) != 'zz')
        t = struct(name, *fl, attrs=attrs, ds=ds, dv=dv, shape=None if n else rng.choice(['unit', 'named', 'tuple']), params=', '.join(params))
        return t
    def hasdef(self, ty):
        k = ty['k']
        if k == 'named':
            return 'M' in self.type(ty['name'])['ds'].upper()
        if k == 'param' or k.startswith('nz'):
            return False
        return True
    def type(self, name):
        return next(t for t in self.types if t['name'] == name)
    def new(self, fl):
        rng = self.rng
        n = len(fl)
        order = list(range(n))
        # swap two fields of equal type
        pairs = [(i, j) for i in range(n) for j in range(i) if repr(fl[i]['ty']) == repr(fl[j]['ty'])]
        if pairs and rng.random() < .6:
            i, j = rng.choice(pairs)
            order[i], order[j] = order[j], order[i]
        kind = rng.choice(['self', 'opt', 'res'])
        rej = mark = None
        plain = [i for i in range(n) if fl[i]['ty']['k'] in ('str', 'u8', 'u16', 'bool', 'char', 'i8', 'i32', 'u64')]
        if plain and kind != 'self':
            i = rng.choice(plain)
            rej = (i, self.simple(fl[i]['ty']))
        if plain and rng.random() < .3:
            i = rng.choice(plain)
            mark = (i, self.simple(fl[i]['ty']))
        return New(order, kind, rej, mark)
    def simple(self, ty):
        rng = self.rng
        return T({'str': rng.choice(['a', '', 'ab']), 'bool': 'true', 'char': 'a'}.get(ty['k'], rng.choice(['0', '1', '9'])))
    def enum(self, name, F_, D_, depth, params):
        rng = self.rng
        n = rng.choice([1, 2, 3, 3, 4, 5] if depth == 0 else [1, 2, 3])
        names = rng.sample(NAMES, n)
        style = rng.choice(STYLES) if self.hit('style') else None
        units = rng.random() < .3
        attrs, vs = [], []
        tf = None
        if rng.random() < .15:
            tf = rng.choice(LITS) + '{}' + rng.choice(LITS)
        trx = None
        if F_ and self.hit('trx') and rng.random() < .5:
            trx = cat(rng.choice(['', '<', 'x-']), cap('', rng.choice(['', 'q'])), rng.choice(['', '>', '?', 'a']))
            if rng.random() < .3:
                trx = ci(trx, head=True)
        used = False
        for nm in names:
            va = []
            vstyle = rng.choice(STYLES) if self.hit('style') and rng.random() < .3 else None
            unit = units or rng.random() < .4
            fl = [] if unit else self.fields(rng.choice([1, 1, 2, 2, 3]), F_, D_, depth + 1, params)
            fmt = rx = None
            new = None
            if unit:
                if rng.random() < .35:
                    fmt = rng.choice([rng.choice(LITS) + '{}' + rng.choice(LITS), rng.choice(LITS) + rng.choice(LITS), rng.choice(['same', 'a', ''])])
                if self.hit('spec') and rng.random() < .5:
                    fmt = '{' + rng.choice([':>8', ':^12', ':*<7', ':.2', ':-^9.3', ':03', ':>+6']) + '}'
            else:
                idx = list(range(len(fl)))
                if F_ and self.hit('dflt') and not params:
                    for i in idx[:]:
                        if rng.random() < .4 and self.hasdef(fl[i]['ty']):
                            fl[i]['attrs'].append(fs(default=True))
                            idx.remove(i)
                fmt = self.fmt(fl, [i for i in idx if self.can_show(fl[i])], F_, name=True)
                if tf is not None and not D_ and False:
                    fmt = None
                if F_ and rng.random() < self.p['new'] and not params:
                    new = self.new(fl)
            if F_ and self.hit('rx') and rng.random() < .5:
                parts = [rng.choice(['', '-', 'a', 'x.y'])]
                if rng.random() < .5:
                    parts.append(cap('', rng.choice(['', 'z', star(DOT)])))
                need = [i for i in range(len(fl)) if not any(a['dflt'] for a in fl[i]['attrs'])]
                for i in rng.sample(need, len(need)):
                    parts += [cap(self.fname(fl, i).replace('r#', ''), top_rx(rng) if rng.random() < .5 else star(DOT)), rng.choice(['', ';', '='])]
                rx = cat(*parts)
            elif trx and fl:
                rx = cat(cap('', ''), *[cap(self.fname(fl, i).replace('r#', ''), star(DOT)) for i in range(len(fl)) if not any(a['dflt'] for a in fl[i]['attrs'])])
            if fmt is not None or vstyle:
                va.append(d(fmt, style=vstyle))
            ign = F_ and self.hit('ignore')
            if rx or new or ign:
                va.append(fs(regex=rx, new=new, ignore=ign))
            if F_ and fl and self.hit('infer') and not params:
                va.append(fs(infer=True))
            if rng.random() < .2:
                rng.shuffle(va)
            if params and any(gen_uses(f['ty'], params) for f in fl):
                used = True
            vs.append(V(nm, *fl, attrs=va))
        if params and not used:
            f = F(None, Par(params[0]))
            vs.append(V('Gen', f, attrs=[d(rng.choice(LITS) + '{0}')]))
        if style or tf is not None:
            attrs.append(d(tf, style=style))
        if trx:
            attrs.append(fs(regex=trx))
        return enum(name, *vs, attrs=attrs, ds=('D' if D_ else '') + ('F' if F_ else ''), params=', '.join(params))

def gen_uses(ty, params):
    k = ty['k']
    if k == 'param':
        return True
    if k in ('opt', 'vec'):
        return gen_uses(ty['e'], params)
    return False

def rand_case(rng, prof, id, ops=None):
    g = G(rng, prof)
    F_ = g.hit('fs')
    D_ = rng.random() < .85 or not F_
    if g.hit('nested') or g.hit('deep'):
        for nm in rng.sample(['I', 'K'], rng.choice([1, 1, 2])):
            if rng.random() < .6:
                t = g.struct(nm, True, True, 1, [])
                if 'm' not in t['ds'] and all(g.hasdef(f['ty']) for f in t['vs'][0]['fs']) and t['vs'][0]['fs']:
                    t['ds'] += 'M'
            else:
                t = g.enum(nm, True, True, 1, [])
            g.types.append(t)
    params = ['P1'] if g.hit('generic') else []
    if rng.random() < prof['enum']:
        t = g.enum('X', F_, D_, 0, params)
    else:
        t = g.struct('X', F_, D_, 0, params)
        if params and not any(gen_uses(f['ty'], params) for f in t['vs'][0]['fs']):
            t['params'] = ''
    g.types.append(t)
    if t['params']:
        insts = rng.sample([U8, STR, CHAR, BOOL, I32, F64], 2)
        named = [x for x in g.types[:-1] if not x['params'] and 'D' in x['ds'] and 'F' in x['ds']]
        if named and rng.random() < .4:
            insts[0] = N(named[0]['name'])
        roots = [N('X', i) for i in insts]
    else:
        roots = [N('X')]
    c = Case(id, *g.types, roots=roots)
    c.tags = set()
    c.auto = False
    gen.auto(c, rng, **(ops or {}))
    return c

# ---- declarations whose texts can be cut in one way only ------------------------------------
SEPS = ['-', ',', ' ', ':', '/', '=', '.', '|', '(', ')', '[', ']', '{{', '}}', '\n', 'é', '*', '+', '?', '^', '$', '\\', '#', '--', '<', '>', '日', '"', '&', '~', ', ', '::', '\t', '😀', ' a ', '.*', '(?', '|x']
def unamb_case(rng, id, ops):
    """mostly within the condition of spec/RoundTrip.tla"""
    types = []
    closed = [U8, U32, U64, U16, U128, BOOL, P('nzu8'), P('usize')]
    def fields(nf, named, last_open=True):
        keys = [None] * nf if rng.random() < .3 else rng.sample(FIELDS, nf)
        out = []
        order = list(range(nf))
        if rng.random() < .4:
            rng.shuffle(order)
        tys = {}
        for p, i in enumerate(order):
            last = p == nf - 1
            t = rng.choice(closed)
            if last and last_open and rng.random() < .6:
                t = rng.choice([STR, STR, CHAR, I32, I8, P('i128'), F64])
            elif named and rng.random() < .3:
                t = N(rng.choice(named))
            tys[i] = t
        for i in range(nf):
            f = None
            if rng.random() < .25:
                last = order[-1] == i
                f = rng.choice(SEPS + ['']) + '{}' + ('' if last and tys[i]['k'] in ('str', 'char') else rng.choice(SEPS))
            out.append(F(keys[i], tys[i], *([d(f)] if f else [])))
        fmt = rng.choice(SEPS + ['', ''])
        opt_last = nf and rng.random() < .25 and out[order[-1]]['ty']['k'] in ('u8', 'u32', 'u64', 'str', 'bool')
        for p, i in enumerate(order):
            fmt += '{%s}' % (str(i) if keys[i] is None else keys[i])
            if p < nf - 1:
                fmt += rng.choice(SEPS)
        if opt_last:
            f = out[order[-1]]
            fm = ''.join(map(chr, f['attrs'][0]['fmt'][0])) if f['attrs'] else rng.choice(['<', '?', ';', '#']) + '{}'
            out[order[-1]] = F(f['key'], Opt(f['ty']), d(fm, opt=True))
        return out, fmt
    def struct_(nm, named):
        fl, fmt = fields(rng.choice([1, 1, 2, 2, 3]), named)
        if len(fl) == 1 and rng.random() < .4:
            return struct(nm, *fl, ds='DF')
        return struct(nm, *fl, attrs=[d(fmt)], ds='DF')
    def enum_(nm, named):
        vs = []
        names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
        for q, vn in enumerate(names):
            if rng.random() < .45:
                a = [] if rng.random() < .6 else [d(rng.choice(SEPS) + '{}' + rng.choice(SEPS), style=rng.choice([None] + STYLES))]
                vs.append(V(vn, attrs=a))
            else:
                fl, fmt = fields(rng.choice([1, 1, 2]), named)
                lead = rng.choice(['%s' % 'pqrstu'[q], '{}', '{}' + rng.choice(SEPS)])
                vs.append(V(vn, *fl, attrs=[d(lead + fmt)]))
        return enum(nm, *vs, attrs=[d(style=rng.choice(STYLES))] if rng.random() < .4 else [], ds='DF')
    named = []
    for nm in ['I', 'K', 'L'][:rng.choice([0, 1, 2, 2, 3])]:
        types.append((struct_ if rng.random() < .6 else enum_)(nm, named))
        named.append(nm)
    types.append((struct_ if rng.random() < .6 else enum_)('X', named))
    c = Case(id, *types, roots=[N('X')])
    c.tags, c.auto = set(), False
    gen.auto(c, rng, **ops)
    return c
