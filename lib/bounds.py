"""Generic declarations and the traits of their instantiations (spec/Bounds.tla)."""
import itertools, random
from dsl import *
import rand

TR = ['Display', 'Debug', 'LowerHex', 'FromStr']
ATR = TR + ['FromStrRegex']
PATH = dict(Display='::core::fmt::Display', Debug='::core::fmt::Debug', LowerHex='::core::fmt::LowerHex', FromStr='::core::str::FromStr', FromStrRegex='::parse_display::FromStrRegex')

# types, as in spec/Bounds.tla
def par(i): return dict(k='param', i=i)
def mark(*s): return dict(k='mark', s=list(s))
def rust(t, ps):
    k = t['k']
    if k == 'param':
        return ps[t['i'] - 1].split(':')[0].replace('const ', '').strip()
    if k == 'mark':
        return 'Mk<%d>' % sum(1 << TR.index(x) for x in t['s'])
    if k == 'cst':
        return str(t['c'])
    if k in ('w', 'fix', 'bx', 'arr', 'opt', 'vec'):
        return {'w': 'Wr', 'fix': 'Fix', 'bx': 'Box', 'arr': 'Arr', 'opt': 'Option', 'vec': 'Vec'}[k] + '<%s>' % rust(t['e'], ps)
    if k == 'out':
        return ('<%s as Assoc>::Out' if t.get('q') else '%s::Out') % rust(t['e'], ps)
    if k == 'tup':
        return '(%s,)' % ', '.join(rust(x, ps) for x in t['es'])
    if k == 'named':
        return t['name'] + ('<%s>' % ', '.join(rust(x, ps) for x in t['args']) if t['args'] else '')
    return rust_ty(t)
def clean_ty(t, names):
    t = {k: v for k, v in t.items() if k != 'q'}
    for k in ('e',):
        if k in t:
            t[k] = clean_ty(t[k], names)
    for k in ('es', 'args'):
        if k in t:
            t[k] = [clean_ty(x, names) for x in t[k]]
    if t['k'] == 'named':
        t['n'] = names.index(t.pop('name')) + 1 if 'name' in t else t['n']
    return t
def item(b, ps):
    if b['k'] == 'dots':
        return '..'
    if b['k'] == 'ty':
        return rust(b['ty'], ps)
    return '%s : %s' % (rust(b['ty'], ps), ' + '.join(PATH[x] for x in b['trs']))

class GCase:
    """generic types; ops: (type index, trait, arguments)"""
    def __init__(self, id, *types):
        self.id, self.types, self.ops, self.prelude, self.roots = id, list(types), [], '', []
    def attr(self, a, ps, rng):
        a = dict(a)
        if a['bound']:
            it = [item(b, ps) for b in a['bound'][0]]
            # quoted, in part or as a whole
            q = rng.random()
            if q < .2 and it:
                it = [rust_str(', '.join(it))]
            elif q < .4:
                it = [rust_str(x) if rng.random() < .5 else x for x in it]
            a['bound'] = [[dict(rust=x) for x in it]]
        return rust_attr(a)
    def decor(self, t):
        """what the bounds do not depend on: where a parameter's own bounds are written, defaults of parameters, a lifetime"""
        r = random.Random('%s/%s/g' % (self.id, t['name']))
        d_ = dict(moved=r.random() < .5, triv=r.random() < .25, default=r.random() < .25, life=r.random() < .25)
        if t is not self.types[-1] or not t['ps'] or t['kind'] != 'struct' or t['vs'][0]['shape'] == 'unit' or not any(a['fmt'] for a in t['attrs']):
            d_['life'] = False
        return d_
    def generics(self, t):
        d_ = self.decor(t)
        gs, wh = [], []
        for p in t['ps']:
            if p.startswith('const'):
                gs.append(p + (' = 1' if d_['default'] else ''))
                continue
            name = p.split(':')[0].strip()
            if ':' in p and d_['moved']:
                wh.append(p)
                p = name
            if d_['triv']:
                wh[:0] = [name + ': ::core::marker::Sized'] * (1 + 4 * d_['moved'])
            gs.append(p + (' = Mk<15>' if d_['default'] else ''))
        if d_['life']:
            gs.insert(0, "'x")
            if d_['triv']:
                wh.insert(0, "'x: 'x")
        return '<%s>' % ', '.join(gs) if gs else '', ' where %s' % ', '.join(wh) if wh else ''
    def rust_type(self, t):
        rng = random.Random(self.id)
        ps = t['ps']
        o = ['#[derive(%s)]' % ', '.join(x for c, x in (('D', 'Display'), ('F', 'FromStr')) if c in t['ds'])]
        o += [self.attr(a, ps, rng) for a in t['attrs']]
        g, wh = self.generics(t)
        life = [] if not self.decor(t)['life'] else [('#[from_str(default)] ' if 'F' in t['ds'] else '') + 'pub ' + ('zz_x: ' if t['vs'][0]['shape'] == 'named' else '') + "::core::marker::PhantomData<&'x ()>"]
        def body(v, vis):
            fs_ = [' '.join([self.attr(a, ps, rng) for a in f['attrs']] + [vis]) + ('' if f['key'] is None else f['key'] + ': ') + rust(f['ty'], ps) for f in v['fs']] + life
            if v['shape'] == 'named':
                return ' { %s }' % ', '.join(fs_)
            return '(%s)' % ', '.join(fs_) if v['shape'] == 'tuple' else ''
        if t['kind'] == 'struct':
            v = t['vs'][0]
            o.append('pub struct %s%s' % (t['name'], g) + (wh + body(v, 'pub ') if v['shape'] == 'named' else body(v, 'pub ') + wh + ';'))
        else:
            o.append('pub enum %s%s%s {' % (t['name'], g, wh))
            for v in t['vs']:
                o += [self.attr(a, ps, rng) for a in v['attrs']]
                o.append(v['name'] + body(v, '') + ',')
            o.append('}')
        return '\n'.join(o)
    def rust(self):
        o = ['#![allow(warnings)]', 'use harness_support::*;', 'use harness_support::bounds::*;', 'use parse_display::{Display, FromStr};']
        o += [self.rust_type(t) for t in self.types]
        o.append('pub fn run(r: usize, op: &str, v: &::harness_support::V) -> ::std::string::String {\n    let yes = match v.num() {')
        for k, (ti, tr, args) in enumerate(self.ops):
            t = self.types[ti]
            o.append('        %d => ::harness_support::implements!(%s, %s),' % (k, t['name'] + ('<%s>' % ', '.join((["'static"] if self.decor(t)['life'] else []) + [rust(a, []) for a in args]) if args else ''), PATH[tr]))
        o.append('        _ => unreachable!(),\n    };\n    format!("{{\\"ok\\":{yes}}}")\n}')
        return '\n'.join(o) + '\n'
    def mono(self):
        names = [t['name'] for t in self.types]
        def attr(a):
            a = {k: v for k, v in a.items() if not k.startswith('_')}
            a['bound'] = [[dict(b, ty=clean_ty(b['ty'], names)) if 'ty' in b else b for b in l] for l in a['bound']]
            return a
        return dict(id=self.id, types=[dict(name=T(t['name']), kind=t['kind'], np=len(t['ps']), ds=list(t['ds']), dv=[], attrs=[attr(a) for a in t['attrs']],
                vs=[dict(name=T(v['name']), shape=v['shape'], attrs=[attr(a) for a in v['attrs']],
                         fs=[dict(key=T(str(i) if f['key'] is None else f['key']), ty=clean_ty(f['ty'], names), attrs=[attr(a) for a in f['attrs']]) for i, f in enumerate(v['fs'])])
                    for v in t['vs']]) for t in self.types])
    def event(self, k, res):
        ti, tr, args = self.ops[k]
        return dict(op='impl', t=ti + 1, tr=tr, args=[clean_ty(a, [t['name'] for t in self.types]) for a in args], ok=res.get('ok', False), panic='panic' in res)
class Ops(list):
    pass

# ---- random declarations ------------------------------------------------------------------
class BG:
    def __init__(self, rng):
        self.rng = rng
        self.types = []
    def ty(self, ps, depth=0):
        rng = self.rng
        tps = [i + 1 for i, p in enumerate(ps) if not p.startswith('const')]
        cps = [i + 1 for i, p in enumerate(ps) if p.startswith('const')]
        r = rng.random()
        if cps and (r < .35 or not tps):
            return dict(k='arr', e=par(rng.choice(cps)))
        if not tps or r < .12:
            return rng.choice([U8, STR, BOOL])
        p = par(rng.choice(tps))
        if r < .5:
            return p
        if r < .68:
            return dict(k='w', e=self.ty(ps, depth + 1) if depth < 1 else p)
        if r < .76:
            return dict(k='fix', e=p)
        if r < .8:
            return dict(k='bx', e=p)
        if r < .88:
            q = [i + 1 for i, x in enumerate(ps) if 'Assoc' in x]
            if q:
                return dict(k='out', e=par(rng.choice(q)), q=rng.random() < .5)
        if r < .94:
            inner = [t for t in self.types]
            if inner:
                t = rng.choice(inner)
                return dict(k='named', name=t['name'], args=[self.ty(ps, 2) if not x.startswith('const') else dict(k='cst', c=rng.choice([0, 1, 2])) for x in t['ps']])
        if r < .97 and depth == 0:
            return dict(k='tup', es=[p, rng.choice([U8, p])])
        return p
    def bound(self, ps, tys, F_):
        """a list, sometimes"""
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2])):
            t = rng.choice(tys) if tys and rng.random() < .6 else self.ty(ps, 1)
            if not mentions(t):
                continue
            if rng.random() < .5:
                out.append(dict(k='ty', ty=t))
            else:
                out.append(dict(k='pred', ty=t, trs=rng.sample(ATR if F_ else TR[:3] + ['FromStr'], rng.choice([1, 1, 2]))))
        if rng.random() < .45:
            out.insert(rng.randrange(len(out) + 1), dict(k='dots'))
        return out
    def fields(self, n, ps, D_, F_, lv):
        rng = self.rng
        named = rng.random() < .6
        keys = rng.sample(['a', 'b', 'c', 'T0', 'p'], n) if named else [None] * n
        fl, fmt = [], ''
        for i in range(n):
            ty = self.ty(ps)
            attrs = []
            key = keys[i] if named else str(i)
            use = rng.random() < .8
            o = False
            spec = ''
            if ty['k'] == 'tup':
                # shown by a path; nothing is required for it
                if not use:
                    if F_:
                        ty = dict(k='fix', e=ty['es'][0])
                        attrs.append(fs(default=True))
                else:
                    fmt += '{%s.%d}' % (key, 0)
                    if F_:
                        ty = ty['es'][0]
                        fmt = fmt[:-len('{%s.0}' % key)] + '{%s}' % key
            elif use:
                r = rng.random()
                if r < .2:
                    o = True
                if rng.random() < .3 and ty['k'] != 'str':
                    spec = rng.choice([':?', ':?', ':x', ':>4', ':#?'])
                w = None
                fw = None
                if rng.random() < .15:
                    w = rng.choice(['brk', 'brk', 'hex'] if not F_ else ['brk'])
                    spec = ''
                elif F_ and rng.random() < .1:
                    fw = 'brk'
                ff = None
                if rng.random() < .25:
                    ff = rng.choice(['<{}>', '{}-{:?}' if not F_ else '{:?}', '[{%s}]' % spec, 'x'if not F_ else '({})'])
                    if w:
                        ff = '<{}>'
                b = None
                if rng.random() < lv:
                    b = self.bound(ps, [ty], F_)
                if ff is not None or w or o or b is not None:
                    attrs.append(d(ff, with_=w, opt=o, bound=b))
                if fw:
                    attrs.append(fs(with_=fw))
                if F_ and rng.random() < .08:
                    attrs.append(fs(infer=True, bound=[dict(k='pred', ty=ty, trs=['FromStr', 'FromStrRegex'])] if mentions(ty) and rng.random() < .9 else None))
                elif F_ and rng.random() < lv * .6:
                    attrs.append(fs(bound=self.bound(ps, [ty], F_)))
                if ff is None and not w and spec and ty['k'] in ('str', 'bool') and spec in (':x',):
                    spec = ''
                if ff is not None and 'x' in spec and rng.random() < .9:
                    spec = ''
                fmt += '{%s%s}' % (key, spec) + rng.choice(['-', ',', ''])
                if rng.random() < .1 and not F_ and not w:
                    fmt += '{%s:?}' % key
                if o:
                    ty = dict(k='opt', e=ty)
            elif F_:
                ty = rng.choice([dict(k='fix', e=ty), dict(k='opt', e=ty), dict(k='vec', e=ty), U8])
                attrs.append(fs(default=True))
                if rng.random() < lv:
                    attrs.append(d(bound=self.bound(ps, [ty], F_)))
            fl.append(F(keys[i], ty, *attrs))
        if rng.random() < .5:
            fmt += 'x'
        return fl, fmt
    def used(self, fl):
        s = set()
        for f in fl:
            s |= params_of(f['ty'])
        return s
    def decl(self, name, top):
        rng = self.rng
        ps = rng.choice([['T'], ['T'], ['T', 'U'], ['T: Assoc'], ['T: Assoc', 'U'], ['T', 'const N: usize'], ['const N: usize'], ['r#type'], ['T', 'U', 'V']] if top else [['T'], ['T'], ['T', 'U']])
        F_, D_ = rng.choice([(True, True), (True, True), (False, True), (True, False)] if top else [(True, True)])
        lv = rng.choice([0, 0, .25, .5]) if top else rng.choice([0, 0, .2])
        attrs = []
        kind = rng.choice(['struct', 'struct', 'enum'])
        def fill(fl, missing):
            for i in sorted(missing):
                p = par(i)
                ty = dict(k='fix', e=p) if not ps[i - 1].startswith('const') else dict(k='arr', e=p)
                if ty['k'] == 'arr':
                    return False
                key = None if fl and fl[0]['key'] is None else 'q%d' % i
                fl.append(F(key, ty, *([fs(default=True)] if F_ else [])))
            return True
        allp = set(range(1, len(ps) + 1))
        tys = []
        if kind == 'struct':
            fl, fmt = self.fields(rng.choice([1, 2, 2, 3]), ps, D_, F_, lv)
            need = {i for i in allp if not ps[i - 1].startswith('const')}
            fill(fl, need - self.used(fl))
            tys = [f['ty'] for f in fl]
            attrs.append(d(fmt))
            vs = [V(name, *fl)]
        else:
            vs, used = [], set()
            n = rng.choice([1, 2, 3])
            for i in range(n):
                fl, fmt = self.fields(rng.choice([1, 1, 2]), ps, D_, F_, lv)
                used |= self.used(fl)
                if i == n - 1:
                    fill(fl, {i for i in allp if not ps[i - 1].startswith('const')} - used)
                va = [d(('v%d' % i) + fmt, bound=self.bound(ps, [f['ty'] for f in fl], F_) if rng.random() < lv else None)]
                if F_ and rng.random() < lv:
                    va.append(fs(bound=self.bound(ps, [f['ty'] for f in fl], F_)))
                if F_ and rng.random() < .1:
                    va.append(fs(ignore=True))
                tys += [f['ty'] for f in fl]
                vs.append(V('ABC'[i], *fl, attrs=va))
        if rng.random() < lv:
            attrs.append(d(bound=self.bound(ps, tys, F_)))
        if F_ and rng.random() < lv:
            attrs.append(fs(bound=self.bound(ps, tys, F_)))
        rng.shuffle(attrs)
        # a list in several attributes of its kind
        def parted(l):
            for k in range(len(l) - 1, -1, -1):
                if l[k]['bound'] and len(l[k]['bound'][0]) > 1 and rng.random() < .4:
                    b, n = l[k]['bound'][0], rng.randrange(1, len(l[k]['bound'][0]))
                    l[k]['bound'] = [b[:n]]
                    l.insert(rng.randrange(k + 1, len(l) + 1), (d if l[k]['w'] == 'd' else fs)(bound=b[n:]))
        parted(attrs)
        for v in vs:
            if v['attrs'] is not attrs:
                parted(v['attrs'])
            for f in v['fs']:
                parted(f['attrs'])
        return dict(name=name, kind=kind, ps=ps, ds=('D' if D_ else '') + ('F' if F_ else ''), attrs=attrs, vs=vs)
def mentions(t):
    return bool(params_of(t))
def params_of(t):
    k = t['k']
    if k == 'param':
        return {t['i']}
    s = set()
    for x in [t['e']] if 'e' in t else t.get('es', []) + t.get('args', []):
        s |= params_of(x)
    return s

def marks(rng, n):
    full = mark(*TR)
    pool = [full, mark()] + [mark(*[t for t in TR if t != x]) for x in TR] + [mark(x) for x in TR]
    for _ in range(8):
        pool.append(mark(*[t for t in TR if rng.random() < .5]))
    return pool
def instantiations(c, ti, rng, n):
    t = c.types[ti]
    one = lambda p: dict(k='cst', c=rng.choice([0, 1, 2])) if p.startswith('const') else (rng.choice(marks(rng, n)) if 'Assoc' in p or rng.random() < .93 else rng.choice([U8, STR, dict(k='w', e=mark('Display', 'FromStr')), dict(k='opt', e=U8)]))
    seen, out = set(), []
    cand = []
    if len(t['ps']) == 1 and not t['ps'][0].startswith('const'):
        cand = [[m] for m in marks(rng, n)]
    # everything but one trait, for one parameter at a time
    base = [dict(k='cst', c=1) if p.startswith('const') else mark(*TR) for p in t['ps']]
    cand.append(base)
    for i, p in enumerate(t['ps']):
        for x in ([mark(*[y for y in TR if y != z]) for z in TR] if not p.startswith('const') else [dict(k='cst', c=z) for z in (0, 2)]):
            cand.append(base[:i] + [x] + base[i + 1:])
    cand += [[one(p) for p in t['ps']] for _ in range(n)]
    for a in cand:
        for tr in (['Display'] if 'D' in t['ds'] else []) + (['FromStr', 'FromStrRegex'] if 'F' in t['ds'] else []):
            key = repr((a, tr))
            if key not in seen:
                seen.add(key)
                out.append((ti, tr, a))
    return out
def rand_case(rng, id, n=14):
    g = BG(rng)
    if rng.random() < .4:
        g.types.append(g.decl('I', False))
    g.types.append(g.decl('X', True))
    c = GCase(id, *g.types)
    for ti in range(len(c.types)):
        c.ops += instantiations(c, ti, rng, n)
    return c

# ---- the family written by spec/MC_Bounds.tla ------------------------------------------------
def scope_cases(path, seed, k):
    """its declarations, each with k of the instantiations"""
    import json
    import family
    data = json.load(open(path))
    out = []
    for i, e in enumerate(data['d']):
        rng = random.Random('%s/%d' % (seed, i))
        names = [family.S(t['name']) for t in e['types']]
        def ty(t):
            t = dict(t)
            for a in ('e',):
                if a in t:
                    t[a] = ty(t[a])
            for a in ('es', 'args'):
                if a in t:
                    t[a] = [ty(x) for x in t[a]]
            if t['k'] == 'named':
                t['name'] = names[t.pop('n') - 1]
            return t
        def attr(a):
            a = family.attr(a)
            a['bound'] = [[dict(b, ty=ty(b['ty'])) if 'ty' in b else dict(b) for b in l] for l in a['bound']]
            return a
        def outs(x):
            return isinstance(x, dict) and (x.get('k') == 'out' or any(map(outs, x.values()))) or isinstance(x, list) and any(map(outs, x))
        def decl(t):
            vs = [dict(name=family.S(v['name']), shape=v['shape'], attrs=[attr(a) for a in v['attrs']],
                       fs=[dict(key=None if v['shape'] == 'tuple' else family.S(f['key']), ty=ty(f['ty']), attrs=[attr(a) for a in f['attrs']]) for f in v['fs']]) for v in t['vs']]
            return dict(name=family.S(t['name']), kind=t['kind'], ps=[p + (': Assoc' if o and not i else '') for i, p in enumerate(['T', 'U'][:t['np']]) for o in [outs(t)]], ds=''.join(t['ds']), attrs=[attr(a) for a in t['attrs']], vs=vs)
        c = GCase('bs%d' % i, *[decl(t) for t in e['types']])
        x = len(c.types) - 1
        ds = c.types[x]['ds']
        for inst in rng.sample(data['insts'], min(k, len(data['insts']))):
            if inst[0]['k'] != 'mark' and outs(e):
                continue
            for tr in (['Display'] if 'D' in ds else []) + (['FromStr', 'FromStrRegex'] if 'F' in ds else []):
                c.ops.append((x, tr, [ty(a) for a in inst]))
        out.append(c)
    return out
