"""The same declarations in other spellings of Rust: what the spec says of them does not change."""
import copy, random
import dsl
from dsl import *

OPTION = ['std::option::Option<%s>', '::std::option::Option<%s>', 'core::option::Option<%s>', '::core::option::Option<%s>', 'option::Option<%s>', '(Option<%s>)', 'Option<(%s)>', 'Option<%s,>', 'std::option::Option::<%s>']
SEQ = ['Vec<%s,>', 'std::vec::Vec<%s>', '::std::collections::VecDeque<%s>', 'std::collections::LinkedList<%s>', '::harness_support::Box<[%s]>', '(Vec<%s>)']
# where nothing is parsed
ONLY_D = ["&'static str", "&'static str", '::harness_support::Box<str>', "::std::borrow::Cow<'static, str>", '::std::rc::Rc<str>']
SLICE = ["&'static [%s]", '::harness_support::Box<[%s]>']
def spell_ty(t, rng, top=True, shown=False):
    """a type with other words for it"""
    t = Ty(t)
    if 'rust' in t:
        return t
    k = t['k']
    if k in ('opt', 'vec', 'ref', 'box'):
        t['e'] = spell_ty(t['e'], rng, top and k == 'opt', shown)
        if k == 'opt' and rng.random() < .6:
            t['rust'] = rng.choice(OPTION) % rust_ty(t['e'])
        elif k == 'vec' and rng.random() < .6:
            t['rust'] = rng.choice(SEQ + (SLICE if top else SLICE[1:]) if shown else SEQ) % rust_ty(t['e'])
    elif k == 'tup':
        t['es'] = [spell_ty(x, rng, False, shown) for x in t['es']]
    elif k == 'named':
        t['args'] = [spell_ty(x, rng, False, shown) for x in t['args']]
        if rng.random() < .2:
            t['rust'] = 'self::' + rust_ty(t)
    elif k == 'str' and shown and rng.random() < .5:
        t['rust'] = rng.choice(ONLY_D)
    elif k == 'str' and rng.random() < .3:
        t['rust'] = rng.choice(['std::string::String', '::std::string::String', '(String)'])
    elif k in INTS + ['bool', 'char', 'f64', 'f32'] and rng.random() < .2:
        t['rust'] = rng.choice(['::core::primitive::%s', '(%s)']) % k
    return t

def literal(s, rng):
    """a string literal"""
    q = rng.random()
    if q < .35 and '\r' not in s and '\0' not in s:
        n = 0
        while ('"' + '#' * n) in s:
            n += 1
        return 'r%s"%s"%s' % ('#' * n, s, '#' * n)
    if q < .5:
        return '"' + ''.join('\\u{%04x}' % ord(c) for c in s) + '"'
    if q < .65:
        out = '"'
        for c in s:
            out += ('\\x%02x' % ord(c) if ord(c) < 128 and rng.random() < .4 else rust_str(c)[1:-1])
        return out + '"'
    if q < .75 and ' ' not in s and '\n' not in s and '\t' not in s:
        i = rng.randrange(len(s) + 1)
        return rust_str(s[:i])[:-1] + '\\\n      ' + rust_str(s[i:])[1:]
    return rust_str(s)

class Holes:
    """what a macro is given from outside"""
    def __init__(self, rng):
        self.rng, self.items, self.memo = rng, [], {}
    def __call__(self, kind, text, p=.6, memo=False):
        if memo and (kind, text) in self.memo:
            return self.memo[kind, text]
        r = text
        if self.rng.random() < p:
            r = '$x%d' % len(self.items)
            self.items.append((r, kind, text))
        if memo:
            self.memo[kind, text] = r
        return r

class Spelled(Case):
    """mode: '' | 'tokens' (through a macro as it is) | 'holes' (pieces of it given to a macro)"""
    def __init__(self, c, id, rng, mode=None):
        types = copy.deepcopy(c.types)
        shown = not any('F' in t['ds'] or t['params'] for t in types)
        for t in types:
            for v in t['vs']:
                for f in v['fs']:
                    f['ty'] = spell_ty(f['ty'], rng, shown=shown)
        Case.__init__(self, id, *types, roots=c.roots, prelude=c.prelude + '\nuse ::core::option;', ops=list(c.ops))
        self.tags, self.auto, self.opts = c.tags, c.auto, getattr(c, 'opts', {})
        self.seed = rng.random()
        self.mode = mode if mode is not None else rng.choice(['', 'tokens', 'holes', 'holes'])
    def rust_type(self, t):
        rng = random.Random('%s/%s' % (self.seed, t['name']))
        holes = Holes(rng)
        mode = self.mode if not t['extra'] else ''
        dsl.SPELL = dict(rng=rng, lit=lambda s: literal(s, rng), hole=holes if mode == 'holes' else None)
        try:
            s = Case.rust_type(self, t)
        finally:
            dsl.SPELL = None
        if mode == 'tokens':
            return 'macro_rules! mk_%s { ($($t:tt)*) => { $($t)* } }\nmk_%s! {\n%s\n}' % (t['name'], t['name'], s)
        if mode == 'holes':
            pre = 'macro_rules! mk_%s { (%s) => {\n%s\n} }\n' % (t['name'], ', '.join('%s:%s' % (n, k) for n, k, _ in holes.items), s)
            return pre + 'mk_%s!(%s);' % (t['name'], ', '.join(x for _, _, x in holes.items))
        return s

def plain(c):
    return not any(t['extra'] and '$' in t['extra'] for t in c.types)
def spelled(c, rng, mode=None, id=None):
    return Spelled(c, id or c.id + '/spelled', rng, mode)
