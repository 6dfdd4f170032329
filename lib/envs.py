"""The same declarations among other names: what the spec says of them does not change."""
import copy, re
import dsl
from dsl import *
import gen

# everything the prelude names, and names that are often imported or used inside derived code
TRAITS = ('ToString ToOwned Into From TryFrom TryInto AsRef AsMut Iterator IntoIterator FromIterator Extend DoubleEndedIterator ExactSizeIterator Default Clone Copy '
          'PartialEq Eq PartialOrd Ord Fn FnMut FnOnce Drop Send Sync Unpin Display Debug LowerHex FromStr FromStrRegex DisplayFormat FromStrFormat IntoResult').split()
TYPES = ('Option Result String Vec Box Formatter Error ParseError Parser OnceLock Regex Formatted Join Fmt RegexInfer OptionFormatHelper Cow HashMap Range').split()
MODS = 'std core alloc parse_display regex regex_syntax helpers fmt string option result convert default'.split()
MACROS = 'format format_args write writeln panic vec assert assert_eq debug_assert debug_assert_eq unreachable matches concat stringify todo'.split()
def hostile(taken):
    """items under those names, except the ones the case declares"""
    ok = lambda l: [x for x in l if x not in taken]
    return '\n'.join(['pub fn drop() {}'] + ['pub struct %s;' % t for t in ok(['Some', 'None', 'Ok', 'Err'])] + ['pub trait %s {}' % t for t in ok(TRAITS)] + ['pub struct %s;' % t for t in ok(TYPES)]
                     + ['pub mod %s {}' % m for m in MODS] + ['macro_rules! %s { ($($t:tt)*) => { compile_error!("a macro of the user") } }' % m for m in MACROS])
# methods of every type, under the names derived code calls
METHODS = '''
pub trait Everywhere { fn into(&self) {} fn parse(&self) {} fn map_err(&self) {} fn map_or(&self) {} fn transpose(&self) {} fn as_str(&self) {} fn map(&self) {} fn get(&self) {} fn captures(&self) {}
  fn get_or_init(&self) {} fn write_str(&self) {} fn write_fmt(&self) {} fn fmt(&self) {} fn into_result(&self) {} fn from_str(&self) {} fn write(&self) {} fn to_string(&self) {} fn join(&self) {} fn default(&self) {} fn pad(&self) {} }
impl<T: ?Sized> Everywhere for T {}
'''

class Env(Case):
    """crate: the path given by `crate = ..` (None: the dependency has its own name), hostile: shadowed names"""
    def __init__(self, c, id, crate=None, hostile=False, methods=False, pre=''):
        Case.__init__(self, id, *c.types, roots=c.roots, prelude=c.prelude, ops=list(c.ops))
        self.tags, self.auto, self.opts = c.tags, c.auto, getattr(c, 'opts', {})
        self.crate, self.hostile, self.methods, self.pre = crate, hostile, methods, pre
    def rust(self):
        dsl.ABSOLUTE = self.hostile
        try:
            s = Case.rust(self)
        finally:
            dsl.ABSOLUTE = False
        s = s.replace('use parse_display::{Display, FromStr};', (self.pre + 'use %s::{Display, FromStr};' % (self.crate or '::parse_display')) + '\n' + (hostile({t['name'] for t in self.types}) if self.hostile else '') + (METHODS if self.methods else ''))
        return s
    def rust_type(self, t):
        if self.crate and set('DF') & set(t['ds']):
            t = dict(t, attrs=t['attrs'] + [d(crate=self.crate)])
        return Case.rust_type(self, t)

RENAMED = 'pd = { package = "parse-display", path = "/repo/parse-display" }'
PATHS = [('::pd', ''), ('pd', ''), ('self::reexported::inner', 'pub mod reexported { pub use ::pd as inner; pub mod r#type { pub use ::pd::*; pub use ::pd::helpers; } }\n'),
         ('reexported::r#type', 'pub mod reexported { pub mod r#type { pub use ::pd::*; pub use ::pd::helpers; } }\n')]

# ---- renaming -----------------------------------------------------------------------------
TYPE_NAMES = 'Option Result String Formatter Parser ParseError Error Some None Ok Err Display FromStr Default Vec OnceLock Helper Self_ r#Regex'.split()
def rename_types(c, rng):
    names = rng.sample(TYPE_NAMES, len(c.types))
    m = {t['name']: n.replace('r#', '') for t, n in zip(c.types, names)}
    def ty(t):
        t = Ty(t)
        if t['k'] in ('opt', 'vec', 'ref', 'box'):
            t['e'] = ty(t['e'])
        elif t['k'] == 'tup':
            t['es'] = [ty(x) for x in t['es']]
        elif t['k'] == 'named':
            t['name'], t['args'] = m[t['name']], [ty(x) for x in t['args']]
        return t
    out = []
    for t in copy.deepcopy(c.types):
        t['name'] = m[t['name']]
        if t['kind'] == 'struct':
            t['vs'][0]['name'] = t['name']
        for v in t['vs']:
            for f in v['fs']:
                f['ty'] = ty(f['ty'])
        out.append(t)
    n = Case(c.id, *out, roots=[ty(r) for r in c.roots], prelude=c.prelude, ops=list(c.ops))
    n.tags, n.auto, n.opts = c.tags, c.auto, getattr(c, 'opts', {})
    return n
def plain(c):
    """whether the source of the case does not use names of its own that the environments take"""
    return not c.prelude and not any(t['extra'] or t['where'] or t['ident'] for t in c.types) and not re.search(r'(?<!:)\b(std|core)::', ''.join(t['params'] for t in c.types)) \
        and not any('rust' in f['ty'] for t in c.types for v in t['vs'] for f in v['fs']) and not any(b for t in c.types for l in [t] + t['vs'] for a in l['attrs'] for b in a['_extra'])
