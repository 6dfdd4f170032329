"""What is run for each property."""
from check import *
import envs, history, mutate, nostd, pump, wide

PROPS = {}
def prop(pid):
    def f(g):
        PROPS[pid] = g
        return g
    return f
def n(rep, quick, thorough):
    return thorough if rep.tier == 'thorough' else quick
def tags(*ps):
    return lambda c: bool(features.features(c) & set(ps))

def standard(rep, prof, must=None, quick=220, scopes=(), auto=None, always=False, make=None, extra=(), big=0):
    """curated declarations about the property and random ones biased to it; thorough: as many random ones as time allows"""
    auto = auto or {}
    make = make or (lambda seed, k: randoms(rep.pid, seed, k, prof, must, **auto))
    validate(rep, 'main', curated(rep.pid, rep.seed, always=always, **auto) + list(extra) + wide.cases(rep.pid, rep.seed, n(rep, big, big * 4), auto) + make(rep.seed, n(rep, quick, 500)))
    for m in scopes:
        scope(rep, *m) if isinstance(m, tuple) else scope(rep, m)
    if rep.tier == 'thorough':
        done = 0
        while done < 40 and time.time() - rep.t0 < 480 and not rep.violations:
            done += 1
            validate(rep, 'more%d' % done, make('%s+%d' % (rep.seed, done), 500), name='h_%s_more' % rep.pid.lower())

@prop('C01')
def c01(rep):
    standard(rep, dict(fs=.4, spec=.1, nested=.35, deep=.15, fmt=.3, with_=.08, rx=.05), tags('C01'), auto=dict(nd=10, npos=1, nmut=0, rt=0, padded=3, short=3), scopes=[('MC_Format', ('display', 'padded', 'short'))], big=30, extra=pump.cases('C01', rep.seed, 6, 'display', 'display', 'display'))

@prop('C02')
def c02(rep):
    ops = dict(nd=0, npos=2, nmut=3, rx=False, rt=14, padded=0, maxlen=80)
    def make(seed, k):
        a = [rand.unamb_case(random.Random('%s/C02/%d' % (seed, i)), 'u%d' % i, ops) for i in range(k * 3 // 4)]
        return a + randoms('C02', seed, k - len(a), dict(spec=0, rx=.03, trx=.02, dflt=.05, with_=.15, join=.1, fs=1), tags('C02'), **ops)
    standard(rep, {}, make=make, auto=ops, scopes=[('MC_Round', ('rt',))], big=36, extra=pump.cases('C02', rep.seed, 12, 'rt', 'rt', 'rt'))

@prop('C03')
def c03(rep):
    standard(rep, dict(enum=.1, fs=1, rx=0, trx=0, with_=.04, spec=.02, fmt=.4, infer=0, new=.02, dflt=.05), tags('C03'), auto=dict(nd=0, npos=9, nmut=16, rx=0, rt=1, padded=0), scopes=['MC_Split'], big=20, extra=pump.cases('C03', rep.seed, 12, 'parse', 'parse', 'parse'))

@prop('C04')
def c04(rep):
    standard(rep, dict(enum=1, fs=1, ignore=.25, new=.2, rx=.05), tags('C04'), auto=dict(nd=0, npos=14, nmut=14, rx=0, rt=2, padded=0), scopes=["MC_Enum"], big=24)

@prop('C05')
def c05(rep):
    standard(rep, dict(enum=1, fs=.8, style=.9), tags('C05'), auto=dict(nd=6, npos=6, nmut=8, rx=0, rt=3), scopes=[('MC_Style', ('parse', 'display'))])

@prop('C06')
def c06(rep):
    standard(rep, dict(opt=.7, fmt=.45, with_=.2, rx=.15, infer=.15, spec=.25, generic=.1), tags('C06'), auto=dict(nd=7, npos=8, nmut=10, rx=0, rt=3, short=2), scopes=[('MC_Opt', ('parse', 'display', 'padded', 'short', 'rt'))], big=10)

@prop('C07')
def c07(rep):
    standard(rep, dict(with_=.6, join=.1, fmt=.35, opt=.15, spec=.2), tags('C07'), auto=dict(nd=5, npos=9, nmut=10, rx=0, rt=3, short=2), scopes=[('MC_With', ('parse', 'display', 'padded', 'short', 'rt'))])

@prop('C08')
def c08(rep):
    standard(rep, dict(fs=1, rx=.45, trx=.4, fmt=.35, opt=.15), tags('C08'), auto=dict(nd=0, npos=12, nmut=14, rx=2, rt=0, padded=0), scopes=['MC_Regex'], big=10)

@prop('C09')
def c09(rep):
    standard(rep, dict(fs=1, infer=.35, rx=.1, trx=.1, nested=.5), None, auto=dict(nd=0, npos=8, nmut=8, rx=10, rt=1, padded=0), scopes=[('MC_Infer', ('parse', 'rx', 'rt'))], big=10)

@prop('C10')
def c10(rep):
    standard(rep, dict(fs=1, dflt=.8, deep=.35, nested=.4, trx=.1), tags('C10'), auto=dict(nd=0, npos=10, nmut=12, rx=0, rt=1, padded=0), scopes=['MC_Default'], big=20)

@prop('C11')
def c11(rep):
    standard(rep, dict(fs=1, new=.9, dflt=.15), tags('C11'), auto=dict(nd=0, npos=12, nmut=10, rx=0, rt=1, padded=0), scopes=['MC_New'], big=16)

@prop('C12')
def c12(rep):
    standard(rep, dict(fs=.2, spec=.8, fmt=.4, deep=.2, nested=.3, opt=.2, with_=.1), tags('C12'), auto=dict(nd=12, npos=0, nmut=0, rx=False, rt=0, padded=1), scopes=[('MC_Spec', ('display',))])

@prop('C13')
def c13(rep):
    progs = history.programs()
    h, results = history.scheduled(rep, progs, n(rep, 60, 600), rep.seed)
    validate(rep, 'schedules', progs, harness=h, results=results)
    # many types in one process, in other orders and from several threads
    auto = dict(nd=1, npos=4, nmut=4, rx=0, rt=1, padded=0)
    cs = [history.twins('{a}-{b}', 't1'), history.twins('{a}{b}', 't2'), history.twins('{a}-{b}', 't3', True)] + list(history.generics())
    cs += curated('C13', rep.seed, always=True, **auto) + randoms('C13', rep.seed, n(rep, 80, 400), dict(fs=1, with_=.3, rx=.2, trx=.1, infer=.15, generic=.3, nested=.4), **auto)
    vs = history.varying_cases()
    hm = Harness('h_c13_main', cs + vs)
    hm.build()
    results = hm.run(timeout=40)
    base = {i: results[i] for i in range(len(cs)) if i in results}
    hung = any(r.get('crash') in ('timeout', 'skipped') for l in results.values() for r in l)
    if not hung:
        history.histories(rep, hm, cs, base, rep.seed)
    for i, alone in () if hung else history.varying(rep, hm, cs + vs, range(len(cs), len(cs) + len(vs)), results, rep.seed):
        base[i] = [alone[k] or {'panic': True} for k in range(len(alone))]
    validate(rep, 'main', cs + vs if not hung else cs, harness=hm, results=base)

@prop('C14')
def c14(rep):
    def make(seed, k):
        return [bounds.rand_case(random.Random('%s/C14/%d' % (seed, i)), 'b%d' % i) for i in range(k)]
    validate(rep, 'main', make(rep.seed, n(rep, 240, 500)), spec='TraceBounds')
    out = run_model(rep, 'MC_Bounds')
    validate(rep, 'MC_Bounds', bounds.scope_cases(out, rep.seed, n(rep, 10, 34)), name='h_c14_scope', spec='TraceBounds')
    done = 0
    while rep.tier == 'thorough' and done < 10 and time.time() - rep.t0 < 420 and not rep.violations:
        done += 1
        validate(rep, 'more%d' % done, make('%s+%d' % (rep.seed, done), 400), name='h_c14_more', spec='TraceBounds')

@prop('C15')
def c15(rep):
    standard(rep, dict(), None, always=True, quick=350, auto=dict(nd=1, npos=1, nmut=0, rx=1, rt=0, padded=0), scopes=[('MC_Accept', ('parse', 'display'))])
    def wrong(seed, k):
        return [mutate.mutated(random.Random('%s/C15w/%d' % (seed, i)), rand.profile(generic=0), 'w%d' % i) for i in range(k)]
    validate(rep, 'mutated', wrong(rep.seed, n(rep, 1200, 2000)), name='h_c15_mutated')
    done = 0
    while rep.tier == 'thorough' and done < 40 and time.time() - rep.t0 < 700 and not rep.violations:
        done += 1
        validate(rep, 'mutated%d' % done, wrong('%s+%d' % (rep.seed, done), 2000), name='h_c15_more')

@prop('C16')
def c16(rep):
    standard(rep, dict(dup=.8, fs=1, rx=.3, trx=.25, infer=.15, with_=.3, new=.1, dflt=.15), tags('C16'), auto=dict(nd=3, npos=8, nmut=8, rx=2, rt=2), scopes=[('MC_Attr', ('parse', 'display'))], big=6)

@prop('C17')
def c17(rep):
    auto = dict(nd=5, npos=5, nmut=8, rx=False, rt=2, padded=1)
    def make(seed, k):
        a = [nostd.lit_case(random.Random('%s/C17/%d' % (seed, i)), 'l%d' % i, auto) for i in range(k * 3 // 5)]
        return a + [nostd.strip(c) for c in randoms('C17', seed, k - len(a), spelling=0, prof=dict(fs=.3, spec=.3, nested=.3, deep=.1, opt=.2, with_=.2, join=.1), **auto)]
    def both(suite, cs, m='c17'):
        # with and without the feature; the crates without it are #![no_std]
        hs = Harness('h_%s_std' % m, cs)
        hs.build()
        rs = hs.run()
        h = Harness('h_%s_nostd' % m, cs, std=False)
        try:
            h.build()
        except ToolError as e:
            # the same declarations build with the feature
            return rep.violation(suite, 'parse-display does not build without the std feature', error=str(e)[:4000])
        rn = h.run()
        validate(rep, suite + ' with std', cs, name='h_%s_std' % m, harness=hs, results=rs, other=rn)
        validate(rep, suite + ' without std', cs, name='h_%s_nostd' % m, harness=h, results=rn, other=rs)
    cs = nostd.direct(random.Random('%s/C17' % rep.seed), n(rep, 24, 80), dict(auto, padded=0, npos=8)) + [nostd.strip(c) for c in curated('C17', rep.seed, always=True, **auto)]
    both('main', [c for c in cs + make(rep.seed, n(rep, 200, 500)) if nostd.usable(c)])
    out = run_model(rep, 'MC_Config')
    both('MC_Config', family.cases(out, 'config', ('parse', 'display', 'rt')), 'c17_scope')
    done = 0
    while rep.tier == 'thorough' and done < 20 and time.time() - rep.t0 < 400 and not rep.violations:
        done += 1
        both('more%d' % done, [c for c in make('%s+%d' % (rep.seed, done), 400) if nostd.usable(c)], 'c17_more')

@prop('C18')
def c18(rep):
    standard(rep, dict(fs=1), None, auto=dict(nd=0, npos=6, nmut=24, rx=2, rt=0, padded=0), scopes=[('MC_Regex', ('parse', 'rx')), 'MC_With', 'MC_Opt'], big=12, extra=pump.cases('C18', rep.seed, 20, *['parse'] * 4))

@prop('C19')
def c19(rep):
    standard(rep, dict(fs=1, enum=.15, deep=.2, dflt=.2), tags('C19'), auto=dict(nd=0, npos=10, nmut=20, rx=False, rt=0, padded=0), scopes=['MC_Msg'], big=20)

@prop('C20')
def c20(rep):
    auto = dict(nd=2, npos=4, nmut=4, rx=2, rt=1)
    prof = dict(fs=.9, with_=.2, infer=.15, rx=.15, trx=.1, opt=.2, deep=.15, dflt=.25, new=.15, spec=.15, join=.08, enum=.5)
    validate(rep, 'main', curated('C20', rep.seed, **auto) + randoms('C20', rep.seed, n(rep, 100, 400), prof, **auto))
    def make(seed, k):
        """the same declarations in other environments; those that rename the dependency are one crate"""
        cs = [c for c in curated('C20', seed, always=True, **auto) if envs.plain(c)] + [c for c in randoms('C20e', seed, k, prof, spelling=0, **auto)]
        here, there = [], []
        for i, c in enumerate(cs):
            rng = random.Random('%s/C20e/%d' % (seed, i))
            if len(c.types) < 9 and envs.plain(c):
                here.append(envs.Env(envs.rename_types(c, rng) if i % 2 else c, c.id + '/shadowed', hostile=True, methods=i % 3 == 0))
            p, pre = envs.PATHS[i % len(envs.PATHS)]
            there.append(envs.Env(c, c.id + '/' + p, crate=p, pre=pre, hostile=i % 3 == 1 and p.startswith('::')))
        return here, there
    def both(suite, here, there):
        validate(rep, suite + ' shadowed', here, name='h_c20_shadowed')
        validate(rep, suite + ' renamed', there, harness=Harness('h_c20_renamed', there, extra_deps=envs.RENAMED, direct=False))
    both('names', *make(rep.seed, n(rep, 120, 400)))
    done = 0
    while rep.tier == 'thorough' and done < 20 and time.time() - rep.t0 < 420 and not rep.violations:
        done += 1
        both('more%d' % done, *make('%s+%d' % (rep.seed, done), 300))

@prop('C21')
def c21(rep):
    standard(rep, dict(join=.8, with_=.05, opt=.15), tags('C21'), auto=dict(nd=7, npos=10, nmut=10, rx=0, rt=4, short=3), scopes=[('MC_Join', ('parse', 'display', 'padded', 'short'))])

@prop('C22')
def c22(rep):
    auto = dict(nd=4, npos=5, nmut=5, rx=2, rt=1, short=1)
    def make(seed, k):
        cs = [c for c in curated('C22', seed, always=True, **auto) if spell.plain(c)] + randoms('C22', seed, k, dict(opt=.3, join=.15, with_=.2, rx=.2, new=.15, dflt=.2), spelling=0, **auto)
        # only displayed: types that cannot be parsed
        shown = randoms('C22', '%s/shown' % seed, k // 4, dict(fs=0, opt=.4, join=.3, with_=.3, spec=.3), spelling=0, **auto)
        for c in shown:
            c.id = 'd' + c.id
        cs += shown
        return [spell.spelled(c, random.Random('%s/C22/%s/%d' % (seed, c.id, i))) for i, c in enumerate(cs)]
    validate(rep, 'main', make(rep.seed, n(rep, 250, 500)))
    for ed in ('2018', '2024'):
        cs = make('%s/%s' % (rep.seed, ed), n(rep, 40, 300))
        cs = [c for i, c in enumerate(cs) if rep.tier == 'thorough' or i % 3 == 0 or '/r' in c.id][:n(rep, 150, 600)]
        validate(rep, 'edition' + ed, cs, harness=Harness('h_c22_e' + ed, cs, edition=ed))
    done = 0
    while rep.tier == 'thorough' and done < 20 and time.time() - rep.t0 < 420 and not rep.violations:
        done += 1
        validate(rep, 'more%d' % done, make('%s+%d' % (rep.seed, done), 400), name='h_c22_more')

@prop('C23')
def c23(rep):
    standard(rep, dict(ds='D', prb=.4, opt=.3, with_=.2, join=.15, spec=.25, nested=.4, fmt=.4), auto=dict(nd=0, npos=0, nmut=0, rx=False, padded=0, short=10), always=True, scopes=[('MC_Writer', ('short',))], big=20)
