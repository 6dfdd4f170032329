"""bin/check ID [--tier quick|thorough] [--seed N]: decides one property."""
import argparse, concurrent.futures as cf, importlib, json, os, random, re, sys, time, traceback
from dsl import *
from runner import *
import bounds, corpus, family, features, gen, rand, spell

def untext(x):
    """code point sequences as strings, for reading"""
    if isinstance(x, list):
        if x and all(isinstance(y, int) and 0 <= y < 0x110000 for y in x):
            return ''.join(map(chr, x))
        return [untext(y) for y in x]
    if isinstance(x, dict):
        return {k: untext(v) for k, v in x.items()}
    return x

class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.suites, self.samples = [], [], []
        self.violations = []          # dicts: suite, case, what, detail
        self.known = []
        self.notes = []
    def add_model(self, name, gen_, distinct, extra=None):
        self.states += distinct
        self.transitions += gen_
        self.models.append(dict(dict(model=name, states=distinct, transitions=gen_), **(extra or {})))
    def violation(self, suite, what, **detail):
        self.violations.append(dict(dict(suite=suite, what=what), **detail))

# ---- models ---------------------------------------------------------------------------
def model(rep, spec, cfg, env=None, timeout=600, must=(), workers=8):
    """runs a specification-level model; it must hold and must not be vacuous"""
    rc, out = tlc(spec + '.tla', cfg + '.cfg', env=env, timeout=timeout, workers=workers, workdir=os.path.join(BUILD, 'tlc-' + rep.pid))
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('the specification model %s/%s fails:\n%s' % (spec, cfg, out[-3000:]))
    g, d_ = tlc_counts(out)
    if d_ < 1:
        raise ToolError('no states in %s' % cfg)
    for w in must:
        if w not in out:
            raise ToolError('model %s/%s did not report %s (vacuous?)' % (spec, cfg, w))
    info = re.findall(r'<<\s*"INFO",\s*"([^"]*)",\s*(\d+)\s*>>', out)
    rep.add_model(cfg, g, d_, {'info': {k: int(v) for k, v in info}} if info else None)
    for k, v in info:
        if int(v) == 0:
            raise ToolError('model %s is vacuous: %s = 0' % (cfg, k))
    return out

def run_model(rep, mod, timeout=700):
    """runs MC_* and returns the file with its family"""
    out = os.path.join(BUILD, '%s.%s.json' % (mod, rep.pid))
    if os.path.exists(out):
        os.remove(out)
    model(rep, mod, mod, env={'OUT': out, 'DEEP': '1' if rep.tier == 'thorough' else '0'}, timeout=timeout)
    return out

def scope(rep, mod, ops=('parse',), timeout=700):
    """a model MC_*: its properties hold in the specification, and its family of declarations, compiled against the real code, agrees with it"""
    out = run_model(rep, mod, timeout)
    validate(rep, mod, family.cases(out, mod[3:].lower(), ops), name='h_%s_%s' % (rep.pid.lower(), mod.lower()))

# ---- conformance by trace validation ------------------------------------------------------
def default_filter(pid):
    """which disagreements are about the property"""
    def f(case, op, kind):
        if pid == 'C15':
            return kind in ('accepted', 'rejected', 'panic')
        if pid == 'C19':
            return op in ('parse', 'rt') and kind in ('message', 'result', 'panic') or kind == 'rejected'
        if pid == 'C18':
            return op in ('parse', 'rt', 'rx') and kind in ('panic', 'result') or kind == 'rejected'
        if kind in ('accepted', 'message') and pid not in ('C13', 'C16', 'C20'):
            return False
        if pid == 'C01':
            return op in ('display', 'padded', 'short') or kind == 'rejected' or (op == 'rt' and kind == 'text')
        if pid == 'C23':
            return op == 'short' or kind == 'rejected'
        if pid == 'C02':
            return op == 'rt' or kind == 'rejected'
        if pid in ('C03', 'C04', 'C10', 'C11'):
            return op in ('parse', 'rt', 'rx') and kind != 'text' or kind == 'rejected'
        if pid == 'C12':
            return op in ('display', 'padded') or kind == 'rejected' or (op == 'rt' and kind == 'text')
        return True
    return f

MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*"((?:[^"\\]|\\.)*)"')

def corrupt(ev):
    """the same event with another outcome, or None"""
    e = dict(ev)
    op = e['op']
    if e.get('panic'):
        return None
    if op in ('display', 'padded'):
        e['out'] = e['out'] + [120]
    elif op == 'short':
        e['outs'] = [dict(o, ok=not o['ok']) if len(ev['v']) % 2 else dict(o, s=o['s'] + [120]) for o in e['outs']]
    elif op == 'parse':
        if e['ok']:
            e.update(ok=False, v=[], msg=T('parse failed.'))
        else:
            e['msg'] = e['msg'] + [46]
    elif op == 'rt':
        e['s'] = e['s'] + [120]
    elif op == 'rx':
        e['m'] = not e['m']
    elif op in ('derive', 'impl'):
        e['ok'] = not e['ok']
    else:
        return None
    return e

def tlc_traces(spec, name, traces, parts=4):
    """(generated, distinct, events, mismatches, round trip declarations); the traces are dealt to several TLC processes"""
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]['ev']))
    parts = max(1, min(parts, len(traces) // 10))
    chunks = [order[p::parts] for p in range(parts)]
    def one(p):
        ids = chunks[p]
        path = os.path.join(BUILD, '%s.%d.json' % (name, p))
        with open(path, 'w') as f:
            json.dump([traces[i] for i in ids], f, separators=(',', ':'))
        rc, out = tlc(spec + '.tla', spec + '.cfg', env={'TRACE': path}, workers=max(2, 8 // parts), heap='3g', workdir=os.path.join(BUILD, 'tlc-%s-%d' % (name, p)))
        nev = sum(len(traces[i]['ev']) for i in ids)
        g, dist = tlc_counts(out)
        if rc != 0 or dist != nev + len(ids):
            raise ToolError('trace validation of %s did not complete (rc %s, %s states, %s expected):\n%s' % (name, rc, dist, nev + len(ids), out[-3000:]))
        mism = {(ids[int(m[0]) - 1], int(m[1]) - 1): (m[2], m[3]) for m in MIS.findall(out)}
        rt = re.findall(r'"ROUNDTRIP", (\d+)', out)
        return g, dist, nev, mism, int(rt[0]) if rt else 0
    with cf.ThreadPoolExecutor(parts) as ex:
        rs = list(ex.map(one, range(parts)))
    mism = {}
    for r in rs:
        mism.update(r[3])
    return sum(r[0] for r in rs), sum(r[1] for r in rs), sum(r[2] for r in rs), mism, sum(r[4] for r in rs)

def validate(rep, suite, cases, name=None, filt=None, spec='Trace', harness=None, results=None, other=None):
    """builds the cases against /repo, runs their operations, has TLC decide every recorded event;
    other: the results of another configuration, of which only the differences count"""
    filt = filt or default_filter(rep.pid)
    name = name or 'h_%s_%s' % (rep.pid.lower(), suite)
    t = time.time()
    if results is None:
        h = harness or Harness(name, cases)
        if not h.built:
            h.build()
        tb = time.time() - t
        results = h.run()
        rejected = h.rejected
    else:
        rejected, tb = harness.rejected, 0
    tr = time.time() - t
    traces = []
    for i, c in enumerate(cases):
        m = dict(c.mono())
        m['std'] = harness is None or harness.std
        m['ev'] = [{'op': 'derive', 'ok': i in results, 'panic': False}] + [c.event(k, x) if hasattr(c, 'event') else event(c, k, x) for k, x in enumerate(results.get(i, []))]
        traces.append(m)
    # corrupted copies, which must be refused
    rng = random.Random(rep.seed)
    canaries = {}
    cand = [(i, k) for i, m in enumerate(traces) for k, e in enumerate(m['ev'])]
    for i, k in rng.sample(cand, min(6, len(cand))):
        e = corrupt(traces[i]['ev'][k])
        if e is not None:
            m = dict(traces[i])
            m['ev'] = [e]
            canaries[len(traces) + len(canaries)] = (i, k, m)
    traces += [x[2] for x in canaries.values()]
    g, dist, nev, mism, rtn = tlc_traces(spec, name, traces)
    seen = 0
    for ci, (i, k, m) in canaries.items():
        # the corrupted event has to be refused unless the original was refused, or does not count for an invalid declaration
        if (ci, 0) in mism:
            seen += 1
        elif (i, k) not in mism and (i, 0) not in mism and not (m['ev'][0]['op'] != 'derive' and i in rejected):
            raise ToolError('a corrupted event of %s was accepted: %s' % (suite, untext(m['ev'][0])))
    nbad = 0
    for (i, k), (kind, want) in sorted(mism.items()):
        if i in canaries:
            continue
        e = traces[i]['ev'][k]
        if other is not None and ((i in results) == (i in other) if k == 0 else i in other and results[i][k - 1] == other[i][k - 1]):
            rep.notes.append('the same in the other configuration: %s %s in %s' % (e['op'], kind, cases[i].id))
            continue
        if not filt(cases[i], e['op'], kind):
            rep.notes.append('another property: %s %s in %s' % (e['op'], kind, cases[i].id))
            continue
        nbad += 1
        rep.violation(suite, '%s of %s: %s' % (e['op'], cases[i].id, kind), case=cases[i].id, rust=cases[i].rust(), op=e['op'], kind=kind,
                      event=untext(e), want=want[:2000], error=rejected.get(i), trace=dict(traces[i], ev=[e]))
    rep.states += dist
    rep.transitions += g
    rep.traces += len(cases)
    rep.events += nev
    ops = {}
    for m in traces[:len(cases)]:
        for e in m['ev']:
            ops[e['op']] = ops.get(e['op'], 0) + 1
    oks = [e['ok'] for m in traces[:len(cases)] for e in m['ev'] if e['op'] in ('parse', 'rt')]
    rep.suites.append(dict(suite=suite, declarations=len(cases), events=nev, by_operation=ops, rejected_by_compiler=len(rejected), parses_ok=sum(oks), parses_err=len(oks) - sum(oks),
                           round_trip_declarations=rtn, corrupted_events_refused=seen,
                           build_s=round(tb, 1), run_s=round(tr - tb, 1), validate_s=round(time.time() - t - tr, 1)))
    for i in rng.sample(range(len(cases)), min(2, len(cases))):
        evs = traces[i]['ev'][:4]
        rep.samples.append(dict(suite=suite, declaration=decl_text(cases[i]), events=[untext(e) for e in evs]))
    return results

def decl_text(c):
    return '\n'.join(c.rust_type(t).split('\nimpl')[0] for t in c.types)[:1500]

# ---- suites shared by the properties ----------------------------------------------------------
def curated(pid, seed, always=False, **auto):
    out = []
    for c in corpus.CASES:
        if not (pid in c.tags or pid in features.features(c) and pid not in ('C18', 'C19', 'C01', 'C16') or always):
            continue
        rng = random.Random('%s/%s' % (seed, c.id))
        c = clone(c)
        if c.auto:
            gen.auto(c, rng, **dict(dict(nd=3, npos=5, nmut=8, rx=0, rt=2), **dict(auto, **c.opts)))
        out.append(c)
    return out

def clone(c):
    n = Case(c.id, *c.types, roots=c.roots, prelude=c.prelude, ops=list(c.ops))
    n.tags, n.auto, n.opts = c.tags, c.auto, c.opts
    return n

def randoms(pid, seed, n, prof=None, must=None, spelling=.3, **auto):
    """n random declarations (that have the feature of the property if `must`)"""
    out, i = [], 0
    p = rand.profile(**(prof or {}))
    while len(out) < n and i < n * 60:
        c = rand.rand_case(random.Random('%s/%s/%d' % (seed, pid, i)), p, 'r%d' % i, dict(dict(nd=3, npos=5, nmut=8, rx=0, rt=2, maxlen=40), **auto))
        i += 1
        if must is None or must(c):
            rng = random.Random('%s/%s/%d/spelling' % (seed, pid, i))
            out.append(spell.spelled(c, rng, id=c.id) if rng.random() < spelling else c)
    return out

def has(pid):
    return lambda c: pid in features.features(c)

# ---- results -------------------------------------------------------------------------------------
def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def finish(rep, level='model_checking'):
    kf = [k for k in known_findings() if k.get('property') == rep.pid and k.get('status') == 'known']
    fresh = []
    for v in rep.violations:
        k = next((k for k in kf if all(v.get(a) == b for a, b in k['match'].items())), None)
        if k:
            rep.known.append(k['what'])
        else:
            fresh.append(v)
    for w in dict.fromkeys(rep.known):
        print('KNOWN-FINDING: property=%s %s' % (rep.pid, w))
    ev = dict(property=rep.pid, tier=rep.tier, seed=rep.seed, level=level,
              coverage=dict(states=rep.states, transitions=rep.transitions, traces_validated_against_impl=rep.traces, events_validated=rep.events,
                            models=rep.models, suites=rep.suites, samples=rep.samples[:8]),
              assumptions=['The specification is /verif/spec; texts are sequences of code points, numbers their canonical digits.',
                           'Declarations and inputs outside the generated and enumerated ones are not observed.'],
              wall_s=round(time.time() - rep.t0, 1), violations=len(fresh))
    if rep.notes:
        ev['coverage']['disagreements_about_other_properties'] = rep.notes[:20]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', rep.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    if fresh:
        d_ = os.path.join(BUILD, 'replay')
        os.makedirs(d_, exist_ok=True)
        for n, v in enumerate(fresh[:10]):
            p = os.path.join(d_, '%s-%d.json' % (rep.pid, n))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, ensure_ascii=True)
            print('VIOLATION property=%s replay=%s' % (rep.pid, p))
            print('  ' + v['what'])
            for a in ('event', 'want', 'error', 'detail'):
                if v.get(a):
                    print('    %s: %s' % (a, str(v[a])[:600]))
        print('%d violations of %s' % (len(fresh), rep.pid))
        return 1
    print('%s holds on everything explored: %d states, %d traces, %d events, %.0f s' % (rep.pid, rep.states, rep.traces, rep.events, time.time() - rep.t0))
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    rep = Report(a.id, 'thorough' if a.tier == 'thorough' else 'quick', a.seed)
    try:
        import props
        os.makedirs(BUILD, exist_ok=True)
        props.PROPS[a.id](rep)
        sys.exit(finish(rep))
    except ToolError as e:
        print('TOOL ERROR (%s): %s' % (a.id, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)

if __name__ == '__main__':
    main()
