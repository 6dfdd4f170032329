"""Development tool: syntactic changes of /repo's sources that build and pass its tests, and what the checks say of them.

  mutants.py survivors OUT.json [N workers] [FILE..]   which single changes pass the stable tests
  mutants.py check OUT.json [ids]                      run all checks against the survivors
Works in copies, in a mount namespace in which they are /repo and /verif."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, threading
PL = '/tmp/mt'
FILES = ['parse-display-derive/src/bound.rs', 'parse-display-derive/src/format_syntax.rs', 'parse-display-derive/src/lib.rs', 'parse-display-derive/src/parser_builder.rs',
         'parse-display-derive/src/regex_utils.rs', 'parse-display-derive/src/syn_utils.rs', 'parse-display-with/src/formats.rs', 'parse-display/src/from_str_regex.rs',
         'parse-display/src/helpers.rs', 'parse-display/src/helpers_std.rs', 'parse-display/src/lib.rs']
SUBS = [(r'==', '!='), (r'!=', '=='), (r'(?<![-=<|])>(?![=>])(?= )', '>='), (r' < ', ' <= '), (r'&&', '||'), (r'(?<=[ \w\)])\|\|(?= )', '&&'), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
        (r'\.is_empty\(\)', '.len() == 1'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''),
        (r'\bNone\b', 'Some(Default::default())'), (r'\bif (?!let)([^{]+) \{', 'if true {'), (r'\bif (?!let)([^{]+) \{', 'if false {'), (r' else if ([^{]+) \{', ' else if false {'),
        (r'\.trim\w*\(\)', ''), (r'\.or_else\(', '.and_then(|_| None).or_else('), (r'\?;$', ';'), (r'\bcontinue;', ''), (r'\bbreak;', ''), (r'\breturn [^;]+;', ''), (r'"([^"\\]{1,12})"', '""'), (r"'(.)'", "'~'"),
        (r'\.clone\(\)', '.clone().clone()') if 0 else (r'\bmut_dummy\b', ''), (r'\*\?', '*'), (r'\(\?s:', '(?:'), (r'\(\?:', '('), (r'saturating_sub', 'wrapping_sub'), (r'\.chars\(\)', '.chars().rev()'), (r'\.extend\(', '.clone().extend(')]
def mutants(f, text):
    seen = set()
    lines = text.split('\n')
    doc = False
    for n, l in enumerate(lines):
        st = l.strip()
        if st.startswith(('//', '#[', '#!', 'use ', 'pub use', 'mod ', 'pub mod')) or not st:
            continue
        if f.endswith('parse-display/src/lib.rs') and 0:
            continue
        def out(new, why):
            if new == l:
                return
            k = (n, new)
            if k in seen:
                return
            seen.add(k)
            t = '\n'.join(lines[:n] + [new] + lines[n + 1:])
            return dict(id=hashlib.sha1(('%s:%d:%s' % (f, n, new)).encode()).hexdigest()[:10], file=f, line=n + 1, old=l.strip(), new=new.strip(), why=why), t
        for a, b in SUBS:
            for m in re.finditer(a, l):
                try:
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                except re.error:
                    continue
                r = out(new, a)
                if r:
                    yield r
        if st.endswith(';') and not st.startswith(('let ', 'return', '}', 'const', 'static', 'type')) and l.count('(') == l.count(')') and l.count('{') == l.count('}'):
            r = out('', 'delete')
            if r:
                yield r
        if re.match(r'^\s*[^=]+ => .*,$', l) and l.count('(') == l.count(')') and l.count('{') == l.count('}'):
            r = out('', 'delete arm')
            if r:
                yield r
        # statements inside a quote
        if st.startswith('#') and st.endswith((';', ',')):
            r = out('', 'delete quoted')
            if r:
                yield r
def ns(w, cmd, verif=False, timeout=600):
    m = 'mount --bind %s/w%d/repo /repo && ' % (PL, w) + ('mount --bind %s/w%d/verif /verif && ' % (PL, w) if verif else '')
    try:
        return subprocess.run(['unshare', '-m', 'bash', '-c', m + 'cd /repo && timeout -k 5 %d bash -c %s' % (timeout, "'" + cmd.replace("'", "'\\''") + "'")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess([], 124, 'timeout')
def copy(w, verif=False):
    os.makedirs('%s/w%d' % (PL, w), exist_ok=True)
    d = '%s/w%d/repo' % (PL, w)
    if not os.path.exists(d):
        subprocess.check_call(['cp', '-a', '/repo', d])
    subprocess.check_call('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD' % d, shell=True)
    if verif:
        v = '%s/w%d/verif' % (PL, w)
        if not os.path.exists(v):
            subprocess.check_call(['cp', '-a', '/verif', v])
        subprocess.check_call('cd /verif && tar c --exclude=.build --exclude=.git --exclude=seeded --exclude=evidence . | tar x -C %s' % v, shell=True)
def main():
    if sys.argv[1] == 'survivors':
        out, N = sys.argv[2], int(sys.argv[3])
        files = sys.argv[4:] or FILES
        todo = []
        for f in files:
            t = open('/repo/' + f).read()
            todo += list(mutants(f, t))
        print(len(todo), 'mutants'); sys.stdout.flush()
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        res = json.load(open(out)) if os.path.exists(out) else {}
        todo = [x for x in todo if x[0]['id'] not in res]
        lock = threading.Lock()
        it = iter(todo)
        def work(w):
            copy(w)
            while True:
                with lock:
                    x = next(it, None)
                if x is None:
                    return
                m, text = x
                p = '%s/w%d/repo/%s' % (PL, w, m['file'])
                keep = open(p).read()
                open(p, 'w').write(text)
                r = ns(w, 'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; cargo check -q -p parse-display -p parse-display-with --offline', timeout=120)
                st = 'build'
                if r.returncode == 0:
                    r = ns(w, 'bash /opt/vp/build.sh', timeout=120)
                    st = 'testbuild'
                if r.returncode == 0:
                    ns(w, 'bash /opt/vp/test.sh %s/w%d/out.json' % (PL, w), timeout=240)
                    try:
                        passed = set(json.load(open('%s/w%d/out.json' % (PL, w)))['passed'])
                        miss = [t for t in stable if t not in passed]
                    except Exception:
                        miss = ['?']
                    st = 'killed' if miss else 'survives'
                open(p, 'w').write(keep)
                with lock:
                    res[m['id']] = dict(m, status=st)
                    json.dump(res, open(out, 'w'), indent=1)
                    if st == 'survives':
                        print('SURVIVES', m['file'], m['line'], '|', m['old'], '=>', m['new']); sys.stdout.flush()
        with concurrent.futures.ThreadPoolExecutor(N) as ex:
            list(ex.map(work, range(N)))
    if sys.argv[1] == 'check':
        # SURVIVORS.json OUT.json N props(,) [skip ids(,)] [only ids(,)]
        surv, out, N, pids = json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4]), sys.argv[5].split(',')
        skip = set(sys.argv[6].split(',')) if len(sys.argv) > 6 else set()
        only = set(sys.argv[7].split(',')) if len(sys.argv) > 7 else None
        res = json.load(open(out)) if os.path.exists(out) else {}
        todo = [m for i, m in surv.items() if m['status'] == 'survives' and i not in skip and (i in only if only else not res.get(i, {}).get('caught')) ]
        print(len(todo), 'mutants'); sys.stdout.flush()
        gen = {f: {m['id']: t for m, t in mutants(f, open('/repo/' + f).read())} for f in FILES}
        lock = threading.Lock()
        it = iter(todo)
        def work(w):
            copy(w, True)
            v = '%s/w%d/verif' % (PL, w)
            # the models do not depend on /repo
            c = open(v + '/lib/check.py').read()
            c = c.replace("    out = os.path.join(BUILD, '%s.%s.json' % (mod, rep.pid))\n", "    out = os.path.join(BUILD, '%s.%s.json' % (mod, rep.pid))\n    if os.path.exists('/tmp/famcache/%s.json' % mod):\n        return '/tmp/famcache/%s.json' % mod\n")
            # what the real code did when it was unchanged is agreed with: only differences are validated
            c = c.replace("    traces = []\n    for i, c in enumerate(cases):", """    import hashlib, pickle
    key = '/tmp/mt/base/%s-%s-%s' % (rep.pid, name, suite.replace('/', '_').replace(' ', '_'))
    now = hashlib.sha1(repr((sorted(results.items()), sorted(rejected))).encode()).hexdigest()
    if os.environ.get('RECORD'):
        open(key, 'w').write(now)
    elif os.path.exists(key) and open(key).read() == now:
        rep.events += 1
        return results
    traces = []
    for i, c in enumerate(cases):""")
            open(v + '/lib/check.py', 'w').write(c)
            if os.environ.get('RECORD'):
                os.makedirs('/tmp/mt/base', exist_ok=True)
                while pids:
                    with lock:
                        pid = pids.pop() if pids else None
                    if pid:
                        q = ns(w, 'cd /verif && RECORD=1 VERIF_SEED=1 VERIF_TIER=quick bin/check %s' % pid, verif=True, timeout=900)
                        print('recorded', pid, q.returncode, q.stdout[-300:] if q.returncode else ''); sys.stdout.flush()
                return
            while True:
                with lock:
                    m = next(it, None)
                if m is None:
                    return
                p = '%s/w%d/repo/%s' % (PL, w, m['file'])
                keep = open(p).read()
                if m['id'] not in gen[m['file']]:
                    continue
                open(p, 'w').write(gen[m['file']][m['id']])
                r = dict(res.get(m['id'], {'no': []}), caught=None)
                for pid in pids:
                    if pid in r['no']:
                        continue
                    q = ns(w, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick bin/check %s' % pid, verif=True, timeout=900)
                    if q.returncode == 1 and 'VIOLATION property=%s' % pid in q.stdout:
                        r['caught'] = pid
                        r['how'] = q.stdout[:600]
                        break
                    if q.returncode != 0:
                        r.setdefault('odd', {})[pid] = [q.returncode, q.stdout[-1500:]]
                    else:
                        r['no'].append(pid)
                open(p, 'w').write(keep)
                with lock:
                    res[m['id']] = dict(m, **r)
                    json.dump(res, open(out, 'w'), indent=1)
                    print(r['caught'] or '--', m['id'], m['file'].split('/')[-1], m['line'], '|', m['old'], '=>', m['new'], list(r.get('odd', {}))); sys.stdout.flush()
        with concurrent.futures.ThreadPoolExecutor(N) as ex:
            list(ex.map(work, range(N)))
if __name__ == "__main__":
    main()
