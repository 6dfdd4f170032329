"""Development tool: writes /verif/seeded/<id> from a list of bugs and tries them out in copies (mount namespace).

  plant.py make BUGS.py          write the folders and check that they count (applies, builds, stable tests pass, demo)
  plant.py check [ID..]          run the check of the bug's property against it (from copies of /repo and /verif)
"""
import json, os, subprocess, sys, shutil, tempfile
SEED = '/verif/seeded'
PL = '/tmp/pl'
DEMO = '''#!/bin/bash
# run in /repo: exit 0 iff the documented behaviour is observed
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
sed "s#@REPO@#$PWD#g" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo %s --offline -q
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
parse-display = { path = "@REPO@/parse-display" }
parse-display-with = { path = "@REPO@/parse-display-with" }

[workspace]
'''

def ns(cmd, **kw):
    """run in a namespace in which the copies are /repo and /verif"""
    return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s' % (PL, PL, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sync():
    os.makedirs(PL, exist_ok=True)
    if not os.path.exists(PL + '/repo'):
        subprocess.check_call(['cp', '-a', '/repo', PL + '/repo'])
    subprocess.check_call('cd %s/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD' % PL, shell=True)
    if not os.path.exists(PL + '/verif'):
        subprocess.check_call(['cp', '-a', '/verif', PL + '/verif'])
    subprocess.check_call('cd /verif && tar c --exclude=.build --exclude=.git --exclude=seeded --exclude=evidence . | tar x -C %s/verif' % PL, shell=True)

def demo(d):
    t = tempfile.mkdtemp(dir=PL)
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(d, f), t)
    r = ns('timeout 290 bash %s/demo.sh' % t)
    shutil.rmtree(t)
    return r

def make(path):
    g = {}
    exec(open(path).read(), g)
    only = sys.argv[3:]
    sync()
    for b in g['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(SEED, b['id'])
        R = PL + '/repo/'
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '.'])
        bad = None
        for f, old, new in b['edits']:
            t = open(R + f).read()
            if t.count(old) != 1:
                bad = '%s: %d matches of %r' % (f, t.count(old), old[:80])
                break
            open(R + f, 'w').write(t.replace(old, new))
        if bad:
            print(b['id'], 'BAD EDIT', bad); continue
        diff = subprocess.check_output(['git', '-C', R, 'diff'], text=True)
        base = subprocess.check_output(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
        r = ns('bash /opt/vp/build.sh')
        if r.returncode:
            print(b['id'], 'DOES NOT BUILD', r.stdout[-1500:]); subprocess.check_call(['git', '-C', R, 'checkout', '-q', '.']); continue
        ns('bash /opt/vp/test.sh %s/out.json' % PL)
        passed = set(json.load(open(PL + '/out.json'))['passed'])
        miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
        if miss:
            print(b['id'], 'TESTS FAIL', miss[:6]); subprocess.check_call(['git', '-C', R, 'checkout', '-q', '.']); continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(b.get('sh') or DEMO % b.get('cmd', 'run'))
        open(d + '/main.rs', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/Cargo.toml.in', 'w').write(b.get('toml') or TOML)
        shutil.copy('/verif/harness/Cargo.lock', d + '/Cargo.lock')
        for k, v in b.get('files', {}).items():
            open(d + '/' + k, 'w').write(v)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r1 = demo(d)
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '.'])
        r0 = demo(d)
        ok = r1.returncode != 0 and r0.returncode == 0
        print(b['id'], 'COUNTS' if ok else 'DEMO WRONG patched=%d clean=%d\n%s\n%s' % (r1.returncode, r0.returncode, r1.stdout[-1500:], r0.stdout[-1500:]))
        if not ok:
            shutil.rmtree(d)
        sys.stdout.flush()

def check(ids):
    sync()
    R = PL + '/repo/'
    for i in ids or sorted(os.listdir(SEED)):
        d = os.path.join(SEED, i)
        pid = json.load(open(d + '/meta.json'))['property']
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '.'])
        subprocess.check_call(['git', '-C', R, 'apply', d + '/patch.diff'])
        pids = os.environ.get('PIDS', pid).split(',')
        for p in pids:
            r = ns('cd /verif && bin/check %s' % p)
            vs = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            cp = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'caught.json')
            caught = json.load(open(cp)) if os.path.exists(cp) else {}
            caught[i] = 'caught by %s' % p if r.returncode == 1 and vs else caught.get(i) if i in caught and p not in caught.get(i, '') else 'missed'
            json.dump(caught, open(cp, 'w'), indent=1, sort_keys=True)
            print('%s %s rc=%d %s' % (i, p, r.returncode, 'CAUGHT (%d)' % len(vs) if r.returncode == 1 and vs else 'MISSED ' + r.stdout[-600:] if r.returncode == 0 else 'TOOL ' + r.stdout[-1500:]))
            sys.stdout.flush()
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '.'])

if __name__ == '__main__':
    make(sys.argv[2]) if sys.argv[1] == 'make' else check(sys.argv[2:])
