"""Builds planted bugs (/verif/seeded/<id>/) from a list of specifications and
confirms each one in a scratch copy: it compiles, the stable tests pass, and its
demonstration fails with the change and passes without.

    plant.py SPECS.py [ID...]

SPECS.py defines BUGS: a list of dicts with id, property, edits [(file, old,
new)], demo (the body of demo.sh), needs, breaks. Development tool only; no
check uses it or /verif/seeded.
"""
import json, os, runpy, subprocess, sys

SCRATCH = '/tmp/seed/repo'
SEEDED = '/verif/seeded'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', RUSTFLAGS='-A dependency_on_unit_never_type_fallback', RUST_BACKTRACE='0',
           CARGO_TARGET_DIR=SCRATCH + '/target')
HEAD = '''#!/bin/bash
# %s
P=$PWD/target/debug/papyri
D=$(mktemp -d) || exit 99
trap 'find "$D" -delete' EXIT
fail() { echo "FAIL: $*"; exit 1; }
# is SOURCE EXPECTED: the standard output for SOURCE
is() { out=$(printf '%%s' "$1" | "$P" --stdin ${OPTS-} 2>"$D/err"; echo "[$?]"); [ "$out" = "$2[0]" ] || { cat "$D/err"; fail "got $out for $1"; }; }
# err SOURCE TEXT: SOURCE fails with TEXT in the diagnostics (and no crash)
err() { printf '%%s' "$1" | "$P" --stdin >"$D/out" 2>"$D/err"; [ $? = 1 ] || fail "no error for $1"; grep -qF -- "$2" "$D/err" || { cat "$D/err"; fail "other error for $1"; }; }
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def tests():
    r = sh('cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 2>&1', cwd=SCRATCH, env=ENV)
    log = SCRATCH + '/target/vp-test.log'
    open(log, 'w').write(r.stdout)
    out = '/tmp/seed/out.json'
    sh(f'python3 /opt/vp/results.py {out} cargo:{log}')
    res = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return set(base['stable']) - set(res['passed']), r.stdout

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b['id'] not in only: continue
        d = f'{SEEDED}/{b["id"]}'
        sh('git checkout -q -- .', cwd=SCRATCH)
        ok = True
        for f, old, new in b['edits']:
            p = f'{SCRATCH}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT does not match once:', f, s.count(old)); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        patch = sh('git diff', cwd=SCRATCH).stdout
        r = sh('cargo test --workspace --no-run --locked --offline', cwd=SCRATCH, env=ENV)
        if r.returncode:
            print(b['id'], 'BUILD', r.stderr[-1500:]); continue
        missing, log = tests()
        if missing:
            print(b['id'], 'TESTS fail:', sorted(missing)[:5]); continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(HEAD % b['needs'].replace('\n', ' ') + b['demo'].strip() + '\nexit 0\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r1 = sh(f'timeout 300 bash {d}/demo.sh', cwd=SCRATCH)
        r2 = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo')
        good = r1.returncode not in (0, 99) and r2.returncode == 0
        print(b['id'], b['property'], 'ok' if good else 'DEMO', '' if good else f'patched {r1.returncode} {r1.stdout[-300:]} {r1.stderr[-300:]} / clean {r2.returncode} {r2.stdout[-400:]} {r2.stderr[-300:]}', flush=True)
        if not good: sh(f'rm -r {d}')
    sh('git checkout -q -- .', cwd=SCRATCH)
main()
