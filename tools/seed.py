#!/usr/bin/env python3
"""Makes and confirms a planted bug.  usage: seed.py NAME [check ids...]
The bugs are described in seeds.py: edits=[(file, old, new)...] and a Rust program that exits 0 on
the unchanged tree.  The bug is kept under seeded/ID if it builds, passes the stable tests and the
program tells the trees apart.  Then the checks are run against the changed tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# run with the repository as working directory: exit 0 if it behaves as the property says
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -r "$D"' EXIT
B=$(cargo metadata --offline --format-version 1 --manifest-path "$PWD/Cargo.toml" |
    python3 -c 'import json,sys
for p in json.load(sys.stdin)["packages"]:
    if p["name"] == "byte-slice": print([t for t in p["targets"] if "lib" in t["kind"]][0]["src_path"], p["edition"])')
set -- $B
export CARGO_PKG_VERSION=0 CARGO_PKG_VERSION_MAJOR=0 CARGO_PKG_VERSION_MINOR=0 CARGO_PKG_VERSION_PATCH=0
rustc --crate-name byte_slice --edition "$2" --crate-type rlib --cap-lints allow --out-dir "$D" "$1" || exit 2
rustc --crate-name http_box --edition 2015 --crate-type rlib --cap-lints allow --extern byte_slice="$D/libbyte_slice.rlib" --out-dir "$D" src/lib.rs || exit 2
rustc --crate-name demo --edition 2015 --cap-lints allow -L "$D" --extern http_box="$D/libhttp_box.rlib" -o "$D/demo" "$H/demo.rs" || exit 2
timeout 60 "$D/demo"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def main():
    import seeds
    import seeds_b  # noqa: F401 (adds to seeds.BUGS)
    import seeds_c  # noqa: F401
    import seeds_d  # noqa: F401
    g = seeds.BUGS[sys.argv[1]]
    out = os.path.join(V, 'seeded', sys.argv[1])
    W = tempfile.mkdtemp(prefix='seed.')
    try:
        T = os.path.join(W, 'repo')
        shutil.copytree('/repo', T, symlinks=True)
        for e in g['edits']:
            f, a, b = e[0], e[-2], e[-1]
            p = os.path.join(T, f)
            s = open(p).read()
            k = 0
            if len(e) == 4:      # the first match after this text
                if s.count(e[1]) != 1:
                    print('anchor matches %d times in %s: %r' % (s.count(e[1]), f, e[1]))
                    return 1
                k = s.index(e[1])
                if a not in s[k:k + 5000]:
                    print('no match after %r: %r' % (e[1], a))
                    return 1
            elif s.count(a) != 1:
                print('edit matches %d times in %s: %r' % (s.count(a), f, a))
                return 1
            k = s.index(a, k)
            open(p, 'w').write(s[:k] + b + s[k + len(a):])
        diff = sh(['git', 'diff'], T).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.rs'), 'w').write(g['main'])
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        a = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        b = sh(['bash', os.path.join(out, 'demo.sh')], T)
        ok = a.returncode == 0 and b.returncode not in (0, 2)
        print('demo: clean %d, changed %d' % (a.returncode, b.returncode))
        if not ok:
            print(a.stdout[-1500:], a.stderr[-1500:], b.stdout[-1500:], b.stderr[-1500:])
        env = dict(os.environ)
        r = subprocess.run(['timeout', '300', 'cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], cwd=T, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0'))
        log = os.path.join(W, 'log')
        open(log, 'w').write(r.stdout)
        sh(['python3', '/opt/vp/results.py', os.path.join(W, 'out.json'), 'cargo:' + log], T)
        d = json.load(open(os.path.join(W, 'out.json')))
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        p = set(d.get('passed', d.get('pass', [])))
        miss = sorted(st - p)
        print('tests: %d stable pass, failing: %s' % (len(st & p), miss[:5]))
        if miss or not ok:
            print('NOT KEPT')
            shutil.rmtree(out)
            if sys.argv[2:] != ['all']:
                return 1
        env['VERIF_REPO'] = T
        if sys.argv[2:] == ['all']:
            r = sh(['python3', os.path.join(V, 'tools', 'allprops.py'), T], V)
            print('\n'.join(l[:200] for l in r.stdout.splitlines()[-25:]), r.stderr[-500:])
            return 0
        for c in sys.argv[2:] or [g['prop']]:
            r = sh(['python3', os.path.join(V, 'check.py'), c], V, env)
            print('\n'.join(l[:300] for l in r.stdout.splitlines()[-8:]))
            print(c, 'rc', r.returncode, r.stderr[-500:])
    finally:
        shutil.rmtree(W)


sys.exit(main())
