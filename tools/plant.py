#!/usr/bin/env python3
"""Development helper for the planted bugs (no check uses it).

  plant.py SPEC.py [ID...]   SPEC.py defines BUGS: a list of dicts
     {id, prop, edits:[(file, old, new)...], demo: C++ source (or {name: text}), needs, breaks}

For each bug: applies the edits to /repo, writes seeded/<id>/, builds and runs the stable tests, runs the demo
with and without the patch and the quick check of the property, then restores /repo."""
import json, os, re, subprocess, sys
R, V = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Compiles demo.cpp against the headers and sources of the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
clang++-18 -stdlib=libc++ -std=gnu++14 -pthread -O1 -w %s -fms-extensions -fms-compatibility -fms-compatibility-version=19.30 \\
  -U_MSC_VER -fno-delayed-template-parsing -include "$d/gnuc_macros.h" -include utility -Iinclude -Iexperimental/include \\
  "$d/demo.cpp" $(find src -name '*.cpp') -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def edit(path, old, new):
    s = open(path, 'rb').read()
    for enc in (lambda t: t.replace('\n', '\r\n'), lambda t: t):
        o, n = enc(old).encode('latin-1' if b'\x96' in s else 'utf-8'), enc(new).encode()
        if s.count(o) == 1:
            open(path, 'wb').write(s.replace(o, n)); return
    raise SystemExit(f'no unique match in {path}: {old!r} ({s.count(old.encode())})')
def restore(): sh('git -C /repo checkout -- .')
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        d = f'{V}/seeded/{b["id"]}'; os.makedirs(d, exist_ok=True)
        try:
            for f, o, n in b['edits']: edit(f'{R}/{f}', o, n)
            diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
            base = [l for l in subprocess.run('git -C /repo diff -U0', shell=True, stdout=subprocess.PIPE).stdout.split(b'\n')
                    if l.startswith(b'-') and not l.startswith(b'---')]
            orig = b''.join(subprocess.run(['git', '-C', R, 'show', f'e95ce2a:{f}'], stdout=subprocess.PIPE).stdout for f in {e[0] for e in b['edits']})
            notorig = [l for l in base if l[1:].strip() and l[1:] not in orig]
            open(f'{d}/patch.diff', 'wb').write(diff)
            demo = b['demo'] if isinstance(b['demo'], dict) else {'demo.cpp': b['demo']}
            for k, t in demo.items(): open(f'{d}/{k}', 'w').write(t)
            open(f'{d}/gnuc_macros.h', 'w').write(open('/opt/vp/cmake/gnuc_macros.h').read())
            open(f'{d}/demo.sh', 'w').write(DEMO % b.get('flags', '')); os.chmod(f'{d}/demo.sh', 0o755)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
            r = sh('bash /opt/vp/test.sh ' + (os.environ.get('TMPDIR') or '/tmp') + '/o.json'); o = json.load(open('' + (os.environ.get('TMPDIR') or '/tmp') + '/o.json'))
            p = set(o['passed']); bad = sorted(stable - p) if stable else o['failed']
            d1 = sh(f'bash {d}/demo.sh', cwd=R, timeout=400)
            ck = sh(f'python3 {V}/run.py {b["prop"]} --tier quick', cwd=V) if not b.get('nocheck') else None
        finally: restore()
        d0 = sh(f'bash {d}/demo.sh', cwd=R, timeout=400)
        ok = not bad and d1.returncode != 0 and d0.returncode == 0 and not notorig
        vio = re.findall(r'^VIOLATION.*', ck.stdout, re.M) if ck else []
        print(f'{b["id"]}: {"KEEP" if ok else "REJECT"} tests={"ok" if not bad else bad[:3]} demo_bug={d1.returncode} demo_clean={d0.returncode} '
              f'{"not original lines: %s" % notorig if notorig else ""} check={"%d: %s" % (ck.returncode, vio[:1]) if ck else "-"}', flush=True)
        if d0.returncode: print(d0.stdout[-1500:])
        if d1.returncode == 2: print(d1.stdout[-800:])
        if not ok: sh(f'rm -r {d}')
main()
