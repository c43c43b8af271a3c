#!/usr/bin/env python3
"""Author and validate planted bugs.

  plant.py make SPEC.py          write seeded/<id>/ for every entry of SPEC.py's list SEEDS
  plant.py try ID...             apply, build, test, demo, run the check, restore; print the verdict

A spec entry: dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=C++ text, srcs=[repo sources],
flags="", extra=[files copied beside the demo]).
"""
import sys, os, re, json, subprocess, tempfile, shutil, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEED = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is not.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
lib=src/lib/sup/oac-tree
g++ -std=c++17 -O1 -pthread %(flags)s -I"$here" -Isrc/lib -I$lib -Isrc/app "$here/demo.cpp" %(srcs)s -o "$tmp/demo" || exit 2
cd "$tmp" && timeout %(timeout)d "$tmp/demo"
'''

# the same for the parts that need sup-dto: every source of the library, against the stand-ins beside the demonstration
LIBDEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is not.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
lib=src/lib/sup/oac-tree
export flags="-std=c++17 -O0 -g -pthread -w %(flags)s -I$here -I$here/shims -Isrc/lib -I$lib -Isrc/app" tmp
one() { g++ $flags -c "$1" -o "$tmp/$(echo "$1" | tr / _).o"; }
export -f one
{ find $lib -name '*.cpp'; ls "$here"/shims/*.cpp; echo "$here/demo.cpp"; } | xargs -P 8 -n 1 bash -c 'one "$0"' || exit 2
g++ -pthread %(flags)s "$tmp"/*.o -o "$tmp/demo" || exit 2
cd "$tmp" && timeout %(timeout)d "$tmp/demo"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(spec):
    for s in runpy.run_path(spec)['SEEDS']:
        d = os.path.join(SEED, s['id'])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(); bad = False
        try:
            sh(f'git -C {REPO} archive HEAD | tar x -C {tmp}')
            sh(f'git -C {tmp} init -q && git -C {tmp} add -A -f && git -C {tmp} -c user.email=a@b -c user.name=x commit -qm x')
            for f, old, new in s['edits']:
                p = os.path.join(tmp, f)
                t = open(p).read()
                pat = r'\n(?:[ \t]*\n)*'.join(re.escape(x) for k, x in enumerate(old.split('\n')) if x.strip() or k in (0, old.count('\n')))
                n = len(re.findall(pat, t))
                if n != 1:
                    print(f"{s['id']}: {f}: pattern occurs {n} times: {old[:60]!r}"); bad = True; break
                open(p, 'w').write(re.sub(pat, lambda m: new, t))
            diff = sh(f'git -C {tmp} diff').stdout
        finally:
            shutil.rmtree(tmp)
        if bad: shutil.rmtree(d); continue
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
        srcs = ' '.join('$lib/' + x if not x.startswith('$') and not x.startswith('"') else x for x in s.get('srcs', []))
        lib = s.get('lib', False)
        if lib:
            shutil.rmtree(os.path.join(d, 'shims'), ignore_errors=True)
            shutil.copytree(os.path.join(V, 'shims', 'sup'), os.path.join(d, 'shims', 'sup'))
            for x in ('sup_dto.cpp', 'sup_xml.cpp'): shutil.copy(os.path.join(V, 'shims', x), os.path.join(d, 'shims'))
            shutil.copy(os.path.join(V, 'tools', 'seeds', 'demo.h'), d)
        open(os.path.join(d, 'demo.sh'), 'w').write((LIBDEMO if lib else DEMO) % dict(srcs=srcs, flags=s.get('flags', ''), timeout=s.get('timeout', 60)))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        for x in s.get('extra', []):
            src = os.path.join(V, x)
            dst = os.path.join(d, os.path.basename(x))
            if os.path.isdir(src):
                shutil.copytree(src, dst, dirs_exist_ok=True)
            else:
                shutil.copy(src, dst)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('wrote', d)

def trial(i, checks=True):
    d = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    r = {}
    top = tempfile.mkdtemp(prefix='plant_'); R = os.path.join(top, 'repo')
    try:
        sh(f'cp -a {REPO} {R} && git -C {R} checkout -q -- . && rm -rf {R}/_build')
        demo = f'cd {R} && timeout 300 bash {d}/demo.sh'
        t0 = time.time()
        x = sh(demo); r['demo_clean'] = x.returncode; r['demo_secs'] = round(time.time() - t0, 1)
        if x.returncode: r['demo_clean_out'] = x.stdout[-1500:]
        x = sh(f'git -C {R} apply {d}/patch.diff')
        if x.returncode:
            print(i, 'patch does not apply', x.stdout); return
        x = sh(f'cd {top} && CC=gcc CXX=g++ cmake -S /opt/vp/core -B {R}/_build -G Ninja -DREPO={R} -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C {R}/_build all all_verify_interface_header_sets')
        r['build'] = x.returncode
        if x.returncode: r['build_out'] = x.stdout[-800:]
        x = sh(f'ctest --test-dir {R}/_build -j8 --timeout 60'); r['tests'] = 'pass' if x.returncode == 0 else 'FAILED ' + x.stdout[-300:]
        x = sh(demo); r['demo_bug'] = x.returncode; r['demo_out'] = x.stdout[-150:]
        if checks:
            t0 = time.time()
            x = sh(f'cd {V} && VP_REPO={R} timeout 900 python3 driver/check.py {meta["property"]}')
            r['check'] = x.returncode
            r['secs'] = round(time.time() - t0, 1)
            r['out'] = '; '.join(l for l in x.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l)[:400] or x.stdout[-600:]
    finally:
        shutil.rmtree(top)
    ok = r['demo_clean'] == 0 and r['build'] == 0 and r['tests'] == 'pass' and r['demo_bug'] == 1
    if checks:
        import fcntl
        f = os.path.join(V, 'tools', 'design', 'trials.json')
        with open(f, 'a+') as h:
            fcntl.flock(h, fcntl.LOCK_EX); h.seek(0); a = json.loads(h.read() or '{}')
            a[i] = ('caught' if r.get('check') == 1 else 'missed') if ok else 'invalid'
            h.seek(0); h.truncate(); h.write(json.dumps(a, indent=1, sort_keys=True) + '\n')
    print(('CAUGHT ' if r.get('check') == 1 else 'MISSED ') if ok else 'INVALID', i, meta['property'], json.dumps(r)[:900], flush=True)

def quiet(spec, only):
    """Edits that keep the behaviour: build, tests and checks have to stay quiet."""
    for s in runpy.run_path(spec)['R']:
        if only and s['id'] not in only: continue
        top = tempfile.mkdtemp(prefix='quiet_'); R = os.path.join(top, 'repo'); out = []
        try:
            sh(f'cp -a {REPO} {R} && git -C {R} checkout -q -- . && rm -rf {R}/_build')
            for f, old, new in s['edits']:
                p = os.path.join(R, f); t = open(p).read()
                if t.count(old) != 1: out.append(f'{f}: pattern occurs {t.count(old)} times: {old[:50]!r}')
                open(p, 'w').write(t.replace(old, new))
            if not s.get('lib'):
                x = sh(f'cd {top} && CC=gcc CXX=g++ cmake -S /opt/vp/core -B {R}/_build -G Ninja -DREPO={R} && ninja -C {R}/_build all && ctest --test-dir {R}/_build -j8 --timeout 60')
                if x.returncode: out.append('BUILD ' + x.stdout[-500:])
            for q in s['props']:
                x = sh(f'cd {V} && VP_REPO={R} timeout 900 python3 driver/check.py {q}')
                l = [y for y in x.stdout.splitlines() if y.startswith(('NOTE', 'VIOL', 'violation', 'KNOWN'))]
                out.append(f'{q}:{x.returncode} ' + ' / '.join(l)[:500])
        finally: shutil.rmtree(top)
        print(s['id'], 'QUIET' if all(re.match(r'C..:0 $', o) for o in out) else 'LOOK', '; '.join(out), flush=True)

if __name__ == '__main__':
    if sys.argv[1] == 'quiet': quiet(sys.argv[2], sys.argv[3:]); sys.exit(0)
    if sys.argv[1] == 'make': make(sys.argv[2])
    else:
        for i in (sys.argv[2:] or sorted(os.listdir(SEED))): trial(i)
