#!/usr/bin/env python3
"""Decides one property by symbolic execution of the code in /repo.

usage: check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [-v] [--keep]

Compiles the repository sources the harness needs from /repo's current tree to LLVM bitcode, links them with the harness and
the runtime model, and runs the executor build/sx on every entry of the harness.  Counterexamples are replayed natively
(real libstdc++, sanitizers where the failure is a memory error or a data race); only those that reproduce are violations.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LIB = REPO + '/src/lib'
SRC = LIB + '/sup/oac-tree'
CXX = 'clang++'
BASEF = ['-std=c++17', '-gline-tables-only', '-D_GLIBCXX_ASSERTIONS', '-w', '-fno-strict-aliasing',
         '-I' + VERIF + '/rt', '-isystem', VERIF + '/shims/std', '-I' + LIB, '-I' + VERIF + '/shims', '-I' + SRC, '-I' + REPO + '/src/app']
BCF = BASEF + ['-O1', '-emit-llvm', '-mcmodel=medium', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-c']
NCPU = int(os.environ.get('VP_JOBS', '8'))
OUT = os.environ.get('VP_OUT', VERIF)  # where evidence and counterexamples go
FIRST = bool(os.environ.get('VP_FIRST'))
STOP, PROCS = threading.Event(), []

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def run(cmd, timeout=600, env=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, errors='replace', **kw)

class BuildError(Exception):
    pass

def build_engine():
    sx = os.environ.get('VP_SX') or VERIF + '/build/sx'
    if os.environ.get('VP_SX'):
        return sx
    r = run(['make', '-s', '-j4', '-C', VERIF + '/engine'])
    if r.returncode or not os.path.exists(sx):
        raise BuildError('engine build failed:\n' + r.stdout)
    return sx

def parse_harness(path):
    """Metadata lines: // @repo a.cpp b.cpp | // @entry name key=value... | // @bound text | // @assume text | // @flags ..."""
    h = {'path': path, 'repo': [], 'entries': [], 'bounds': [], 'assume': [], 'flags': [], 'allflags': False}
    for line in open(path):
        m = re.match(r'//\s*@(\w+)\s*(.*)', line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'repo':
            h['repo'] += v.split()
        elif k == 'entry':
            w = v.split()
            h['entries'].append(dict([('name', w[0])] + [x.split('=', 1) for x in w[1:]]))
        elif k == 'bound':
            h['bounds'].append(v)
        elif k == 'assume':
            h['assume'].append(v)
        elif k == 'allflags':
            h['allflags'] = True
        elif k == 'flags':
            h['flags'] += v.split()
    return h

CACHE = os.environ.get('VP_CACHE', VERIF + '/build/cache')
_sha = {}

def sha(path):
    if path not in _sha:
        try:
            _sha[path] = hashlib.sha256(open(path, 'rb').read()).hexdigest()
        except OSError:
            _sha[path] = None
    return _sha[path]

def put(src, dst):
    t = '%s.%d.%d' % (dst, os.getpid(), threading.get_ident())
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copyfile(src, t)
    os.replace(t, dst)

class Obj:
    """One compiled source: instrumented bitcode, the symbols it defines and needs, and native objects on demand."""
    def __init__(self, src, flags, tmp, instrument=True):
        self.src, self.flags, self.tmp, self.instrument, self.err = src, flags, tmp, instrument, ''

    def build(self):
        """A cached result is used only if every file it was made from still has the same content."""
        key = CACHE + '/' + hashlib.sha256(json.dumps([self.src, self.flags, self.instrument, sha(SX) if self.instrument else '']).encode()).hexdigest()[:24]
        try:
            j = json.load(open(key + '.json'))
            if all(sha(p) == h for p, h in j['deps']) and os.path.exists(CACHE + '/' + j['id'] + '.bc'):
                self.id, self.und, self.dfn = j['id'], set(j['und']), set(j['dfn'])
                self.bc = CACHE + '/' + self.id + '.bc'
                return self
        except (OSError, ValueError, KeyError):
            pass
        out = '%s/%s.bc' % (self.tmp, hashlib.sha256((self.src + str(self.flags)).encode()).hexdigest()[:16])
        r = run([CXX] + self.flags + [self.src, '-o', out, '-MD', '-MF', out + '.d'])
        if r.returncode:
            again = run([CXX] + self.flags + ['-include', VERIF + '/rt/vp_all.h', self.src, '-o', out, '-MD', '-MF', out + '.d'])
            r = again if again.returncode == 0 else r
        if r.returncode == 0 and self.instrument:
            r = run([SX, '--instrument', out, out + '.i'])
            if r.returncode == 0:
                os.replace(out + '.i', out)
        if r.returncode:
            self.err = r.stdout or 'failed'
            self.und, self.dfn = set(), set()
            return self
        d = open(out + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
        d = [p for p in d if p.startswith(REPO) or p.startswith(VERIF)]
        self.und, self.dfn = undefined(out)
        self.id = hashlib.sha256(open(out, 'rb').read()).hexdigest()[:32]
        self.bc = CACHE + '/' + self.id + '.bc'
        put(out, self.bc)
        os.unlink(out)
        json.dump({'deps': [(p, sha(p)) for p in d], 'id': self.id, 'und': sorted(self.und), 'dfn': sorted(self.dfn)}, open(out + '.j', 'w'))
        put(out + '.j', key + '.json')
        return self

    def native(self, kind):
        o = '%s/%s.%s.o' % (CACHE, self.id, kind)
        if not os.path.exists(o):
            t = '%s/%s.%s.%d.o' % (self.tmp, self.id, kind, threading.get_ident())
            r = run([CXX, '-O1', '-w'] + SAN[kind] + ['-c', self.bc, '-o', t])
            if r.returncode:
                raise BuildError('native: ' + r.stdout)
            put(t, o)
            os.unlink(t)
        return o

SAN = {'plain': [], 'asan': ['-fsanitize=address'], 'tsan': ['-fsanitize=thread']}

def undefined(bc):
    r = run(['llvm-nm', bc])
    und, dfn = set(), set()
    for line in r.stdout.splitlines():
        m = re.match(r'\s*[0-9a-f\-]*\s+(\w)\s+(\S+)$', line)
        if m:
            (und if m.group(1) in 'Uu' else dfn).add(m.group(2))
    return und - dfn, dfn

def sources():
    return sorted(glob.glob(SRC + '/**/*.cpp', recursive=True)) + sorted(glob.glob(VERIF + '/shims/*.cpp'))

class Unit:
    """One harness file, compiled and linked."""
    def __init__(self, h, tmp, tier):
        self.h, self.tier = h, tier
        self.name = os.path.basename(h['path'])[:-4]
        self.dir = os.path.join(tmp, self.name)
        os.makedirs(self.dir)
        self.native = {}

    def build(self, pool):
        h = self.h
        tf = ['-DVP_THOROUGH=1'] if self.tier == 'thorough' else []
        # @flags apply to the harness and to the files it names; everything else is compiled the same way for all checks
        named = []
        for s in h['repo']:
            src = (VERIF + '/shims/' + s[6:]) if s.startswith('shims/') else (REPO + '/src/' + s) if s.startswith('app/') else SRC + '/' + s
            if os.path.exists(src):  # otherwise it moved: it is found again through its symbols
                named.append(src)
        objs = [Obj(h['path'], BCF + tf + h['flags'], self.dir), Obj(VERIF + '/rt/rt_threads.cpp', BCF, self.dir)]
        std = Obj(VERIF + '/rt/rt_stdlib.cpp', BCF + ['-fno-builtin'], self.dir, False)
        objs += [Obj(s, BCF + h['flags'], self.dir) for s in named]
        list(pool.map(Obj.build, objs + [std]))
        errs = [o for o in objs + [std] if o.err]
        if errs:
            raise BuildError('\n'.join(o.src + ':\n' + o.err for o in errs))
        rest = None
        while True:  # symbols not defined so far: look for them in the other sources
            dfn = set().union(*[o.dfn for o in objs])
            und = {u for o in objs for u in o.und if '3sup' in u} - dfn
            if not und:
                break
            if rest is None:
                rest = [Obj(s, BCF + ([] if s.startswith(VERIF) else h['flags'] if h['allflags'] else []), self.dir) for s in sources() if s not in named]
                list(pool.map(Obj.build, rest))
            add = [o for o in rest if o.dfn & und and o not in objs]
            if not add:
                raise BuildError('undefined: ' + ' '.join(sorted(und)) + ''.join('\n' + o.src + ':\n' + o.err for o in rest if o.err))
            objs += add
        self.objs = objs
        self.names = [os.path.relpath(o.src, REPO) for o in objs if o.src.startswith(REPO)]
        self.full = self.dir + '/full.bc'
        r = run(['llvm-link'] + [o.bc for o in objs] + [std.bc, '-o', self.full])
        if r.returncode:
            raise BuildError('link: ' + r.stdout)

    def native_lib(self, kind, pool=None):
        if kind not in self.native:
            m = Obj(VERIF + '/rt/rt_native.cpp', ['-O1', '-w', '-I' + VERIF + '/rt', '-emit-llvm', '-c'], self.dir, False).build()
            os_ = list((pool or cf.ThreadPoolExecutor(NCPU)).map(lambda o: o.native(kind), self.objs))
            self.native[kind] = os_ + [m.native('plain')]
        return self.native[kind]

    def native_exe(self, entry, kind):
        """kind: plain, asan, tsan"""
        exe = self.dir + '/replay_%s_%s' % (entry, kind)
        if not os.path.exists(exe):
            objs = self.native_lib(kind)
            e = self.dir + '/entry_' + entry + '.cpp'
            open(e, 'w').write('extern "C" void %s(); extern "C" void vp_entry() { %s(); }\n' % (entry, entry))
            r = run([CXX, '-O1', '-w'] + SAN[kind] + [e] + objs + ['-o', exe, '-lpthread', '-ldl'])
            if r.returncode:
                raise BuildError('native link: ' + r.stdout)
        return exe

    def execute(self, e, tmo):
        out = self.dir + '/' + e['name'] + '.json'
        cmd = [SX, self.full, '--fn', e['name'], '--out', out, '--max-time', str(tmo), '--query-timeout', e.get('qto', '20000'), '--repo-prefix', REPO + '/src/']
        if 'steps' in e:
            cmd += ['--max-steps', e['steps']]
        if VERB:
            cmd += ['-v', '--profile']
        t = time.time()
        if STOP.is_set():
            return {'function': e['name'], 'error': 'stopped', 'violations': []}
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        PROCS.append(p)
        try:
            text = p.communicate(timeout=tmo + 90)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return {'function': e['name'], 'error': 'executor exceeded its time', 'violations': []}
        if VERB:
            log(text)
        if not os.path.exists(out):
            return {'function': e['name'], 'error': 'executor failed (%d): %s' % (p.returncode, text[-800:]), 'violations': []}
        j = json.load(open(out))
        if FIRST and j.get('violations'):  # used when many changed copies are tried: one violation is enough
            STOP.set()
            for q in PROCS:
                q.kill()
        j['elapsed'] = time.time() - t
        return j

    def replay(self, entry, inputs, kind, path):
        with open(path, 'w') as f:
            f.write('# counterexample for entry %s of %s\n' % (entry, os.path.basename(self.h['path'])))
            for n, w, v in inputs:
                f.write('in %d %s/%d\n' % (v, re.sub(r'\s', '_', n), w))
        exe = self.native_exe(entry, kind)
        env = dict(os.environ, VP_REPLAY=path, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:detect_container_overflow=1',
                   TSAN_OPTIONS='exitcode=98:halt_on_error=1')
        try:
            r = run([exe], timeout=90, env=env, cwd=self.dir)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return -14, 'timeout'

def confirm(u, entry, v, path):
    """Replays one violation; returns (reproduced, how)."""
    kinds = {'memory': ['asan', 'plain'], 'race': ['tsan'], 'stack': ['plain']}.get(v['kind'], ['plain', 'asan'])
    last = ''
    for k in kinds:
        code, out = u.replay(entry, v['inputs'], k, path)
        last = '%s build: exit %d: %s' % (k, code, out.strip()[-1500:])
        if code == 42 or (code == 99 and 'AddressSanitizer' in out) or (code == 98 and 'ThreadSanitizer' in out) or code in (-6, -11, -8, -4, -7):
            if k == 'tsan' and 'data race' not in out and 'heap-use-after-free' not in out and code != 42:
                continue
            return True, last
        if code == -14 and v['kind'] == 'hang':
            return True, last
    return False, last

def main():
    global SX, VERB
    args = sys.argv[1:]
    prop = args[0]
    if prop == '--precompile':
        SX = build_engine()
        tmp = tempfile.mkdtemp(prefix='vp_pre_')
        with cf.ThreadPoolExecutor(NCPU) as pool:
            objs = [Obj(s, BCF, tmp) for s in sources() + [VERIF + '/rt/rt_threads.cpp']] + [Obj(VERIF + '/rt/rt_stdlib.cpp', BCF + ['-fno-builtin'], tmp, False), Obj(VERIF + '/rt/rt_native.cpp', ['-O1', '-w', '-I' + VERIF + '/rt', '-emit-llvm', '-c'], tmp, False)]
            for h in glob.glob(VERIF + '/harness/*.cpp'):
                ph = parse_harness(h)
                objs.append(Obj(h, BCF + ph['flags'], tmp))
                objs += [Obj(SRC + '/' + f, BCF + ph['flags'], tmp) for f in ph['repo'] if ph['flags'] and os.path.exists(SRC + '/' + f)]
            list(pool.map(Obj.build, objs))
            list(pool.map(lambda o: o.err or o.native('plain'), [o for o in objs if 'rt_stdlib' not in o.src]))
        shutil.rmtree(tmp, ignore_errors=True)
        for o in objs:
            if o.err:
                log(o.src + ': ' + o.err[:500])
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    VERB = '-v' in args
    only = args[args.index('--only') + 1] if '--only' in args else None
    t0 = time.time()
    budget = 600 if tier == 'quick' else 840
    os.makedirs(OUT + '/evidence', exist_ok=True)
    outdir = OUT + '/out/' + prop
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    tmp = tempfile.mkdtemp(prefix='vp_' + prop + '_')
    known = json.load(open(VERIF + '/known_findings.json')) if os.path.exists(VERIF + '/known_findings.json') else {'findings': []}
    known = [k for k in known['findings'] if k['property'] == prop]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': {}, 'assumptions': [], 'wall_s': 0.0, 'violations': 0}
    lines, nviol = [], 0
    try:
        SX = build_engine()
        hs = [parse_harness(p) for p in sorted(glob.glob(VERIF + '/harness/' + prop.lower() + '*.cpp')) if re.match(prop.lower() + r'(_\w+|[a-z])?\.cpp$', os.path.basename(p))]
        units = [Unit(h, tmp, tier) for h in hs]
        with cf.ThreadPoolExecutor(NCPU) as pool:
            for u in units:
                u.build(pool)
        jobs = [(u, e) for u in units for e in u.h['entries'] if (not only or e['name'] == only) and (tier == 'thorough' or e.get('tier') != 'thorough')]
        left = max(60, budget - (time.time() - t0))
        waves = (len(jobs) + NCPU - 1) // NCPU
        def tmo(e):
            t = float(e.get('time', '40')) * (8 if tier == 'thorough' else 1)
            return min(t, left / max(1, waves))
        with cf.ThreadPoolExecutor(NCPU) as pool:
            res = list(pool.map(lambda p: p[0].execute(p[1], tmo(p[1])), jobs))
        tot = {k: 0 for k in ('paths', 'forks', 'instructions', 'assertions_checked', 'assertion_queries', 'queries', 'sat', 'unsat', 'unknown')}
        solver = 0.0
        funcs, entries, samples, unconfirmed, knownhits, validated, disagree = set(), [], [], [], [], 0, []
        complete = True
        for (u, e), r in zip(jobs, res):
            for k in tot:
                tot[k] += r.get(k, 0)
            solver += r.get('solver_s', 0)
            funcs |= set(r.get('functions', []))
            complete &= bool(r.get('complete'))
            entries.append({'entry': e['name'], 'complete_within_bounds': bool(r.get('complete')), 'paths': r.get('paths', 0), 'assertions_checked': r.get('assertions_checked', 0),
                            'queries': r.get('queries', 0), 'solver_s': round(r.get('solver_s', 0), 3), 'wall_s': round(r.get('wall_s', 0), 2),
                            'inconclusive': r.get('inconclusive', []) + ([r['error']] if 'error' in r else []), 'reached': r.get('reached', []), 'pruned_paths': r.get('paths_pruned', 0)})
            want = [w for w in e.get('reach', '').split(',') if w]
            miss = [w for w in want if w not in r.get('reached', [])]
            if miss:
                entries[-1]['not_reached'] = miss
            for s in r.get('samples', [])[:1]:
                samples.append(e['name'] + ': ' + s[:400])
            # counterexamples
            for i, v in enumerate(r.get('violations', [])):
                path = '%s/%s-%d.replay' % (outdir, e['name'], i)
                ok, how = confirm(u, e['name'], v, path)
                what = '%s: %s: %s (in %s)' % (e['name'], v['kind'], v['msg'], v['where'])
                if not ok:
                    unconfirmed.append({'what': what, 'replay': how[:600]})
                    continue
                with open(path, 'a') as f:
                    f.write('# %s\n# stack:\n' % what + ''.join('#   %s\n' % s for s in v['stack']) + '# native replay: %s\n' % how.replace('\n', '\n#   '))
                k = next((k for k in known if k['entry'] == e['name'] and k['kind'] == v['kind'] and k['msg'] == v['msg'] and k.get('where', v['where']) == v['where']), None)
                if k:
                    knownhits.append(k['what'])
                    lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                    continue
                nviol += 1
                log('violation: ' + what)
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        # the executor against the real build: sample paths it found to hold must hold natively too
        def wit(p):
            (u, e), r = p
            n = 0
            bad = []
            for i, w in enumerate(r.get('witnesses', [])[:2 if tier == 'quick' else 4]):
                code, out = u.replay(e['name'], w, 'plain', u.dir + '/wit_%s_%d' % (e['name'], i))
                if code == 0:
                    n += 1
                else:
                    bad.append('%s witness %d: exit %d %s' % (e['name'], i, code, out[-300:]))
            return n, bad
        try:
            for u in units:
                if any(j[0] is u for j in jobs):
                    u.native_lib('plain')
            with cf.ThreadPoolExecutor(NCPU) as pool:
                for n, bad in pool.map(wit, zip(jobs, res)):
                    validated += n
                    disagree += bad
        except BuildError as ex:
            disagree.append(str(ex)[:500])
        ev['coverage'] = {
            'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': validated, 'samples': samples[:12],
            'exhaustive': complete, 'instructions_executed': tot['instructions'], 'assertions_checked': tot['assertions_checked'], 'assertion_queries': tot['assertion_queries'],
            'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'], 'solver_s': round(solver, 3),
            'functions_encoded': sorted(funcs), 'files_compiled': sorted({n for u in units for n in u.names}), 'bounds': [b for u in units for b in u.h['bounds']],
            'entries': entries, 'unconfirmed_counterexamples': unconfirmed, 'known_findings': knownhits, 'native_disagreements': disagree,
            'explanation': 'states = execution paths explored symbolically (each covers every value of its symbolic inputs), transitions = forks decided by the solver'}
        ev['assumptions'] = [a for u in units for a in u.h['assume']]
        if not complete:
            lines.append('NOTE property=%s not every path was decided within the budget: %s' % (prop, '; '.join('%s: %s' % (e['entry'], ','.join(e['inconclusive'])[:120] or 'time') for e in entries if not e['complete_within_bounds'])))
        for x in unconfirmed:
            lines.append('NOTE property=%s counterexample not reproduced natively: %s' % (prop, x['what']))
        for x in disagree:
            lines.append('NOTE property=%s native run differs: %s' % (prop, x[:300]))
        for x in entries:
            if x.get('not_reached'):
                lines.append('NOTE property=%s %s did not reach %s' % (prop, x['entry'], x['not_reached']))
    except BuildError as ex:
        ev['level'] = 'other'
        ev['coverage'] = {'explanation': 'nothing decided: ' + str(ex)[:1500]}
        lines.append('NOTE property=%s nothing decided, build failed: %s' % (prop, str(ex)[:1500]))
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = nviol
    json.dump(ev, open(OUT + '/evidence/%s.json' % prop, 'w'), indent=1)
    if '--keep' in args:
        log('kept ' + tmp)
    else:
        shutil.rmtree(tmp, ignore_errors=True)
    seen = set()
    for l in lines:
        if l not in seen:
            print(l)
        seen.add(l)
    c = ev['coverage']
    print('%s %s: paths %s, assertions %s, queries %s, solver %ss, validated %s, complete %s, violations %d, %.1fs' % (prop, tier, c.get('states'), c.get('assertions_checked'), c.get('solver_queries'), c.get('solver_s'), c.get('traces_validated_against_impl'), c.get('exhaustive'), nviol, ev['wall_s']))
    # nothing decided (the code did not compile, or no path could be executed to its end) is not an answer
    sys.exit(1 if nviol else 0 if c.get('states') else 2)

if __name__ == '__main__':
    main()
