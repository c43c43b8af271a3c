#!/usr/bin/env python3
"""Systematic small changes of the repository's sources, to find what the checks do not see.

  mutate.py OUT.jsonl [--workers N] [--sample N] [--seed S] [--cov DIR] FILE[=PROP,PROP] ...

Every change is made in a copy of /repo under /tmp; files that the tests compile are built and tested first.  The checks
to run come from the command line or from the coverage dumps of the executor (VP_COV), cheapest first, until one reports
a violation.  One line of OUT.jsonl per change: killed, survived, invalid (does not compile), tests (the tests see it).
"""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = 'src/lib/sup/oac-tree/'
COMPILED = set(re.findall(r'\$\{LIB\}/(\S+\.cpp)', open('/opt/vp/core/CMakeLists.txt').read()))
COMPILEDH = {'named_callback_manager.h', 'scope_guard.h', 'execution_status.h', 'log_severity.h', 'exceptions.h', 'procedure_preamble.h', 'breakpoint.h', 'job_command_queue.h', 'job_commands.h', 'job_state_monitor.h', 'job_states.h', 'i_job_info_io.h', 'instruction_tree.h'}

def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

SWAP = [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('++', '--'),
        ('true', 'false'), ('false', 'true'), ('front()', 'back()'), ('back()', 'front()'), ('push_front', 'push_back'), ('push_back(', 'push_front('), ('begin()', 'end()'), ('::SUCCESS', '::FAILURE'), ('::FAILURE', '::SUCCESS'),
        ('::RUNNING', '::NOT_FINISHED'), ('::NOT_FINISHED', '::RUNNING'), ('::NOT_STARTED', '::NOT_FINISHED'), ('continue;', 'break;'), ('break;', 'continue;'), ('notify_one', 'notify_all'), (' = ', ' += '), ('find_if(', 'find_if_not('), ('any_of', 'all_of'), ('all_of', 'any_of'), ('.empty()', '.size()')]

def mutants(rel):
    lines = open('/repo/' + rel).read().split('\n'); comment = False; depth = 0
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'): comment = True
        if comment:
            if '*/' in s: comment = False
            continue
        if not s or s.startswith(('//', '#', 'namespace', 'using', 'typedef', '*')): continue
        code = l.split('//')[0]
        seen = set()
        def out(new, what):
            if new != l and new not in seen:
                seen.add(new); return [(n + 1, l, new, what)]
            return []
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), code):
                if a in ('true', 'false') and re.search(r'\w$', code[:m.start()]): continue
                if '"' in code and code[:m.start()].count('"') % 2: continue
                yield from out(code[:m.start()] + b + code[m.end():], a + '->' + b)
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', code):
            if code[:m.start()].count('"') % 2: continue
            yield from out(code[:m.start()] + str(int(m[1]) + 1) + code[m.end():], 'number')
        for m in re.finditer(r'(?<![\w!=])!(?=[\w(])', code): yield from out(code[:m.start()] + code[m.end():], 'not')
        m = re.match(r'(\s*(?:else )?(?:if|while) \()(.*)\)\s*$', code)
        if m: yield from out(m[1] + '!(' + m[2] + '))', 'negate')
        if re.match(r'\s+[\w:.\->()\[\]*&]+\s*(\(.*\)|=.*|\+\+|--)?;\s*$', code) and not re.match(r'\s*(return|const|auto|using|static|std::(string|vector|unique_ptr|pair|map|set)|bool|int|size_t|break|continue|throw|virtual|explicit|friend|typename|class|struct)\b', code): yield from out('', 'delete')
        elif re.match(r'\s*(std::)?(lock_guard|unique_lock|scoped_lock)\b.*;', code) or re.match(r'\s*(std::lock_guard).*;', code): yield from out('', 'delete')
        m = re.match(r'(\s*)throw .*;\s*$', code)
        if m: yield from out(m[1] + ';', 'no throw')
        m = re.match(r'(\s*)return;\s*$', code)
        if m: yield from out(m[1] + ';', 'no return')

def hits(cov):
    """file -> line -> properties that execute it"""
    h = {}
    for p in glob.glob(cov + '/C*/*'):
        q = p.split('/')[-2]
        for l in open(p):
            k, f = l.rstrip('\n').split(' ', 1)
            if k == 'H':
                f, n = f.rsplit(':', 1); h.setdefault(f, {}).setdefault(int(n), set()).add(q)
    return h

def main():
    a = sys.argv[1:]; outp = a.pop(0); opt = {'--workers': '4', '--sample': '0', '--seed': '1', '--cov': '', '--jobs': '2', '--max': '4'}; files = []
    while a:
        x = a.pop(0)
        if x in opt: opt[x] = a.pop(0)
        else: files.append(x)
    cost = json.load(open(V + '/tools/design/cost.json')); h = hits(opt['--cov']) if opt['--cov'] else {}
    todo = []
    for f in files:
        f, _, ps = f.partition('='); rel = f if f.startswith('src/') else LIB + f
        for m in mutants(rel):
            props = ps.split(',') if ps else sorted(h.get(rel[4:], {}).get(m[0], ()), key=lambda p: cost.get(p, 99))[:int(opt['--max'])]
            todo.append((rel, m, props))
    if int(opt['--sample']): random.Random(int(opt['--seed'])).shuffle(todo); todo = todo[:int(opt['--sample'])]
    done = set()
    if os.path.exists(outp):
        for l in open(outp): d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    todo = [t for t in todo if (t[0], t[1][0], t[1][2]) not in done]
    print(len(todo), 'changes', flush=True); lock = threading.Lock(); local = threading.local()
    tops = []
    def work(t):
        rel, (n, old, new, what), props = t
        if not hasattr(local, 'R'):
            local.top = tempfile.mkdtemp(prefix='mut_'); local.R = local.top + '/repo'; tops.append(local.top)
            sh(f'cp -a /repo {local.R} && git -C {local.R} checkout -q -- . && rm -rf {local.R}/_build')
        R = local.R; p = R + '/' + rel; text = open('/repo/' + rel).read(); ls = text.split('\n')
        if ls[n - 1] != old: return
        ls[n - 1] = new; open(p, 'w').write('\n'.join(ls)); r = dict(file=rel, line=n, old=old.strip(), new=new, what=what, props=props); verdict = 'survived'
        try:
            base = rel.replace(LIB, '')
            if base in COMPILED or os.path.basename(rel) in COMPILEDH:
                x = sh(f'cd {local.top} && (test -f {R}/_build/build.ninja || CC=gcc CXX=g++ cmake -S /opt/vp/core -B {R}/_build -G Ninja -DREPO={R} -DCMAKE_BUILD_TYPE=RelWithDebInfo) && ninja -j2 -C {R}/_build all', timeout=300)
                if x.returncode: verdict = 'invalid'
                else:
                    x = sh(f'ctest --test-dir {R}/_build -j4 --timeout 30', timeout=300)
                    if x.returncode: verdict = 'tests'
            else:
                x = sh(f'clang++ -std=c++17 -fsyntax-only -w -I{V}/shims -I{R}/src/lib -I{R}/{LIB} -I{R}/src/app -x c++ {p}')
                if x.returncode: verdict = 'invalid'
            if verdict == 'survived':
                if not props: verdict = 'uncovered'
                env = dict(os.environ, VP_REPO=R, VP_JOBS=opt['--jobs'], VP_FIRST='1', VP_OUT=local.top, VP_CACHE=local.top + '/cache', VP_SX='/tmp/w/sx')
                for q in props:
                    # C18 has a known finding, which would count as the first violation
                    x = sh(f'timeout 900 python3 {V}/driver/check.py {q}', env={k: v for k, v in env.items() if q != 'C18' or k != 'VP_FIRST'})
                    if x.returncode == 1: verdict = 'killed'; r['by'] = q; break
                    if x.returncode != 0: verdict = 'noanswer'; r['by'] = q; r['out'] = x.stdout[-600:]; break
                    if 'NOTE' in x.stdout: r['note'] = [l[:300] for l in x.stdout.splitlines() if l.startswith('NOTE')][:3]
        finally: open(p, 'w').write(text)
        r['verdict'] = verdict
        with lock: open(outp, 'a').write(json.dumps(r) + '\n')
    with cf.ThreadPoolExecutor(int(opt['--workers'])) as ex: list(ex.map(work, todo))
    for t in tops: shutil.rmtree(t, ignore_errors=True)
if __name__ == "__main__": main()
