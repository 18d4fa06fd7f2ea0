"""Compile witness translation units against /repo's current headers to LLVM IR (never executed), summarise, compare, report."""
import os
import re
import sys
import json
import time
import shutil
import subprocess
import tempfile
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
import llir
import terms
import summ
import compare as cmp

CLANG = shutil.which('clang++-18') or shutil.which('clang++')
BASE_FLAGS = ['-std=c++17', '-DNDEBUG', '-DFLUX_CONTAINER_xtensor', '-I' + REPO + '/include', '-I' + VERIF + '/witness/inc', '-O2', '-w', '-gline-tables-only',
              '-fno-vectorize', '-fno-slp-vectorize', '-fno-discard-value-names', '-fno-math-errno', '-fno-trapping-math', '-ffp-contract=off',
              '-mllvm', '-unroll-threshold=5000', '-mllvm', '-inline-threshold=20000', '-fno-strict-aliasing', '-fno-stack-protector',
              '-ferror-limit=5']


def tu_flags(src):
    fl = list(BASE_FLAGS)
    with open(src) as f:
        for l in f:
            m = re.match(r'//\s*FLAGS:\s*(.*)', l)
            if m:
                for x in m.group(1).split():
                    if x.startswith('pkg:'):
                        fl += subprocess.run(['pkg-config', '--cflags', x[4:]], capture_output=True, text=True).stdout.split()
                    elif x.startswith('!'):
                        fl = [y for y in fl if y != x[1:]]
                    else:
                        fl.append(x.replace('$VERIF', VERIF).replace('$REPO', REPO))
    return fl


def parts(src):
    """a unit with `// PARTS: n` is compiled n times with VP_PART = 0..n-1 (the obligations are divided by #if)"""
    m = re.search(r'^//\s*PARTS:\s*(\d+)', open(src).read(), re.M)
    return [(src, k) for k in range(int(m.group(1)))] if m else [(src, None)]


def compile_tu(sp, outdir):
    src, part = sp
    out = os.path.join(outdir, os.path.basename(src) + ('' if part is None else '.%d' % part) + '.ll')
    t = time.time()
    fl = tu_flags(src) + ([] if part is None else ['-DVP_PART=%d' % part])
    raw = out[:-3] + '.raw.ll'
    r = subprocess.run([CLANG] + fl + ['-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', src, '-o', raw], capture_output=True, text=True)
    if r.returncode == 0:
        drop_text_init(raw)
        opt = [x for x in fl if not x.startswith(('-I', '-D', '-std', '-isystem')) and x != '-fno-access-control']
        r = subprocess.run([CLANG] + [x for i, x in enumerate(opt) if x.startswith('-') or i and opt[i - 1] == '-mllvm'] + ['-x', 'ir', '-S', '-emit-llvm', raw, '-o', out], capture_output=True, text=True)
    if os.path.exists(raw):
        os.remove(raw)
    return out if r.returncode == 0 else None, r.stderr, time.time() - t


def drop_text_init(path):
    """initialisers of command-line objects (CLI11) are emptied: they only slow the optimiser down"""
    with open(path) as f:
        s = f.read()
    o = []
    i = 0
    for m in re.finditer(r'^define internal void @"?__cxx_global_var_init[^\n]*\{\n(.*?)^\}\n', s, re.M | re.S):
        if '@_ZN3CLI' in m.group(1):
            o += [s[i:m.start(1)], 'entry:\n  ret void\n']
            i = m.end(1)
    if o:
        with open(path, 'w') as f:
            f.write(''.join(o) + s[i:])


def samurai_functions(mod, fname):
    """names of /repo functions whose code was inlined in a summarised function (from debug scopes)"""
    src = mod.fn_src.get(fname)
    if not src:
        return set()
    seen = set()
    names = set()
    todo = set(re.findall(r'!dbg (!\d+)', '\n'.join([src[0]] + src[1])))
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        v = mod.meta.get(k, '')
        if 'DISubprogram' in v:
            nm = re.search(r'name: "([^"]*)"', v)
            fl = re.search(r'file: (!\d+)', v)
            ln = re.search(r'line: (\d+)', v)
            if nm and fl:
                f = re.search(r'filename: "([^"]*)"', mod.meta.get(fl.group(1), ''))
                if f and '/samurai/' in f.group(1):
                    names.add('%s (%s:%s)' % (nm.group(1), f.group(1).split('/include/')[-1], ln.group(1) if ln else '?'))
            continue
        for m in re.findall(r'(?:scope|inlinedAt): (!\d+)', v):
            todo.add(m)
    return names


def run_pair(mod, name, kind, opts):
    terms.reset()
    t0 = time.time()
    res = {'name': name, 'kind': kind}
    fi = '@' + name + '__' + kind
    try:
        exI = summ.Exec(mod, ctx='i', max_steps=opts.get('max_steps', 400000))
        exI.run(fi)
        exS = summ.Exec(mod, ctx='s', max_steps=opts.get('max_steps', 400000))
        if kind == 'impl':
            exS.run('@' + name + '__spec')
        else:
            exS.S.ret = terms.T
            exS.S.logs = {}
            exS.S.assume = exI.S.assume
            exI.S.logs = {}
        r = cmp.compare(exI, exS, nsamples=opts.get('samples', 300), seed=opts.get('seed', 1), ignore_traps=(kind == 'true'))
        res.update(status=r.status, detail=r.detail, outputs=r.outputs, cex=r.cex, points=r.samples, instrs=exI.steps,
                   where=[mod.loc(w) for w in r.where if w])
        if r.status in ('agree', 'undecided') and getattr(r, 'open', None):
            lab, x, y, w = r.open[0]
            res['impl'] = lab + ': ' + terms.dstr(x)[:1500]
            res['spec'] = terms.dstr(y)[:1500]
        if r.status == 'refuted':
            res['impl'] = getattr(r, 'impl', None)
            res['spec'] = getattr(r, 'spec', None)
    except summ.Incomplete as e:
        if opts.get('debug'):
            import traceback
            traceback.print_exc()
        res.update(status='undecided', detail='summary incomplete: %s' % e)
    except terms.TooBig as e:
        res.update(status='undecided', detail='summary too large: %s' % e)
    except RecursionError:
        res.update(status='undecided', detail='recursion limit')
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.update(status='undecided', detail='engine: %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if opts.get('debug'):
            traceback.print_exc()
    res['wall'] = round(time.time() - t0, 3)
    res['functions'] = sorted(samurai_functions(mod, fi))
    return res


def list_obligations(text, prefix):
    names = {}
    for m in re.finditer(r'^define [^@\n]*@(\w+)__(impl|true)\(', text, re.M):
        if m.group(1).startswith(prefix):
            names[m.group(1)] = m.group(2)
    return names


def source_obligations(src, prefix):
    """names declared in the witness source (after macro use we only count extern \"C\" definitions spelled out)"""
    t = open(src).read()
    return set(re.findall(r'\b(%s\w*?)__(?:impl|true)\b' % prefix, t))


def _work(job):
    ll, name, kind, opts = job
    mod = _MODS[ll]
    summ.PIN = None
    signal_alarm(opts.get('timeout', 240))
    try:
        r = run_pair(mod, name, kind, opts)
    except TimeoutError:
        r = {'name': name, 'kind': kind, 'status': 'undecided', 'detail': 'time limit', 'functions': [], 'wall': opts.get('timeout', 240)}
    finally:
        signal_alarm(0)
    if r['status'] == 'undecided':
        # no summary for all positions: look for a violation at particular ones (a refutation there refutes the obligation; nothing else is concluded)
        for k in (1, 2, 3):
            pt = cmp.Point(opts.get('seed', 1) * 10 + k, k)
            summ.PIN = lambda nm, t, key, pt=pt: pt.sample(nm, True, t, key)
            signal_alarm(60)
            try:
                q = run_pair(mod, name, kind, opts)
                if q['status'] == 'refuted':
                    q['detail'] = 'at particular positions: %s' % (q.get('detail') or '')
                    q['wall'] += r['wall']
                    return q
            except TimeoutError:
                break
            finally:
                signal_alarm(0)
                summ.PIN = None
    return r


def signal_alarm(n):
    import signal

    def h(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, h)
    signal.alarm(n)


_MODS = {}


def analyse(tus, prefix, opts, only=None):
    """returns (results, compile_failures)"""
    d = tempfile.mkdtemp(prefix='vp_')
    try:
        from concurrent.futures import ThreadPoolExecutor
        fails = []
        lls = []
        with ThreadPoolExecutor(opts.get('jobs', 8)) as ex:
            units = [u for s in tus for u in parts(s)]
            for (src, _), (out, err, t) in zip(units, ex.map(lambda s: compile_tu(s, d), units)):
                if os.environ.get('VP_TIME'):
                    print('compile', os.path.basename(src), _, '%.1fs' % t)
                if out is None:
                    if src not in [f[0] for f in fails]:
                        fails.append((src, err))
                else:
                    lls.append((src, out))
        jobs = []
        for src, out in lls:
            text = open(out).read()
            mod = llir.Module(text)
            _MODS[out] = mod
            for n, k in sorted(list_obligations(text, prefix).items()):
                if only and not re.search(only, n):
                    continue
                jobs.append((out, n, k, opts))
        if not jobs:
            return [], fails
        if opts.get('debug'):
            return [_work(j) for j in jobs], fails
        ctx = mp.get_context('fork')
        with ctx.Pool(min(opts.get('jobs', 8), len(jobs)), maxtasksperchild=4) as pool:
            res = pool.map(_work, jobs, chunksize=1)
        return res, fails
    finally:
        shutil.rmtree(d, ignore_errors=True)
