#!/usr/bin/env python3
"""Runner: extract the functions of /repo to C, discharge every obligation of a property with CBMC, replay
counterexamples against the real g++ objects, and write the evidence file.

usage: vc.py run <ID> [--only OB]      (VERIF_TIER, VERIF_SEED from the environment)
       vc.py list
"""
import concurrent.futures as cf
import hashlib, importlib.util, json, os, pickle, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import cxx2c

NCPU = os.cpu_count() or 4
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

CHECKS = {
    'mem': ['--bounds-check', '--pointer-check'],
    'none': [],
    'int': ['--signed-overflow-check', '--div-by-zero-check'],
}
TRUSTED = [
    'clang 18 AST + /verif/tools/cxx2c.py (mechanical C++ to C extraction of the current source; drops only terminal output, virtual dispatch and automatic destructors, see its header)',
    'CBMC 6.11 (symbolic execution, memory model, built-in libc bodies) and the SAT back end named per obligation',
    'machine integers are bit-precise (two\'s complement, LP64); signed overflow and shift wrap as gcc does unless an obligation checks it',
]


def sh(cmd, timeout=None, cwd=None, env=None, inp=None):
    """returns (rc, out, err); rc None on timeout. The whole process group is ended on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    with PROCS_LOCK:
        PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, '', 'timeout'
    finally:
        with PROCS_LOCK:
            PROCS.discard(p)


PROCS = set()
PROCS_LOCK = threading.Lock()


def file_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tree_files(d, exts):
    r = []
    for a, ds, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(a, f))
    return r


def repo_sources():
    return [p for p in tree_files(os.path.join(REPO, 'src'), ('.cpp', '.c', '.h')) + tree_files(os.path.join(REPO, 'include'), ('.h', '.hpp'))
            if '/tests/' not in p]


def load_unit(files):
    os.makedirs(CACHE, exist_ok=True)
    key = file_hash(repo_sources() + tree_files(os.path.join(VERIF, 'stubs'), ('',)) + [os.path.join(HERE, 'cxx2c.py')], ','.join(files))
    fn = os.path.join(CACHE, 'unit-%s.pkl' % key)
    if os.path.exists(fn):
        try:
            with open(fn, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    U = cxx2c.load_all(REPO, files)
    try:
        with open(fn + '.%d' % os.getpid(), 'wb') as f:
            pickle.dump(U, f, protocol=4)
        os.rename(fn + '.%d' % os.getpid(), fn)
        prune('unit-', 24)
    except Exception as e:
        print('note: unit cache not written:', e, file=sys.stderr)
    return U


def prune(prefix, keep):
    fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith(prefix)), key=os.path.getmtime)
    for f in fs[:-keep]:
        try:
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
        except OSError:
            pass


# ------------------------------------------------------------------------------------------------ native objects
SAN = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'], 'plain': []}


def native_objects(san='asan'):
    """objects of the real /repo sources, local functions made visible to the linker"""
    os.makedirs(CACHE, exist_ok=True)
    srcs = [p for p in repo_sources() if p.endswith(('.cpp', '.c'))]
    key = file_hash(repo_sources(), san + 'v4')
    d = os.path.join(CACHE, 'obj-' + key)
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    tmp = d + '.%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)

    def one(s):
        o = os.path.join(tmp, os.path.basename(s) + '.o')
        cpp = s.endswith('.cpp')
        cmd = (['g++', '-std=gnu++17'] if cpp else ['gcc']) + ['-g', '-O1', '-fPIC', '-w', '-DBIN_WRITE_PLUGIN', '-fno-access-control' if cpp else '-g',
               '-fno-inline', '-fno-ipa-cp', '-fno-ipa-sra', '-fno-ipa-icf', '-I' + os.path.join(REPO, 'include'), '-I/usr/include/libxml2', *SAN[san], '-c', s, '-o', o]
        rc, out, err = sh(cmd, timeout=300)
        if rc != 0:
            return 'g++ %s: %s' % (s, err[:800])
        rc, out, err = sh(['nm', o])
        loc = [l.split()[2] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] == 't' and l.split()[2].startswith(('_Z', 'jsmn'))
               and '.' not in l.split()[2] and 'GLOBAL__' not in l and 'static_init' not in l]
        if loc:
            sh(['objcopy'] + ['--globalize-symbol=' + x for x in loc] + ['--weaken-symbol=' + x for x in loc] + [o])
        return None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, srcs) if e]
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError(errs[0])
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    prune('obj-', 6)
    return d


class Ob:
    def __init__(self, name, **k):
        self.name = name
        self.harness = k.pop('harness', name)
        self.fns = k.pop('fns', [])              # functions whose contract this obligation checks
        self.unwind = k.pop('unwind', 2)
        self.unwindset = k.pop('unwindset', [])  # ['loop:n']
        self.checks = k.pop('checks', 'mem')
        self.solver = k.pop('solver', 'cadical')
        self.timeout = k.pop('timeout', 300)
        self.defs = k.pop('defs', [])
        self.enforce = k.pop('enforce', [])
        self.replace = k.pop('replace', [])
        self.loops = k.pop('loops', False)       # apply loop contracts
        self.tier = k.pop('tier', 'quick')
        self.bounded = k.pop('bounded', None)    # text of the bound; then not counted as proved
        self.flags = k.pop('flags', [])
        self.native = k.pop('native', True)      # the harness makes sense natively
        self.says = k.pop('says', '')
        self.weight = k.pop('weight', 1)
        self.pre_unwind = k.pop('pre_unwind', {}) # function -> bound for its loops without a contract
        self.opaque = k.pop('opaque', [])        # functions left without body (only for replaced contracts)
        assert not k, k


class Prop:
    def __init__(self, id, title, files, harness, roots, obs, **k):
        self.id = id
        self.title = title
        self.files = files
        self.harness = harness
        self.roots = roots
        self.obs = obs
        self.contracts = k.pop('contracts', {})
        self.opaque = k.pop('opaque', [])
        self.level = k.pop('level', 'proof')
        self.native = k.pop('native', {})        # harness -> seconds (quick)
        self.assumptions = k.pop('assumptions', [])
        self.trusted = k.pop('trusted', [])
        self.known = k.pop('known', None)
        self.allow_ext = set(k.pop('allow_ext', []))
        self.native_only = k.pop('native_only', {})
        self.extra_c = k.pop('extra_c', [])
        self.cflags = k.pop('cflags', [])
        self.unverified = k.pop('unverified', [])
        self.native_budget = k.pop('native_budget', None)
        self.needs_u = k.pop('needs_u', True)
        assert not k, k


class Run:
    def __init__(self, P, only=None):
        self.P = P
        self.only = only
        self.tmp = tempfile.mkdtemp(prefix='vc-%s-' % P.id)
        self.notes = []
        self.viol = []
        self.results = {}
        self.stats = {}

    def note(self, s):
        self.notes.append(s)
        print('note:', s)
        sys.stdout.flush()

    # -------------------------------------------------------------------------------- extraction
    def extract(self):
        P = self.P
        self.U = load_unit(P.files)
        self.E = cxx2c.Emit(self.U, P.contracts)
        self.E.program(P.roots, P.opaque)
        bad = {k: v for k, v in self.E.unsupported.items()}
        if bad:
            raise cxx2c.Unsupported('constructs outside the extraction subset: ' + '; '.join('%s: %s' % x for x in bad.items()))
        ext = set(self.E.ext_funcs) - set(P.opaque) - P.allow_ext
        if ext:
            raise cxx2c.Unsupported('functions without a body: ' + ', '.join(sorted(ext)))
        models = open(os.path.join(HERE, 'cmodels.c')).read()
        hs = os.path.join(VERIF, 'harness', P.harness)
        self.ctext = '#define VH_CBMC 1\n' + self.E.header + '#include "vh.h"\n#include "cpre.h"\n' + self.E.bodies + '#include "cmodels.c"\n#line 1 "%s"\n#include "%s"\n' % (hs, hs)
        self.cfile = os.path.join(self.tmp, P.id + '.c')
        open(self.cfile, 'w').write(self.ctext)

    def compile_gb(self, defs):
        key = '-'.join(sorted(defs)).replace('=', '_').replace('/', '_') or 'base'
        gb = os.path.join(self.tmp, re.sub(r'\W', '_', key) + '.gb')
        with self.gblock:
            if gb in self.gbs:
                return self.gbs[gb]
            rc, o, e = sh(['goto-cc', '-std=gnu11', '-D__CPROVER__', '-D__NO_CTYPE', '-I' + HERE, '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
                           *self.P.cflags, *['-D' + d for d in defs], self.cfile, '-o', gb], timeout=300)
            self.gbs[gb] = (gb, None) if rc == 0 else (None, 'goto-cc: ' + (e or o)[-1500:])
            return self.gbs[gb]

    gblock = threading.Lock()

    def contract_lines(self, f):
        con = self.P.contracts.get(f, {}).get('loops', {})
        return [l['line'] for i, l in enumerate(self.E.loops.get(f, []), 1) if i in con]

    # -------------------------------------------------------------------------------- one obligation
    def solve(self, ob, unwind_add=0, extra=()):
        """returns dict(status= proved|failed|timeout|error|vacuous|bound, ...)"""
        gb, err = self.compile_gb(ob.defs)
        if err:
            return dict(status='error', why=err)
        if ob.enforce or ob.replace or ob.loops:
            out = os.path.join(self.tmp, 'dfcc-%s-%d.gb' % (ob.name, unwind_add))
            cmd = ['goto-instrument', '--dfcc', 'h_' + ob.harness]
            for f in ob.enforce:
                cmd += ['--enforce-contract', f]
            for f in ob.replace:
                cmd += ['--replace-call-with-contract', f]
            if ob.loops:
                cmd += ['--apply-loop-contracts']
            start = out[:-3] + '-start.gb'
            rc, o, e = sh(['goto-cc', '--function', 'h_' + ob.harness, gb, '-o', start], timeout=300)
            if rc != 0:
                return dict(status='error', why='goto-cc: ' + (o + e)[-400:])
            if ob.pre_unwind:
                # loops without a contract inside contracted ones: unwound (with unwinding assertions) before the instrumentation
                rc, o, e = sh(['goto-instrument', '--show-loops', start], timeout=60)
                us = []
                for m in re.finditer(r'Loop (\w+)\.(\d+):\s*\n\s*file \S+ line (\d+)', o):
                    if m.group(1) in ob.pre_unwind and int(m.group(3)) not in self.contract_lines(m.group(1)):
                        us.append('%s.%s:%d' % (m.group(1), m.group(2), ob.pre_unwind[m.group(1)] + unwind_add))
                if us:
                    u = out[:-3] + '-u.gb'
                    rc, o, e = sh(['goto-instrument', '--unwindset', ','.join(us), '--unwinding-assertions', start, u], timeout=60)
                    if rc != 0:
                        return dict(status='error', why='goto-instrument: ' + (o + e)[-400:])
                    start = u
            rc, o, e = sh(cmd + [start, out], timeout=300)
            if rc != 0:
                return dict(status='error', why='goto-instrument: ' + (o + e)[-400:])
            gb = out
        cmd = ['cbmc', gb, '--function', 'h_' + ob.harness, '--json-ui', '--no-standard-checks', '--unwinding-assertions',
               '--unwind', str(ob.unwind + unwind_add), '--drop-unused-functions', '--no-malloc-may-fail', '--slice-formula']
        if ob.enforce or ob.replace or ob.loops:
            cmd = [c for c in cmd if c not in ('--function', 'h_' + ob.harness)] + ['--function', 'h_' + ob.harness]
        for c in ob.checks.split('+'):
            cmd += CHECKS[c]
        if ob.unwindset:
            cmd += ['--unwindset', ','.join('%s:%d' % (l.rsplit(':', 1)[0], int(l.rsplit(':', 1)[1]) + unwind_add) for l in ob.unwindset)]
        solver = ob.solver
        env = None
        if solver == 'cvc5int':
            env = dict(os.environ, PATH=os.path.join(HERE, 'intbv') + ':' + os.environ['PATH'])
        if solver == 'kissat' and not shutil.which('kissat'):
            solver = 'cadical'
        cmd += {'cadical': ['--sat-solver', 'cadical'], 'minisat': [], 'kissat': ['--external-sat-solver', 'kissat'],
                'z3': ['--z3'], 'cvc5': ['--cvc5'], 'cvc5int': ['--cvc5']}[solver]
        cmd += ob.flags
        t = time.time()
        rc, o, e = sh(cmd + list(extra), timeout=ob.timeout * (4 if TIER == 'thorough' else 1), env=env)
        dt = time.time() - t
        base = dict(cmd=' '.join(cmd).replace(self.tmp + '/', ''), solver=solver, time=dt)
        if rc is None:
            return dict(base, status='timeout')
        try:
            js = json.loads(o)
        except Exception:
            return dict(base, status='error', why='cbmc output not understood: ' + (o + e)[-800:])
        res = None
        msgs = []
        st = None
        for x in js:
            if 'result' in x:
                res = x['result']
            if 'messageText' in x:
                msgs.append(x['messageText'])
            if 'solver' in str(x.get('messageText', '')) and 'Runtime' in x['messageText']:
                m = re.search(r'Runtime (?:Solver|decision procedure): ([\d.e-]+)s', x['messageText'])
                if m:
                    st = float(m.group(1))
        nobody = sorted(set(m.group(1) for x in msgs for m in [re.search(r'no body for (?:function|callee) [\'`]?(\w+)', x)] if m) - {'__VERIFIER_nondet_u64'})
        base['solver_time'] = st if st is not None else dt
        base['nobody'] = nobody
        if res is None:
            return dict(base, status='error', why='no result: ' + ' | '.join(msgs)[-800:])
        reach = [r for r in res if r['description'] == 'REACH']
        rest = [r for r in res if r['description'] != 'REACH']
        base['obligations'] = len(rest)
        base['discharged'] = sum(r['status'] == 'SUCCESS' for r in rest)
        failed = [r for r in rest if r['status'] != 'SUCCESS']
        base['names'] = [r['property'] + ': ' + r['description'] for r in rest if r['description'].startswith('CHECK ') or 'postcondition' in r['property'] or 'contract' in r['description']]
        unw = [r for r in failed if 'unwind' in r['property'] or 'unwinding assertion' in r['description'] or 'recursion' in r['property']]
        if failed:
            hard = [r for r in failed if r not in unw]
            base['failed'] = [dict(property=r['property'], description=r['description'], where=r.get('sourceLocation', {})) for r in failed]
            if hard:
                return dict(base, status='failed', hard=[r['property'] for r in hard])
            return dict(base, status='bound')
        bad = [n for n in nobody if n not in self.P.allow_ext]
        if not rest or not reach or any(r['status'] == 'SUCCESS' for r in reach):
            return dict(base, status='vacuous', why='%d obligations, reachable end: %s' % (len(rest), [r['status'] for r in reach]))
        if bad:
            return dict(base, status='error', why='functions without body or model: ' + ', '.join(bad))
        return dict(base, status='proved')

    def trace(self, ob, r, prop, unwind_add=0):
        """inputs of the counterexample for one failed obligation"""
        q = self.solve_raw(ob, unwind_add, ['--trace', '--property', prop])
        if not q:
            return None
        vals = []
        for x in q:
            for rr in x.get('result', []) if isinstance(x, dict) else []:
                if rr.get('status') == 'FAILURE' and rr.get('trace'):
                    for s in rr['trace']:
                        if s.get('stepType') == 'input' and s.get('inputID') == 'vh_in':
                            v = s['values'][0]
                            b = v.get('binary')
                            vals.append(int(b, 2) if b else int(re.sub(r'[uUlL]+$', '', v['data'])))
                    return vals
        return None

    def solve_raw(self, ob, unwind_add, extra):
        self._raw = None
        gb = self.compile_gb(ob.defs)[0]
        if ob.enforce or ob.replace or ob.loops:
            gb = os.path.join(self.tmp, 'dfcc-%s-%d.gb' % (ob.name, unwind_add))
        cmd = ['cbmc', gb, '--function', 'h_' + ob.harness, '--json-ui', '--no-standard-checks', '--unwinding-assertions',
               '--unwind', str(ob.unwind + unwind_add), '--drop-unused-functions', '--no-malloc-may-fail']
        for c in ob.checks.split('+'):
            cmd += CHECKS[c]
        if ob.unwindset:
            cmd += ['--unwindset', ','.join('%s:%d' % (l.rsplit(':', 1)[0], int(l.rsplit(':', 1)[1]) + unwind_add) for l in ob.unwindset)]
        cmd += {'cadical': ['--sat-solver', 'cadical'], 'minisat': [], 'kissat': ['--sat-solver', 'cadical'], 'z3': ['--z3'], 'cvc5': ['--cvc5'], 'cvc5int': ['--cvc5']}[ob.solver]
        rc, o, e = sh(cmd + ob.flags + list(extra), timeout=ob.timeout)
        try:
            return json.loads(o)
        except Exception:
            return None

    # -------------------------------------------------------------------------------- native
    def build_native(self):
        P = self.P
        if hasattr(self, 'nbin'):
            return self.nbin
        self.nbin = None
        try:
            d = native_objects('asan')
        except RuntimeError as e:
            self.note('native objects not built: %s' % e)
            return None
        hs = os.path.join(VERIF, 'harness', P.harness)
        hdr = self.E.native_header if getattr(self, 'E', None) and hasattr(self.E, 'native_header') else None
        if hdr is None:
            return None
        nf = os.path.join(self.tmp, 'native.c')
        open(nf, 'w').write(hdr + '#include "vh.h"\n#include "%s"\n' % hs)
        out = os.path.join(self.tmp, 'native')
        objs = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.o')]
        o1, o2 = os.path.join(self.tmp, 'n1.o'), os.path.join(self.tmp, 'n2.o')
        inc = ['-I' + HERE, '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I/usr/include/libxml2']
        for src, o in ((nf, o1), (os.path.join(HERE, 'vhmain.c'), o2)):
            rc, so, e = sh(['gcc', '-std=gnu11', '-g', '-O1', '-w', '-fno-builtin', *SAN['asan'], *inc, *P.cflags, '-c', src, '-o', o], timeout=300)
            if rc != 0:
                self.note('native harness does not compile: ' + e[-800:])
                return None
        rc, so, e = sh(['g++', *SAN['asan'], o1, o2, *objs, '-lexpat', '-lxml2', '-o', out], timeout=300)
        if rc != 0:
            self.note('native harness does not link: ' + e[-1200:])
            return None
        self.nbin = out
        return out

    def native(self, harness, sec, seed, replay=None, maxn=None):
        b = self.build_native()
        if not b:
            return None
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=512:handle_segv=1:symbolize=0', TZ='UTC')
        wd = tempfile.mkdtemp(dir=self.tmp)
        out = os.path.join(wd, 'tape')
        if replay:
            rc, o, e = sh([b, '--replay', replay, '--out', out], timeout=60, env=env, cwd=wd)
        else:
            cmd = [b, '--run', harness, '--seed', str(seed), '--sec', str(sec), '--out', out]
            if maxn:
                cmd += ['--max', str(maxn)]
            rc, o, e = sh(cmd, timeout=sec + 90, env=env, cwd=wd)
        m = re.search(r'iters=(\d+)(?: reached=(\d+) assumed_out=(\d+))?', o)
        r = dict(rc=rc, out=o.strip(), iters=int(m.group(1)) if m else 0, reached=int(m.group(2) or 0) if m else 0)
        if rc == 3 and os.path.exists(out):
            r['tape'] = open(out).read()
        return r

    # -------------------------------------------------------------------------------- verdicts
    def violation(self, name, text, found):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s-%s.txt' % (self.P.id, re.sub(r'\W+', '_', name)))
        open(fn, 'w').write(text)
        self.viol.append((name, fn, found))

    def do_ob(self, ob):
        t = time.time()
        r = self.solve(ob)
        add = 0
        if r['status'] == 'bound':
            for add in (8, 24):
                r = self.solve(ob, add)
                if r['status'] != 'bound':
                    break
        if r['status'] in ('timeout', 'error') and ob.solver != 'cadical' and r['status'] == 'timeout' and TIER == 'thorough':
            ob.solver = 'cadical'
            r = self.solve(ob)
        r['unwind_add'] = add
        r['wall'] = time.time() - t
        self.results[ob.name] = r
        if r['status'] == 'failed':
            self.explain(ob, r, add)
        return ob, r

    def explain(self, ob, r, add):
        """replay the counterexample on the real code"""
        desc = '; '.join('%s (%s) at %s:%s' % (f['property'], f['description'], f['where'].get('file', '?'), f['where'].get('line', '?')) for f in r['failed'][:6])
        head = 'property %s\nobligation %s\nharness %s (%s)\nfailed %s\nverifier %s\n' % (self.P.id, ob.name, ob.harness, self.P.harness, desc, r['cmd'])
        vals = None
        soft = all(f['description'].startswith('CHECK shape') or re.search(r'loop_invariant|loop_step|loop_decreases|loop_assigns|assigns|decreases', f['property']) and not f['description'].startswith('CHECK') for f in r['failed'] if f['property'] in r['hard'])
        for prop in sorted(r['hard'], key=lambda p: 0 if [f for f in r['failed'] if f['property'] == p and f['description'].startswith('CHECK')] else 1)[:3]:
            vals = self.trace(ob, r, prop, add)
            if vals is None:
                continue
            fn = os.path.join(self.tmp, 'cex-%s-%s' % (ob.name, re.sub(r'\W', '_', prop)))
            body = 'harness %s\nwhy verifier counterexample for %s\n' % (ob.harness, prop) + ''.join('in %d\n' % v for v in vals)
            open(fn, 'w').write(body)
            if ob.native:
                n = self.native(ob.harness, 0, 0, replay=fn)
                if n and n['rc'] == 3:
                    r['replayed'] = n['out']
                    self.violation(ob.name, head + 'replay on the real code: %s\n' % n['out'] + body, True)
                    return
        # not reproduced: search near it
        if ob.native:
            n = self.native(ob.harness, 20, SEED + 7)
            if n and n['rc'] == 3:
                r['replayed'] = n['out']
                self.violation(ob.name, head + 'seeded search on the real code: %s\n' % n['out'] + n.get('tape', ''), True)
                return
        r['unreplayed'] = True
        if soft and not ob.bounded:
            # only the annotation failed (a loop invariant no longer fits the loop, or the text is no longer produced
            # by the directives the model logs): undecided, not a violation
            r['status'] = 'annotation'
            return
        self.violation(ob.name, head + 'no input on the real code was found for this failure\n' + (''.join('in %d\n' % v for v in vals) if vals else ''), False)

    def run(self):
        P = self.P
        obs = [o for o in P.obs if (o.tier == 'quick' or TIER == 'thorough') and (not self.only or o.name in self.only)]
        self.gbs = {}
        broken = None
        try:
            if P.needs_u:
                self.extract()
        except cxx2c.Unsupported as e:
            broken = str(e)
        except Exception as e:
            broken = '%s: %s' % (type(e).__name__, e)
        nat = []
        if broken:
            self.note('extraction: ' + broken[:600])
            if getattr(self, 'E', None) is None or not hasattr(self.E, 'native_header'):
                self.E = None
        hs = dict(P.native)
        for o in P.obs:
            if o.native and o.harness not in hs and not o.tier == 'never':
                hs[o.harness] = 2
        if self.only:
            hs = {h: s for h, s in hs.items() if any(o.harness == h for o in obs)} or hs
        mult = 10 if TIER == 'thorough' else 1
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = []
            nf = {}
            order = sorted(obs, key=lambda o: -o.weight)
            self.build_native()
            if not broken:
                futs = [ex.submit(self.do_ob, o) for o in order]
            for h, s in hs.items():
                nf[h] = ex.submit(self.native, h, s * mult, SEED)
            for f in futs:
                o, r = f.result()
                print('%-28s %-9s %4d/%-4d %6.1fs %s' % (o.name, r['status'], r.get('discharged', 0), r.get('obligations', 0), r['wall'], (r.get('why') or '')[:300].replace('\n', ' ')))
                if r['status'] in ('failed', 'annotation', 'bound'):
                    for x in r.get('failed', [])[:8]:
                        print('     ', x['property'], x['description'], x['where'].get('line'))
                    if r.get('replayed'):
                        print('      real code:', r['replayed'])
                sys.stdout.flush()
            for h, f in nf.items():
                n = f.result()
                if n is None:
                    continue
                self.stats[h] = n
                if n['rc'] == 3:
                    self.violation('search_' + h, 'property %s\nharness %s (%s)\nseeded search on the real code: %s\n%s' % (P.id, h, P.harness, n['out'], n.get('tape', '')), True)
                elif n['rc'] != 0:
                    self.note('native %s: rc=%s %s' % (h, n['rc'], n['out'][-300:]))
                elif n['reached'] == 0:
                    self.note('native %s never reached the end of the harness (%s)' % (h, n['out']))
        # undecided obligations fall back to a longer bounded search on the real code
        und = [o for o in obs if self.results.get(o.name, {}).get('status') not in ('proved', 'failed')] if not broken else obs
        fb = sorted(set(o.harness for o in und if o.native) - set(h for h in self.stats if self.stats[h]['rc'] == 3))
        if fb and not any(v[2] for v in self.viol):
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for h, n in zip(fb, ex.map(lambda h: self.native(h, 25, SEED + 1), fb)):
                    if n and n['rc'] == 3:
                        self.violation('search_' + h, 'property %s\nharness %s (%s)\nbounded search on the real code: %s\n%s' % (P.id, h, P.harness, n['out'], n.get('tape', '')), True)
                    elif n:
                        self.stats[h + '#fallback'] = n
        self.finish(obs, broken)

    def finish(self, obs, broken):
        P = self.P
        R = self.results
        proved = [o for o in obs if R.get(o.name, {}).get('status') == 'proved' and not o.bounded]
        bounded = [o for o in obs if R.get(o.name, {}).get('status') == 'proved' and o.bounded]
        und = [o for o in obs if o not in proved and o not in bounded and R.get(o.name, {}).get('status') != 'failed']
        fns = sorted(set(f for o in proved for f in o.fns))
        cov = dict(
            obligations=sum(R[o.name].get('obligations', 0) for o in obs if o.name in R and not o.bounded),
            discharged=sum(R[o.name].get('discharged', 0) for o in proved),
            checker_cmd=(R[proved[0].name]['cmd'] if proved else 'cbmc (not run: %s)' % (broken or 'nothing proved')),
            trusted_base=TRUSTED + P.trusted,
            functions_under_contract=fns,
            functions_extracted=len(getattr(getattr(self, 'E', None), 'emitted', []) or []),
            dropped_terminal_output_statements=sum((getattr(getattr(self, 'E', None), 'dropped', {}) or {}).values()),
            proof_units=[dict(name=o.name, status=R.get(o.name, {}).get('status', 'not run'), says=o.says, functions=o.fns, obligations=R.get(o.name, {}).get('obligations', 0),
                              discharged=R.get(o.name, {}).get('discharged', 0), back_end=R.get(o.name, {}).get('solver'), enforced=o.enforce, replaced=o.replace,
                              solver_s=round(R.get(o.name, {}).get('solver_time') or 0, 2), wall_s=round(R.get(o.name, {}).get('wall', 0), 2),
                              unwind=o.unwind, bounded=o.bounded, named=R.get(o.name, {}).get('names', [])[:40]) for o in obs],
            solver_s=round(sum(R[o.name].get('solver_time') or 0 for o in obs if o.name in R), 1),
            bounded_standins=[dict(name=o.name, bound=o.bounded, functions=o.fns) for o in bounded],
            undecided=[dict(name=o.name, status=R.get(o.name, {}).get('status', 'not run'), why=(R.get(o.name, {}).get('why') or '')[:300]) for o in und],
            extraction_failed=broken,
            native_replays={h: dict(iterations=n['iters'], complete=n['reached']) for h, n in self.stats.items()},
            evaluations=sum(n['iters'] for n in self.stats.values()),
            not_under_contract=P.unverified,
            notes=self.notes[:20],
        )
        lvl = P.level
        ev = dict(property=P.id, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=lvl, coverage=cov,
                  assumptions=P.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        fn = os.path.join(VERIF, 'evidence', P.id + '.json')
        if not self.only:
            with open(fn, 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s: %d proof units, %d proved, %d bounded, %d undecided; %d/%d obligations; %d native runs; %.1fs' % (
            P.id, len(obs), len(proved), len(bounded), len(und), cov['discharged'], cov['obligations'], cov['evaluations'], time.time() - T0))

    def verdict(self):
        known = load_known(self.P.id)
        rc = 0
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.P.id, k))
        for name, fn, found in sorted(self.viol, key=lambda v: not v[2])[:6]:
            print('VIOLATION property=%s replay=%s%s' % (self.P.id, fn, '' if found else ' no-failing-input-found'))
            rc = 1
            if found:
                break
        return rc


def load_known(pid):
    r = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'finding: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == pid:
                r.append(m.group(2))
    return r


def load_prop(pid):
    fn = os.path.join(VERIF, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + pid, fn)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.P


if __name__ == '__main__':
    sys.modules['vc'] = sys.modules['__main__']
    if sys.argv[1] == 'setup':
        # nothing has to be built: every check extracts and builds from /repo; make the shared native objects once
        try:
            native_objects('asan')
        except Exception as e:
            print('note:', e)
        sys.exit(0)
    if sys.argv[1] == 'list':
        print(' '.join(sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'props')) if f.endswith('.py'))))
        sys.exit(0)
    import signal

    def term(*a):
        for p in list(PROCS):
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        if 'R' in globals():
            shutil.rmtree(R.tmp, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, term)
    signal.signal(signal.SIGINT, term)
    P = load_prop(sys.argv[2])
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    R = Run(P, only)
    try:
        try:
            R.run()
            rc = R.verdict()
        except Exception as e:
            import traceback
            traceback.print_exc()
            print('note: the runner failed (%s); nothing was decided' % e)
            rc = 1 if any(v[2] for v in R.viol) and R.verdict() else 2
    finally:
        if '--keep' in sys.argv:
            print('kept', R.tmp)
        else:
            shutil.rmtree(R.tmp, ignore_errors=True)
    sys.exit(rc)
