#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the real code (see DESIGN.md).

  check.py <property> [--tier quick|thorough] [--only REGEX] [--list] [--keep]
  check.py --replay FILE      re-runs a reported counterexample against the real build
"""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SYMX = os.path.join(BUILD, 'engine', 'symx')
CLANG = '/usr/bin/clang++-18'
GXX = 'g++'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
COMMON = ['-std=c++20', '-include', 'cstdint', '-I' + REPO + '/include', '-I' + VERIF + '/harness']
SAN = ['-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bool,return,unreachable,null,bounds',
       '-fsanitize-trap=all']
IRF = ['-O1', '-g1', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
       '-fno-threadsafe-statics', '-D_GLIBCXX_ASSERTIONS', '-w', '-fno-builtin-memchr', '-c', '-emit-llvm']
GUARD = ['-DLOGIC_VERIF']
sys.path.insert(0, VERIF)


class Case:
    """One harness: impl calls the library, spec states what must come out."""
    def __init__(self, name, impl, spec, pre='', spec_pre='', timeout=None, total=None, unwind=None,
                 split=False, group=None, impl_flags=(), known=None, vectors=True):
        self.name, self.impl, self.spec, self.pre, self.spec_pre = name, impl, spec, pre, spec_pre
        self.timeout, self.total, self.unwind, self.split = timeout, total, unwind, split
        self.group, self.impl_flags, self.known, self.vectors = group, tuple(impl_flags), known, vectors


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b'') + b'\ntimeout')


def write(path, text):
    with open(path, 'w') as f:
        f.write(text)


def first_error(t):
    ls = t.splitlines()
    e = [x for x in ls if ' error: ' in x] or ls[-3:]
    n = [x for x in ls if '_impl.cc' in x or '_spec.cc' in x]
    return (e[0] + ' | ' + ' '.join(n[:1]))[:600]


class Chunk:
    def __init__(self, idx, cases, wd):
        self.idx, self.cases, self.wd = idx, cases, wd
        self.base = os.path.join(wd, 'c%d' % idx)
        self.flags = list(cases[0].impl_flags)
        self.native = {}
        self.error = None
        self.lock = threading.Lock()

    def sources(self):
        imp = ['#include "impl.hh"', 'using namespace vh;', 'namespace L = ::logic;']
        spc = ['#include "spec.hh"']
        pres, spres = [], []
        for c in self.cases:
            if c.pre and c.pre not in pres:
                pres.append(c.pre)
            if c.spec_pre and c.spec_pre not in spres:
                spres.append(c.spec_pre)
        imp += pres
        spc += spres
        for c in self.cases:
            imp.append('extern "C" void f_%s(const u64* p, u64* o) {\n%s\n(void)p; (void)o; }' % (c.name, c.impl))
            spc.append('extern "C" void f_%s(const u64* p, u64* o);' % c.name)
            spc.append('extern "C" void t_%s() { In in; Out o;\n#define RUN f_%s(in.buf, o.buf)\n%s\n#undef RUN\n}'
                       % (c.name, c.name, c.spec))
        write(self.base + '_impl.cc', '\n'.join(imp) + '\n')
        write(self.base + '_spec.cc', '\n'.join(spc) + '\n')

    def mods(self):
        return [self.base + '_spec.bc', self.base + '_impl.bc']

    def compile_ir(self):
        self.sources()
        r = sh([CLANG] + COMMON + GUARD + SAN + IRF + self.flags + [self.base + '_impl.cc', '-o', self.base + '_impl.bc'])
        if r.returncode:
            self.error = 'impl: ' + first_error(r.stdout.decode(errors='replace'))
            return self
        r = sh([CLANG] + COMMON + IRF + [self.base + '_spec.cc', '-o', self.base + '_spec.bc'])
        if r.returncode:
            self.error = 'spec: ' + first_error(r.stdout.decode(errors='replace'))
        return self

    def build_native(self, mode):
        """mode: plain (g++ as the project builds), san (UBSan+ASan)"""
        with self.lock:
            return self.build_native_(mode)

    def build_native_(self, mode):
        if mode in self.native:
            return self.native[mode]
        exe = self.base + '_' + mode
        flags = ['-O1', '-g1', '-w']
        if mode == 'san':
            flags += ['-D_GLIBCXX_ASSERTIONS', '-fsanitize=undefined,address', '-fno-sanitize-recover=all']
        objs = []
        ok = True
        for cmd, obj in (
                ([GXX] + COMMON + flags + self.flags + ['-c', self.base + '_impl.cc'], exe + '_i.o'),
                ([CLANG] + COMMON + ['-O1', '-w', '-c', self.base + '_spec.cc'], exe + '_s.o'),
                ([GXX, '-O1', '-w', '-c', VERIF + '/harness/runtime.cc'], exe + '_r.o'),
                ([GXX] + COMMON + flags + ['-c', REPO + '/src/util.cc'], exe + '_u.o')):
            r = sh(cmd + ['-o', obj])
            if r.returncode:
                ok = False
                break
            objs.append(obj)
        if ok:
            r = sh([GXX, '-rdynamic'] + flags + objs + ['-o', exe, '-ldl'])
            ok = r.returncode == 0
        self.native[mode] = exe if ok else None
        if not ok:
            sys.stderr.write('native build failed: %s\n' % r.stdout.decode(errors='replace')[-1500:])
        return self.native[mode]


def vec_lines(rng, n):
    out = []
    corner = [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 63,
              (1 << 63) - 1, (1 << 64) - 1]
    for k in range(n):
        line = []
        for i in range(48):
            t = rng.random()
            if t < 0.35:
                v = rng.choice(corner)
            elif t < 0.55:
                v = rng.randrange(130)
            elif t < 0.75:
                v = 0
            else:
                v = rng.getrandbits(64)
            line.append('%d %x' % (i, v))
        out.append(' '.join(line))
    return out


def norm(v):
    t = v.split()
    return sorted(x for x in t[1:])


def run_native(exe, entry, vec, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='halt_on_error=1')
    return sh([exe, 't_' + entry, vec], timeout=timeout, env=env)


class Checker:
    def __init__(self, prop, tier, seed, only=None):
        import props
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = props
        self.t0 = time.time()
        self.info = props.PROPS[prop]
        self.cases = self.info['cases'](tier)
        if only:
            self.cases = [c for c in self.cases if re.search(only, c.name)]
        self.wd = os.path.join(BUILD, 'work', prop + '_' + tier)
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.budget = self.info.get('budget', {'quick': 300, 'thorough': 800})[tier]
        self.known = load_known(prop)

    def chunks(self):
        by = {}
        for c in self.cases:
            by.setdefault((c.group, c.impl_flags), []).append(c)
        res = []
        per = self.info.get('chunk', 10)
        for k, cs in by.items():
            n = max(1, -(-len(cs) // per))
            for i in range(n):
                part = cs[i::n]
                if part:
                    res.append(Chunk(len(res), part, self.wd))
        return res

    def extra_mods(self):
        """the library's source file, for the properties that need it"""
        if not self.info.get('util'):
            return []
        out = os.path.join(self.wd, 'util.bc')
        r = sh([CLANG] + ['-I' + VERIF + '/harness/model'] + COMMON + GUARD + SAN + IRF + [REPO + '/src/util.cc', '-o', out])
        if r.returncode:
            self.util_error = first_error(r.stdout.decode(errors='replace'))
            return []
        model = os.path.join(self.wd, 'libc.bc')
        sh([CLANG] + IRF + [VERIF + '/harness/model/libc.cc', '-o', model])
        return [out, model]

    def run(self):
        info = self.info
        chunks = self.chunks()
        vec = os.path.join(self.wd, 'vec.txt')
        nvec = 4 if self.tier == 'quick' else 40
        write(vec, '\n'.join(vec_lines(random.Random(self.seed), nvec)) + '\n')
        self.inconclusive, self.results = [], {}
        self.violations, self.knownhits = [], []
        self.validated = 0
        mismatches = []
        extra = self.extra_mods()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            comp = list(ex.map(lambda c: c.compile_ir(), chunks))
            bad = [c for c in comp if c.error]
            good = [c for c in comp if not c.error]
            # isolate harnesses that do not compile, by halving
            serial = 1000
            while bad:
                parts = []
                for c in bad:
                    if len(c.cases) == 1:
                        self.inconclusive.append((c.cases[0].name, 'does not compile: ' + c.error))
                        continue
                    h = (len(c.cases) + 1) // 2
                    for cs in (c.cases[:h], c.cases[h:]):
                        serial += 1
                        parts.append(Chunk(serial, cs, self.wd))
                comp = list(ex.map(lambda c: c.compile_ir(), parts))
                bad = [c for c in comp if c.error]
                good += [c for c in comp if not c.error]
            jobs = [(c, k) for c in good for k in c.cases]
            nat = {c.idx: ex.submit(c.build_native, 'plain') for c in good} if info.get('validate', True) else {}
            res = list(ex.map(lambda j: self.engine(j[0], j[1], vec, extra), jobs))
        for (c, k), r in zip(jobs, res):
            self.results[k.name] = r
            if r is None or r.get('status') != 'ok':
                self.inconclusive.append((k.name, (r or {}).get('why', 'engine failed')))
        # encoding validation against the native build
        def validate(job):
            c, k = job
            r = self.results.get(k.name)
            if not r or r.get('status') != 'ok' or not r['vectors'] or not k.vectors:
                return None
            exe = c.build_native('plain') if c.idx not in nat else nat[c.idx].result()
            if not exe:
                return (k.name, 'native build failed')
            n = run_native(exe, k.name, vec)
            lines = n.stdout.decode(errors='replace').splitlines()
            cnt = 0
            for a, b in zip(r['vectors'], lines):
                if not b.startswith('V'):
                    break
                if 'ASSUME' in b or 'ASSUME' in a:
                    continue
                # undefined behaviour and aborts are reported separately
                if re.search(r'FAIL:[a-z]', a):
                    continue
                if norm(a) != norm(b):
                    return (k.name, 'encoding and native run differ: %s | %s' % (a, b))
                cnt += 1
            self.validated += cnt
            return None
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for m in ex.map(validate, jobs):
                if m:
                    mismatches.append(m)
        # counterexamples
        todo = []
        for c, k in jobs:
            r = self.results.get(k.name)
            if not r:
                continue
            for v in r['results']:
                todo.append((c, k, v))
        def conf(t):
            c, k, v = t
            if v['verdict'] == 'unknown':
                return ('inc', k, v, 'solver limit on %s %s' % (v['kind'], v['id']))
            ok, how = self.confirm(c, k, v)
            return ('viol' if ok else 'inc', k, v, how)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            confirmed = list(ex.map(conf, todo))
        for what, k, v, how in confirmed:
            if what == 'inc':
                self.inconclusive.append((k.name, how))
                continue
            kf = self.match_known(k, v)
            if kf:
                self.knownhits.append((kf, k, v))
            else:
                self.violations.append((k, v, how))
        for k in self.cases:
            r = self.results.get(k.name)
            if r and r.get('status') == 'ok' and r['reach'] != 'sat' and not any(
                    x['verdict'] == 'sat' for x in r['results']):
                self.inconclusive.append((k.name, 'vacuous: no input reaches the end of the harness (%s)' % r['reach']))
        self.mismatches = mismatches
        for m in mismatches:
            self.inconclusive.append(m)
        return self.report()

    def engine(self, c, k, vec, extra):
        left = self.budget - (time.time() - self.t0)
        out = os.path.join(self.wd, k.name + '.json')
        tmo = k.timeout or self.info.get('timeout', {'quick': 40, 'thorough': 300})[self.tier]
        total = k.total or max(tmo * 2, 60)
        total = max(5, min(total, left))
        tmo = min(tmo, total)
        if left < 3:
            return {'status': 'skipped', 'why': 'time budget of the check spent', 'results': []}
        env = dict(os.environ, SYMX_TMP=self.wd)
        cmd = ['bash', '-c', 'ulimit -s unlimited; ulimit -v 12000000; exec "$@"', 'x', SYMX, '--entry', 't_' + k.name, '--out', out,
               '--timeout', str(tmo), '--total', str(total), '--eval', vec]
        if k.unwind:
            cmd += ['--unwind', str(k.unwind)]
        if k.split:
            cmd += ['--split']
        if self.info.get('conc'):
            cmd += ['--concretize']
        if self.info.get('util') or self.info.get('tables'):
            cmd += ['--tables']
        if os.environ.get('SYMX_Z3ONLY'):
            cmd += ['--z3only']
        t = time.time()
        r = sh(cmd + c.mods() + extra, timeout=total + 60, env=env)
        try:
            j = json.load(open(out))
            j['wall'] = time.time() - t
            return j
        except Exception:
            return {'status': 'engine', 'why': 'engine exit %s: %s' % (r.returncode, r.stdout.decode(errors='replace')[-400:]),
                    'results': []}

    def confirm(self, c, k, v):
        """replays the counterexample against the real code"""
        rp = os.path.join(self.wd, 'replay_%s_%s_%s.txt' % (k.name, re.sub(r'\W', '_', v['kind'])[:40], v['id']))
        write(rp, ' '.join('%s %s' % (i, x) for i, x in v['inputs'].items()) + '\n')
        v['replay_inputs'] = rp
        if v['kind'] == 'assert':
            for mode in ('plain', 'san'):
                exe = c.build_native(mode)
                if not exe:
                    continue
                n = run_native(exe, k.name, rp)
                t = n.stdout.decode(errors='replace')
                m = re.findall(r'FAIL:(\d+)', t)
                if m:
                    return True, 'native %s build: asserts %s fail: %s' % (mode, ','.join(m), t.strip()[:300])
                if n.returncode != 0:
                    return True, 'native %s build ends with %s: %s' % (mode, n.returncode, t.strip()[:300])
            return False, 'counterexample did not reproduce (assert %s)' % v['id']
        exe = c.build_native('san')
        if exe:
            n = run_native(exe, k.name, rp)
            t = n.stdout.decode(errors='replace')
            if n.returncode != 0 and n.returncode != 124:
                m = re.search(r'(runtime error:.*|ERROR: AddressSanitizer.*|Assertion.*|terminate.*)', t)
                return True, 'sanitized native build: %s' % (m.group(1)[:300] if m else t.strip()[-300:])
            if n.returncode == 124:
                return True, 'sanitized native build does not terminate'
        return False, 'counterexample did not reproduce (%s at %s)' % (v['kind'], v['loc'])

    def match_known(self, k, v):
        for kf in self.known:
            if re.fullmatch(kf['case'], k.name) and (kf['kind'] in ('*', v['kind'])):
                return kf
        return None

    def report(self):
        info = self.info
        rs = {n: r for n, r in self.results.items() if r and r.get('status') == 'ok'}
        ev_dir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(ev_dir, exist_ok=True)
        s = lambda k: sum(r.get(k, 0) for r in rs.values())
        funcs = sorted({f for r in rs.values() for f in r['functions'] if not f.startswith('t_')})
        lib = [f for f in funcs if '5logic' in f]
        unknown = sorted({n for n, _ in self.inconclusive})
        samples = []
        for k in self.cases[:3]:
            r = self.results.get(k.name) or {}
            samples.append({'harness': k.name, 'library_call': k.impl[:400], 'specification': k.spec[:600],
                            'obligations': r.get('obligations'), 'discharged': r.get('proved'),
                            'wall_s': round(r.get('wall', 0), 2)})
        cov = {
            'states': s('states') + len(rs), 'transitions': s('instrs'),
            'traces_validated_against_impl': self.validated,
            'samples': samples,
            'harnesses': len(self.cases), 'harnesses_decided': len([n for n in rs if n not in unknown]),
            'obligations': s('obligations'), 'obligations_folded': s('folded'), 'queries': s('queries'), 'feasibility_queries': s('feas_queries'),
            'case_split_instances': s('cases'),
            'solver_secs': round(s('solver_secs') + s('feas_secs'), 2), 'exec_secs': round(s('exec_secs'), 2),
            'decided_by': {b: sum(r['by'].get(b, 0) for r in rs.values()) for b in ('kissat', 'z3')},
            'largest_loop_iteration': max([r['max_iter'] for r in rs.values()] or [0]),
            'functions_encoded': len(funcs), 'library_functions': lib[:60] if lib else funcs[:60],
            'bounds': info['bounds'](self.tier) if callable(info.get('bounds')) else info.get('bounds', ''),
            'reach_witnesses': sum(1 for r in rs.values() if r['reach'] == 'sat'),
            'inconclusive': [{'harness': n, 'why': w[:300]} for n, w in self.inconclusive][:40],
            'rule': 'each harness executes the library call symbolically over all inputs of the stated widths; '
                    'an obligation is an assertion or a potential undefined behaviour',
            'known_findings_seen': [kf['line'] for kf, _, _ in self.knownhits],
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': info.get('level', 'model_checking'),
              'coverage': cov, 'assumptions': info.get('assumptions', []) + ASSUME,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        write(os.path.join(ev_dir, self.prop + '.json'), json.dumps(ev, indent=1) + '\n')
        print('%s %s: %d harnesses, %d decided, %d obligations, %d more by simplification, %d queries, solver %.1fs, wall %.1fs, %d traces validated'
              % (self.prop, self.tier, len(self.cases), cov['harnesses_decided'], cov['obligations'], cov['obligations_folded'], cov['queries'],
                 cov['solver_secs'], ev['wall_s'], self.validated))
        for n, w in self.inconclusive:
            print('INCONCLUSIVE %s: %s' % (n, w.replace('\n', ' ')[:300]))
        seen = set()
        for kf, k, v in self.knownhits:
            if kf['line'] not in seen:
                seen.add(kf['line'])
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kf['what']))
        if self.violations:
            rd = os.path.join(BUILD, 'replays')
            os.makedirs(rd, exist_ok=True)
            cases = {}
            for k, v, how in self.violations:
                cases.setdefault(k.name, []).append((k, v, how))
            for i, name in enumerate(sorted(cases)):
                k, v, how = cases[name][0]
                rp = os.path.join(rd, '%s_%s.json' % (self.prop, k.name))
                write(rp, json.dumps({'property': self.prop, 'tier': self.tier, 'harness': k.name, 'kind': v['kind'], 'assert': v['id'],
                                      'where': v['loc'], 'inputs': v['inputs'], 'native': how, 'impl': k.impl,
                                      'spec': k.spec, 'others': [(x['kind'], x['id'], x['loc']) for _, x, _ in cases[name][1:]],
                                      'rerun': './check.py --replay ' + rp}, indent=1) + '\n')
                if i >= 15:
                    continue
                print('VIOLATION property=%s replay=%s' % (self.prop, rp))
                if self.brief:
                    continue
                print('  harness %s: %s %s at %s; inputs %s; %s' % (k.name, v['kind'], v['id'], v['loc'],
                                                                 json.dumps(v['inputs']), how))
            if self.brief:
                print('%d violating:' % len(cases), ' '.join(sorted(cases)))
            return 1
        if not rs:
            print('no harness could be decided')
            return 2
        return 0


ASSUME = [
    'clang 18 -O1 translates the library to the IR that is executed symbolically; a counterexample is reported only after it reproduces in the g++ build',
    'undefined behaviour is checked where clang inserts a trap (shift amounts, signed overflow, division by zero, bool loads, missing return) and at every memory access',
    'the decision procedures kissat and z3 are trusted for unsat answers; the bit-blaster and executor are validated against native runs on concrete inputs',
    'inputs are values in canonical form (unused high bits zero, or copies of the sign in a signed native holder), which is what every public operation must produce',
]


def load_known(prop):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) case=(\S+) kind=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append({'case': m.group(2), 'kind': m.group(3), 'what': m.group(4), 'line': line.strip()})
    return res


def replay(path):
    import props
    j = json.load(open(path))
    wd = os.path.join(BUILD, 'work', 'replay')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    cs = [c for c in props.PROPS[j['property']]['cases'](j['tier']) if c.name == j['harness']]
    c = Chunk(0, cs, wd)
    c.sources()
    vec = os.path.join(wd, 'vec')
    write(vec, ' '.join('%s %s' % (i, x) for i, x in j['inputs'].items()) + '\n')
    bad = False
    for mode in ('plain', 'san'):
        exe = c.build_native(mode)
        n = run_native(exe, j['harness'], vec)
        t = n.stdout.decode(errors='replace').strip()
        print(mode, 'exit', n.returncode, t[-800:])
        bad |= n.returncode != 0 or 'FAIL' in t
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--times', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--brief', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if not os.path.exists(SYMX):
        r = sh([VERIF + '/engine/build.sh'])
        if r.returncode:
            print(r.stdout.decode())
            return 2
    c = Checker(a.prop, a.tier, seed, a.only)
    c.brief = a.brief
    if a.list:
        for k in c.cases:
            print(k.name)
        return 0
    rc = c.run()
    if a.times:
        for n, r in sorted(c.results.items(), key=lambda x: -(x[1] or {}).get('wall', 0))[:25]:
            print('%8.2fs exec %.2f solver %.2f obl %d  %s' % (r.get('wall', 0), r.get('exec_secs', 0), r.get('solver_secs', 0), r.get('obligations', 0), n))
    if not a.keep and not a.only:
        shutil.rmtree(c.wd, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
