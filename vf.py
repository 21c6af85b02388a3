#!/usr/bin/env python3
"""Driver: compiles the contracts of one property together with /repo's current
sources to LLVM bitcode, lets the engine discharge every obligation, replays
counterexamples natively, writes evidence/<id>.json.

usage: vf.py check ID [--tier quick|thorough] [--entry GLOB] [--keep]
       vf.py replay FILE          re-run a recorded counterexample
       vf.py setup                build the engine
"""
import sys, os, re, json, subprocess, time, fnmatch, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
CON = os.path.join(VERIF, 'contracts')
LLVM = '/usr/lib/llvm-18/bin'
CXX = LLVM + '/clang++'
ENGINE = os.path.join(BUILD, 'engine', 'vfengine')
JOBS = int(os.environ.get('VF_JOBS', '8'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
GRACE = 30 # seconds the other contracts have once one is violated
STD = ['-std=c++14']
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + CON] + ['-I%s/extras/%s/include' % (REPO, x) for x in ('gtest', 'gmock', 'catch', 'boost')]
COMMON = STD + INC + ['-w', '-fno-access-control', '-ftemplate-depth=2000']
BCFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-delete-null-pointer-checks', '-fno-builtin', '-include', CON + '/vf_pre.h', '-emit-llvm', '-c']
NATFLAGS = ['-O1', '-g', '-DVF_NATIVE', '-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-c']


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'


def build_engine():
    # make is incremental; the committed sources decide
    os.makedirs(os.path.join(BUILD, 'engine'), exist_ok=True)
    rc, o, e = sh(['make', '-s', '-j8', '-C', os.path.join(VERIF, 'engine'), 'B=' + os.path.join(BUILD, 'engine')])
    if rc:
        sys.stderr.write(o + e)
        sys.exit(2)


class ContractFile:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.sources, self.opts, self.thorough, self.assume, self.quickonly = [], [], [], [], []
        self.models = []
        self.replace = {}
        for l in open(path):
            m = re.match(r'//@\s*([a-z-]+)(?:\s+(\S+))?\s*:\s*(.*)$', l)
            if not m:
                continue
            k, g, v = m.groups()
            if k == 'sources': self.sources += v.split()
            elif k == 'opt': self.opts.append((g, v.split()))
            elif k == 'thorough': self.thorough += v.split()
            elif k == 'quick-only': self.quickonly += v.split()
            elif k == 'replace': # abstract callee contracts linked in place of a source file
                a, b = v.split()
                self.replace[a] = b
            elif k == 'model': self.models += v.split() # trusted models of library machine code, for the verifier only
            elif k == 'assume': self.assume.append(v.strip())
        if self.sources == ['ALL']:
            self.sources = all_sources()
        self.sources = [s for s in self.sources if s not in self.replace]

    def model_srcs(self):
        return [os.path.join(CON, m) for m in self.models]

    def srcs(self):
        return [os.path.join(REPO, s) for s in self.sources] + [os.path.join(CON, s) for s in sorted(set(self.replace.values()))]


def all_sources():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def objname(src):
    return src.replace('/', '_')


class Check:
    def __init__(self, pid, tier, entry_glob=None):
        self.pid, self.tier, self.glob = pid, tier, entry_glob
        self.work = os.path.join(BUILD, 'work', pid)
        self.replays = os.path.join(BUILD, 'replay', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(self.replays)
        self.pool = ThreadPoolExecutor(JOBS)
        self.files = [ContractFile(os.path.join(CON, f)) for f in sorted(os.listdir(CON)) if re.match(pid + r'[a-z_]*.*\.cpp$', f)]
        self.nat = {}
        self.notes = []

    def log(self, *a):
        print(*a, flush=True)

    # ---- bitcode ----
    def compile_bc(self, job):
        src, out = job
        rc, o, e = sh([CXX] + COMMON + BCFLAGS + [src, '-o', out], timeout=300)
        return src, rc, e

    def build_bc(self):
        jobs = {os.path.join(CON, 'stdmodel.cpp'): os.path.join(self.work, 'stdmodel.bc')}
        for f in self.files:
            jobs[f.path] = os.path.join(self.work, f.name + '.bc')
            for s in f.srcs() + f.model_srcs():
                jobs[s] = os.path.join(self.work, objname(s) + '.bc')
        res = list(self.pool.map(self.compile_bc, [(s, o) for s, o in jobs.items() if os.path.exists(s)]))
        bad = {s: e for s, rc, e in res if rc}
        self.broken = []
        good = []
        for f in self.files:
            errs = [s for s in [f.path] + f.srcs() if s in bad]
            if errs:
                self.broken.append((f, '\n'.join(bad[s][:3000] for s in errs)))
            else:
                good.append(f)
        list(self.pool.map(self.link, good))
        self.good = [f for f in good if f.entries]

    def link(self, f):
        mods = [os.path.join(self.work, f.name + '.bc'), os.path.join(self.work, 'stdmodel.bc')] + [os.path.join(self.work, objname(s) + '.bc') for s in f.srcs() + f.model_srcs() if os.path.exists(s)]
        linked = os.path.join(self.work, f.name + '.l.bc')
        f.mod = os.path.join(self.work, f.name + '.o.bc')
        f.entries = []
        rc, o, e = sh([LLVM + '/llvm-link'] + mods + ['-o', linked])
        if rc:
            self.broken.append((f, e[:3000]))
            return
        rc, o, e = sh([LLVM + '/llvm-nm', '--defined-only', '--format=just-symbols', linked])
        ents = [x for x in o.split() if x.startswith('vf_entry_')]
        api = os.path.join(self.work, f.name + '.api')
        open(api, 'w').write('\n'.join(ents + ['vfm_throw_bad_alloc', 'main']) + '\n')
        rc, o, e = sh([LLVM + '/opt', '--internalize-public-api-file=' + api, '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg<no-speculate-blocks>,instsimplify),globaldce', linked, '-o', f.mod])
        if rc:
            self.broken.append((f, e[:3000]))
            return
        f.entries = ents

    # ---- engine ----
    def entry_opts(self, f, name):
        o = []
        for g, v in f.opts:
            if fnmatch.fnmatch(name, g or '*'):
                o += v
        return o

    def known_only(self, r):
        short = r['entry'][len('vf_entry_'):]
        kf = [k for k in self.known() if fnmatch.fnmatch(short, k[0])]
        return bool(kf) and all(any(fnmatch.fnmatch(v['name'], k[1]) or v['name'] == k[1] for k in kf) for v in r['violations'])

    def watched(self, cmd, limit, stops):
        """runs a command; a run of the main phase is stopped when the time for
        the whole check is up, or soon after another contract was violated"""
        t = time.time()
        def reason():
            now = time.time()
            if now - t > limit:
                return 'time limit'
            if stops and now > self.deadline:
                return 'time limit of the check'
            if stops and now > self.first_violation + GRACE:
                return 'not decided: another contract is violated'
            return None
        why = reason()
        if why:
            return -999, '', '', why
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        while True:
            try:
                o, e = p.communicate(timeout=0.5)
                return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), None
            except subprocess.TimeoutExpired:
                why = reason()
                if why:
                    p.kill()
                    p.communicate()
                    return -999, '', '', why

    def run_engine(self, f, entry, extra=(), tmo=None, tag=''):
        out = os.path.join(self.work, entry + tag + '.json')
        short = entry[len('vf_entry_'):]
        opts = self.entry_opts(f, short)
        limit = 400 if self.tier == 'quick' else 600
        if '--time' in opts:
            limit = float(opts[opts.index('--time') + 1])
        if tmo:
            limit = min(limit, tmo)
        cmd = [ENGINE, f.mod, '--entry', entry, '--out', out, '--repo', REPO + '/'] + opts + ['--time', str(limit)] + list(extra)
        if os.path.exists(out):
            os.remove(out)
        rc, o, e, stopped = self.watched(cmd, limit + 120, not tag)
        try:
            r = json.load(open(out))
            if stopped:
                raise ValueError()
        except Exception:
            r = {'entry': entry, 'error': 'engine failed (rc %s): %s' % (rc, (o + e)[-1500:]), 'violations': [], 'obligations': 0, 'discharged': 0, 'obligation_list': []}
        r['cmd'] = ' '.join(cmd)
        r['rc'] = rc
        if stopped:
            r['stopped'] = True
            r['error'] = stopped
        elif not tag and r['violations'] and not self.known_only(r):
            self.first_violation = min(self.first_violation, time.time())
        r['file'] = f.name
        return r

    # ---- native replay ----
    def native(self, f):
        if f.name in self.nat:
            return self.nat[f.name]
        d = os.path.join(self.work, 'native')
        os.makedirs(d, exist_ok=True)
        srcs = [f.path, os.path.join(CON, 'vf_native.cpp')] + [os.path.join(REPO, s) for s in all_sources() if s not in f.replace] + [os.path.join(CON, s) for s in sorted(set(f.replace.values()))]

        def comp(s):
            o = os.path.join(d, s.replace('/', '_') + '.o')
            if os.path.exists(o):
                return o, 0, ''
            rc, so, e = sh([CXX] + COMMON + NATFLAGS + [s, '-o', o], timeout=300)
            return o, rc, e
        res = list(self.pool.map(comp, srcs))
        exe = os.path.join(d, f.name + '.exe')
        if any(rc for _, rc, _ in res):
            self.notes.append('native build failed: ' + [e for _, rc, e in res if rc][0][:800])
            exe = None
        else:
            rc, o, e = sh([CXX, '-fsanitize=address,undefined'] + [o for o, _, _ in res] + ['-o', exe, '-lpthread'])
            if rc:
                self.notes.append('native link failed: ' + e[:800])
                exe = None
        self.nat[f.name] = exe
        return exe

    ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_odr_violation=0:alloc_dealloc_mismatch=0:handle_abort=1', UBSAN_OPTIONS='exitcode=99:print_stacktrace=1')

    def replay(self, f, entry, v, n):
        """native run with the model's values; returns (reproduced, path)"""
        path = os.path.join(self.replays, '%s.%d.replay' % (entry[len('vf_entry_'):], n))
        with open(path, 'w') as o:
            o.write('# property %s contract %s (%s)\n# obligation: %s: %s at %s\n' % (self.pid, entry, f.path, v['kind'], v['name'], v['loc']))
            o.write('# detail: %s\n' % v.get('detail', ''))
            for l in v.get('trace', '').split('\n'):
                o.write('#   ' + l + '\n')
            o.write('# reproduce: python3 %s replay %s\n' % (os.path.join(VERIF, 'vf.py'), path))
            o.write('E %s %s\n' % (f.path, entry))
            for k, x in sorted(v['nondet'].items()):
                o.write('N %s %s\n' % (k, x))
            for fn, args, x in v['uf']:
                o.write('U %s %s %s\n' % (fn, ' '.join(args), x))
        exe = self.native(f)
        if not exe:
            return False, path
        rc, o, e = sh([exe, entry, 'table', path], timeout=60, env=self.ENV)
        ok = rc not in (0, 77, 78)
        with open(path, 'a') as w:
            w.write('# native replay exit %s\n' % rc + ''.join('#| %s\n' % l for l in (o + e)[:6000].split('\n')))
        return ok, path

    def search(self, f, entry, secs):
        exe = self.native(f)
        if not exe:
            return None
        rc, o, e = sh([exe, entry, 'random', str(SEED), str(secs)], timeout=secs + 60, env=self.ENV)
        m = re.search(r'FOUND (\d+)', o)
        if not m:
            return None
        path = os.path.join(self.replays, entry[len('vf_entry_'):] + '.random.replay')
        rc, o, e = sh([exe, entry, 'one', m.group(1)], timeout=60, env=self.ENV)
        if rc in (0, 77, 78):
            return None
        with open(path, 'w') as w:
            w.write('# property %s contract %s: concrete failing run found by seeded search\nE %s %s\nR %s\n' % (self.pid, entry, f.path, entry, m.group(1)))
            w.write(''.join('#| %s\n' % l for l in (o + e)[:6000].split('\n')))
        return path

    def decide_failed(self, f, r):
        """an entry whose obligations were not all discharged -> (path, confirmed, text)"""
        entry = r['entry']
        best = None
        n = 0
        for v in r['violations']:
            n += 1
            ok, path = self.replay(f, entry, v, n)
            if ok:
                return path, True, v
            best = best or (path, v)
        # bounded re-run without abstraction to look for a concrete counterexample
        for unroll in (3, 6):
            r2 = self.run_engine(f, entry, ['--no-cut', '--unroll', str(unroll), '--max-viol', '6'], tmo=45, tag='.bounded')
            for v in r2['violations']:
                n += 1
                ok, path = self.replay(f, entry, v, n)
                if ok:
                    return path, True, v
                best = best or (path, v)
        p = self.search(f, entry, 20)
        if p:
            return p, True, (best[1] if best else {'kind': 'search', 'name': 'random replay', 'loc': ''})
        if best:
            return best[0], False, best[1]
        path = os.path.join(self.replays, entry[len('vf_entry_'):] + '.undischarged.txt')
        with open(path, 'w') as w:
            w.write('property %s contract %s: obligations not discharged\n%s\n' % (self.pid, entry, r.get('error') or r.get('why') or 'unknown results'))
            for b in r.get('obligation_list', []):
                if b['unknown'] or b['failed']:
                    w.write('undischarged: %s: %s at %s\n' % (b['kind'], b['name'], b['loc']))
        return path, False, {'kind': 'undischarged', 'name': (r.get('error') or r.get('why') or 'solver gave no answer'), 'loc': ''}

    def known(self):
        out = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) entry=(\S+) obligation="([^"]*)" (.*)$', l.strip())
                if m and m.group(1) == self.pid:
                    out.append(m.groups()[1:])
        return out

    def run(self):
        t0 = time.time()
        self.deadline = t0 + (540 if self.tier == 'quick' else 6000)
        self.first_violation = float('inf')
        build_engine()
        self.build_bc()
        todo = []
        for f in self.good:
            for e in f.entries:
                s = e[len('vf_entry_'):]
                if self.glob and not fnmatch.fnmatch(s, self.glob):
                    continue
                if self.tier == 'quick' and any(fnmatch.fnmatch(s, g) for g in f.thorough):
                    continue
                todo.append((f, e))
        res = list(self.pool.map(lambda x: (x[0], self.run_engine(*x)), todo))
        known = self.known()
        fails, violations, klines = [], [], []
        for f, r in res:
            bad = bool(r['violations']) or bool(r.get('error')) or r.get('incomplete') or r.get('unknown', 0) > 0
            if not bad:
                continue
            short = r['entry'][len('vf_entry_'):]
            kf = [k for k in known if fnmatch.fnmatch(short, k[0])]
            if kf and r['violations'] and not r.get('error') and not r.get('incomplete') and all(any(v['name'] == k[1] or fnmatch.fnmatch(v['name'], k[1]) for k in kf) for v in r['violations']):
                for k in kf:
                    klines.append('KNOWN-FINDING: property=%s %s' % (self.pid, k[2]))
                continue
            fails.append((f, r))
        fails.sort(key=lambda x: (bool(x[1].get('stopped')), not x[1]['violations'], bool(x[1].get('incomplete'))))
        budget_t = time.time()
        for i, (f, r) in enumerate(fails):
            if violations and (i >= 4 or r.get('stopped') or time.time() - budget_t > 120):
                break
            path, conf, v = self.decide_failed(f, r)
            violations.append((r['entry'], path, conf, v))
            if conf:
                break
        for f, err in self.broken:
            path = os.path.join(self.replays, f.name + '.compile.txt')
            open(path, 'w').write('contract file %s no longer compiles against /repo:\n%s\n' % (f.path, err))
            violations.append((f.name, path, False, {'kind': 'contract', 'name': 'contract no longer applies to the code', 'loc': f.path}))
        self.evidence(res, violations, klines, time.time() - t0)
        for l in sorted(set(klines)):
            self.log(l)
        for nt in self.notes:
            self.log('note: ' + nt)
        conf = [v for v in violations if v[2]]
        show = conf or violations
        for entry, path, c, v in show[:6]:
            self.log('%s: obligation failed: %s: %s %s' % (entry, v['kind'], v['name'], v['loc']))
            self.log('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if c else ' no-failing-input-found'))
        if not todo and not violations:
            self.log('error: no contracts for ' + self.pid)
            return 2
        if not violations:
            self.log('%s: %d contracts, %d/%d obligations discharged, %.1fs' % (self.pid, len(res), sum(r.get('discharged', 0) for _, r in res), sum(r.get('obligations', 0) for _, r in res), time.time() - t0))
        return 1 if violations else 0

    def evidence(self, res, violations, klines, wall):
        tot = lambda k: sum(r.get(k, 0) or 0 for _, r in res)
        fns, bounded, contracts, cuts, reach = set(), set(), set(), set(), set()
        solver = {'queries': 0, 'cached': 0, 'time': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'abstraction_proved': 0, 'cvc5_proved': 0}
        ver = ''
        for f, r in res:
            fns |= set(r.get('functions', []))
            bounded |= set(r['entry'][9:] + ': ' + b for b in r.get('bounded', []))
            contracts |= set(r.get('contracts_used', []))
            cuts |= set(r.get('cut_loops', []))
            reach |= set(r.get('reach', []))
            for k in solver:
                solver[k] += r.get('solver', {}).get(k, 0)
            ver = r.get('solver', {}).get('version', ver)
        assume = sorted(set(a for f in self.files for a in f.assume)) + [
            'clang 18 compiles /repo to LLVM IR faithfully; the engine (/verif/engine) and the SMT solver are sound',
            'libstdc++ machine code (exceptions, tree/list nodes, libc string functions) is modelled by contracts/stdmodel.cpp; libstdc++ headers are verified as compiled',
            'execution is sequential; new never fails below 2^39 bytes and always fails above']
        level = 'proof'
        try:
            level = next(c['level'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks'] if c['property'] == self.pid)
        except (OSError, ValueError, KeyError, StopIteration):
            pass
        d = {
            'property': self.pid, 'tier': self.tier, 'seed': SEED, 'level': level,
            'coverage': {
                'explanation': 'verification conditions of the contracts on the code of /repo, discharged symbolically for all inputs; where "bounded" is not empty, within the bounds it states',
                'obligations': tot('obligations'), 'discharged': tot('discharged'),
                'discharged_by_simplifier': tot('by_simplifier'), 'discharged_by_solver': tot('by_solver'),
                'memory_safety_checks': tot('mem_checks'), 'paths': tot('paths'), 'instructions': tot('steps'),
                'inferred_loop_invariants': tot('inferred_invariants'), 'loops_cut_by_invariant': sorted(cuts),
                'contracts': [{'contract': r['entry'], 'file': r['file'], 'obligations': r.get('obligations'), 'discharged': r.get('discharged'), 'paths': r.get('paths'), 'wall_s': r.get('wall'), 'bounded': r.get('bounded', [])} for _, r in res],
                'functions_under_contract': sorted(fns), 'callee_contracts_substituted': sorted(contracts),
                'bounded_not_proved': sorted(bounded), 'solver': dict(solver, version=ver, time_s=round(solver['time'], 2)),
                'checker_cmd': 'python3 /verif/vf.py check %s --tier %s' % (self.pid, self.tier),
                'trusted_base': ['/verif/engine (symbolic VC generator)', 'z3 ' + ver, 'clang 18 front end', '/verif/contracts/stdmodel.cpp'] + sorted(set('/verif/contracts/' + m for f in self.files for m in f.models)),
                'samples': [{'contract': r['entry'], 'obligations': [b['kind'] + ': ' + b['name'] + (' @ ' + b['loc'] if b['loc'] else '') for b in r.get('obligation_list', [])[:6]]} for _, r in res[:5]],
                'known_findings': klines,
            },
            'assumptions': assume, 'wall_s': round(wall, 2), 'violations': len(violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(d, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if os.environ.get('VF_SUMMARY'):
            for f, r in res:
                st = 'ok' if not (r['violations'] or r.get('error') or r.get('incomplete') or r.get('unknown')) else 'FAIL'
                self.log('%-4s %-46s ob %s/%s paths %s wall %s q %s st %.1f%s%s' % (st, r['entry'][9:], r.get('discharged'), r.get('obligations'), r.get('paths'), r.get('wall'), r.get('solver', {}).get('queries'), r.get('solver', {}).get('time', 0), ' err=' + r['error'] if r.get('error') else '', ' BOUNDED ' + '; '.join(r['bounded']) if r.get('bounded') else ''))
                for v in r['violations']:
                    self.log('      %s: %s @ %s %s' % (v['kind'], v['name'], v['loc'], v['detail'][:300]))


def cmd_replay(path):
    lines = open(path).read().split('\n')
    e = [l for l in lines if l.startswith('E ')]
    if not e:
        print(open(path).read())
        return 1
    src, entry = e[0].split()[1:3]
    pid = re.match(r'(C\d+)', os.path.basename(src)).group(1)
    c = Check.__new__(Check)
    c.pid, c.work, c.nat, c.notes, c.pool = pid, os.path.join(BUILD, 'work', pid + '.replay'), {}, [], ThreadPoolExecutor(JOBS)
    shutil.rmtree(c.work, ignore_errors=True)
    os.makedirs(c.work)
    exe = c.native(ContractFile(src))
    r = [l for l in lines if l.startswith('R ')]
    rc, o, er = sh([exe, entry] + (['one', r[0].split()[1]] if r else ['table', path]), env=Check.ENV)
    print(o + er)
    print('exit', rc)
    return rc


def main():
    a = sys.argv[1:]
    if not a or a[0] not in ('check', 'replay', 'setup'):
        print(__doc__)
        return 2
    if a[0] == 'setup':
        build_engine()
        return 0
    if a[0] == 'replay':
        return cmd_replay(a[1])
    pid, tier, glob = a[1], os.environ.get('VERIF_TIER', 'quick'), None
    i = 2
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--entry': glob = a[i + 1]; i += 2
        else: i += 1
    return Check(pid, tier, glob).run()


if __name__ == '__main__':
    sys.exit(main())
