#!/usr/bin/env python3
"""check.py ID [quick|thorough]  -  decide one property against /repo's working tree.

Builds the property's harness (harness/ID.cpp, split in parts) in two variants from the current
tree: `san` (clang, sanitizers, library assertions on) and `rel` (g++ -O2, NDEBUG); runs the
generated histories of both; in the thorough tier with several seeds, and then coverage guided
(libFuzzer).  Exit 0: held on everything explored.  Exit 1 and a VIOLATION line otherwise.
"""
import array, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, 'harness')
REPO = os.environ.get('VP_REPO', '/repo')
NPROC = max(1, min(8, os.cpu_count() or 1))
SAN = '-O1 -fsanitize=address,undefined -fno-sanitize=null -fno-sanitize-recover=all'
REL = '-O2 -DNDEBUG'
COMMON = ['-std=gnu++17', '-w']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=1:malloc_context_size=6:quarantine_size_mb=16:max_allocation_size_mb=4000',
           UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:die_after_fork=0', LC_ALL='C')


def head(src, key):
    m = re.search(r'^// %s: *(.*)$' % key, src, re.M)
    return m.group(1).strip() if m else None


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.src = open(os.path.join(H, pid + '.cpp')).read()
        self.parts = int(head(self.src, 'PARTS') or 1)
        self.flags = {'san': ['clang++', '-gline-tables-only'] + (head(self.src, 'SAN') or SAN).split(),
                      'rel': ['g++'] + (head(self.src, 'REL') or REL).split(),
                      'fuzz': ['clang++', '-gline-tables-only', '-DVP_FUZZ', '-fsanitize=fuzzer'] + (head(self.src, 'SAN') or SAN).split()}
        self.relx = int(head(self.src, 'RELX') or 4)
        self.fuzzable = head(self.src, 'FUZZ') != 'no'
        base = os.path.join(ROOT, 'build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + '-', dir=base)
        self.replays = os.path.join(ROOT, 'replays')
        os.makedirs(self.replays, exist_ok=True)
        self.runs, self.hashes, self.violation = [], [], None
        self.notes = []

    # ------------------------------------------------------------ building
    def compile(self, var, part):
        exe = os.path.join(self.dir, '%s.%d' % (var, part))
        cmd = self.flags[var] + COMMON + ['-DVP_PART=%d' % part, '-I' + REPO, '-I' + H, os.path.join(H, self.pid + '.cpp'), '-o', exe]
        for attempt in (1, 2):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, cwd=self.dir)
                rc, log = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, log = -1, 'compiler did not finish within 400 s'
            if rc == 0:
                return exe, None
        return None, ' '.join(cmd) + '\n' + log

    def trivial_compiles(self, var):
        f = os.path.join(self.dir, 'trivial.cpp')
        open(f, 'w').write('#include <dstruct.hpp>\nint main() { return 0; }\n')
        return subprocess.run(self.flags[var][:1] + COMMON + ['-I' + REPO, f, '-o', f + '.exe'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

    # ------------------------------------------------------------ running
    def execute(self, exe, args, timeout):
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV, timeout=timeout, cwd=self.dir)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return 5, '', 'run did not finish within %d s' % timeout

    def list(self, exe):
        rc, out, err = self.execute(exe, ['--list'], 60)
        if rc != 0:
            die('harness does not start: ' + err[-2000:])
        q, t = map(int, out.split('\n')[0].split()[1:])
        share = sum(int(l.split()[1]) for l in out.split('\n') if l.startswith('suite '))
        return q, t, share

    def save_log(self, kind, text):
        path = os.path.join(self.replays, '%s-%s.log' % (self.pid, kind))
        open(path, 'w').write(text)
        return path

    def campaign(self, var, part, exe, cases, seed, timeout):
        """One run of a binary.  Sets self.violation if it found one."""
        tag = '%s.%d' % (var, part)
        out = os.path.join(self.dir, '%s.%d.json' % (tag, seed))
        hf = out + '.hashes'
        tmp = os.path.join(self.dir, 'tmp-%s-%d' % (tag, seed))
        os.makedirs(tmp, exist_ok=True)
        args = ['--seed', str(seed), '--cases', str(cases), '--jobs', str(NPROC), '--out', out, '--hashes', hf,
                '--replay-dir', self.replays, '--tmp', tmp, '--tag', tag]
        rc, so, se = self.execute(exe, args, timeout)
        if rc in (2, 4):     # killed from outside, or a failure that no single case reproduces: run the same campaign again
            first = se
            rc, so, se = self.execute(exe, args, timeout)
            if rc == 4 or (rc == 2 and 'killed from outside' in se):
                # fails every time, though only as a campaign: the campaign is the replay
                txt = 'The campaign\n  %s\nof %s fails each time, without one case that fails by itself.\nflags: %s\n\n%s\n----\n%s\n' % (
                    ' '.join(args), tag, ' '.join(self.flags[var]), first[-6000:], se[-6000:])
                self.violation = self.save_log('%s-campaign-%d' % (tag, seed), txt)
                rc = 1
        m = re.search(r'^FAIL (.*)$', so, re.M)
        if rc == 1 and m:
            self.violation = m.group(1)
        sys.stderr.write('\n'.join(se.split('\n')[-40 if rc else -2:]))
        if rc not in (0, 1):
            if rc == 5:
                self.notes.append('%s seed %d: stopped after %d s, inconclusive' % (tag, seed, timeout))
                return
            die('%s ended with %d: %s' % (tag, rc, se[-3000:]))
        if rc == 1 and not self.violation:
            die('%s reported a failure without a replay: %s' % (tag, se[-3000:]))
        try:
            self.runs.append(json.load(open(out)))
        except Exception as e:
            self.notes.append('%s seed %d: no statistics (%s)' % (tag, seed, e))
        if os.path.exists(hf):
            a = array.array('Q')
            a.frombytes(open(hf, 'rb').read())
            self.hashes.append(a)
            os.unlink(hf)
        shutil.rmtree(tmp, ignore_errors=True)

    def fuzz(self, part, exe, san_exe, runs, secs):
        corpus = os.path.join(self.dir, 'corpus.%d' % part)
        os.makedirs(corpus, exist_ok=True)
        art = os.path.join(self.dir, 'art.%d-' % part)
        p = subprocess.Popen([exe, corpus, '-seed=%d' % (self.seed * 8 + part + 1), '-runs=%d' % runs, '-max_total_time=%d' % secs, '-max_len=1400',
                              '-timeout=30', '-rss_limit_mb=3000', '-artifact_prefix=' + art, '-print_final_stats=1'],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, cwd=self.dir)
        out, _ = p.communicate()
        n = re.search(r'stat::number_of_executed_units: *(\d+)', out)
        cov = re.findall(r'cov: (\d+)', out)
        res = {'part': part, 'executions': int(n.group(1)) if n else 0, 'coverage_edges': int(cov[-1]) if cov else 0,
               'corpus': len(os.listdir(corpus))}
        for f in sorted(os.listdir(self.dir)):
            full = os.path.join(self.dir, f)
            if full.startswith(art) and ('crash-' in f or 'oom-' in f or 'timeout-' in f):
                rc, so, se = self.execute(san_exe, ['--fuzz-input', full, '--tmp', self.dir], 600)
                if rc == 1:
                    path = os.path.join(self.replays, '%s-fuzz.%d.case' % (self.pid, part))
                    open(path, 'w').write(so)
                    again = [self.execute(san_exe, ['--replay', path, '--tmp', self.dir], 100)[0] for _ in range(3)]
                    if again == [1, 1, 1]:
                        self.violation = path
                        sys.stderr.write(so)
                        break
                res['unconfirmed'] = out[-1500:]
        return res

    # ------------------------------------------------------------ the check
    def main(self):
        t0 = time.time()
        thorough = self.tier == 'thorough'
        jobs = [(v, k) for v in ('san', 'rel') for k in range(self.parts)]
        ex = cf.ThreadPoolExecutor(NPROC)
        futs = {(v, k): ex.submit(self.compile, v, k) for v, k in jobs}
        exes = {}
        for key, f in futs.items():
            exe, log = f.result()
            if exe is None:
                if not self.trivial_compiles(key[0]):
                    die('the library does not compile at all:\n' + log[-3000:])
                self.violation = self.save_log('%s.%d-compile' % key, 'Code that uses the library as documented no longer compiles:\n' + log[-20000:])
                sys.stderr.write(log[-3000:])
                break
            exes[key] = exe
        t_build = time.time() - t0
        fuzz_stats = []
        if not self.violation:
            info = {k: self.list(exes[('san', k)]) for k in range(self.parts)}
            total_share = sum(i[2] for i in info.values()) or 1
            budget = info[0][1 if thorough else 0]
            scale = float(os.environ.get('VP_SCALE', '1'))
            seeds = [self.seed + 1000003 * i for i in range(3)] if thorough else [self.seed]
            deadline = t0 + (float(os.environ.get('VP_DEADLINE', '5400')) if thorough else 800)
            for i, s in enumerate(seeds):
                for v, k in jobs:
                    if self.violation or time.time() > deadline:
                        break
                    n = max(NPROC, int(budget * scale * info[k][2] / total_share / len(seeds)))
                    if v == 'rel':
                        n *= self.relx      # without sanitizers a case costs a fraction
                    self.campaign(v, k, exes[(v, k)], n, s if v == 'san' else s + 500009, max(60, deadline - time.time()))
            if thorough and not self.violation and self.fuzzable:
                fz = {k: ex.submit(self.compile, 'fuzz', k) for k in range(self.parts)}
                fz = {k: f.result()[0] for k, f in fz.items()}
                secs = int(os.environ.get('VP_FUZZ_SECS', '300'))
                fs = [ex.submit(self.fuzz, k, fz[k], exes[('san', k)], 3000000, secs) for k in fz if fz[k]]
                fuzz_stats = [f.result() for f in fs]
        ex.shutdown(wait=False, cancel_futures=True)
        self.evidence(time.time() - t0, t_build, fuzz_stats)
        shutil.rmtree(self.dir, ignore_errors=True)
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            if l.startswith('open: property=%s ' % self.pid):
                print('KNOWN-FINDING: ' + l[6:].strip())
        if self.violation:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violation), flush=True)
            return 1
        print('%s %s seed %d: held on %d cases (%.1f s)' % (self.pid, self.tier, self.seed, sum(r['evaluations'] for r in self.runs), time.time() - t0))
        return 0

    def evidence(self, wall, t_build, fuzz_stats):
        labels, suites, samples = {}, {}, []
        for r in self.runs:
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r['suites'].items():
                suites[k] = suites.get(k, 0) + v
            samples += [dict(s, build=r['tag']) for s in r['samples'][:2]]
        distinct = set()
        for a in self.hashes:
            distinct.update(a)
        first = self.runs[0] if self.runs else {}
        cov = {'evaluations': sum(r['evaluations'] for r in self.runs), 'distinct_nontrivial': len(distinct),
               'rule': first.get('rule', 'the harness did not run: it no longer compiles against the tree'),
               'samples': samples[:8] or ['none: no case ran'],
               'operations_executed': sum(r['operations'] for r in self.runs),
               'nontrivial': sum(r['nontrivial'] for r in self.runs),
               'labels': labels, 'cases_per_suite': suites,
               'builds': {v: ' '.join(self.flags[v]) for v in ('san', 'rel')},
               'build_s': round(t_build, 1), 'exhaustive': False}
        if fuzz_stats:
            cov['coverage_guided'] = fuzz_stats
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': first.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if self.violation else 0}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)


def die(msg):
    sys.stderr.write('check error: %s\n' % msg)
    sys.exit(2)


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    script = os.path.join(H, pid + '.py')
    if os.path.exists(script):      # a check with a driver of its own (C29)
        sys.path.insert(0, H)
        import importlib
        sys.exit(importlib.import_module(pid).main(tier, seed))
    sys.exit(Check(pid, tier, seed).main())
