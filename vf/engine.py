"""Compile farm, execution, failure isolation, shrinking, evidence."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

from . import rx

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CPP = os.path.join(VERIF, 'cpp')
REPO = os.environ.get('VF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
JOBS = int(os.environ.get('VF_JOBS', '0')) or os.cpu_count() or 4

F = dict(MATCH=1, NONEMPTY=2, BACKTRACK=4, CAP=8, CAPROLL=16, REP=32, GIVEBACK=64, BEHIND=128, AHEAD=256, BREF=512,
         ANCHOR=1024, EMPTYITER=2048, NEGLOOK=4096, ATOMIC=8192, NESTLOOK=16384, MULTI=32768, FAILED=65536)
FNAMES = ['matched', 'nonempty_match', 'backtracked', 'group_nonempty', 'capture_undone', 'two_or_more_iterations',
          'lazy_step', 'lookbehind_read', 'lookahead_read', 'backref_compared', 'anchor_decided', 'empty_iteration_stopped',
          'negative_lookaround', 'atomic_completed', 'nested_lookaround', 'several_results', 'failed_after_trying']


class CheckError(Exception):
    """the machinery itself could not do its work"""


class Toolchain:
    def __init__(self, cxx='g++', flags=('-O1', '-fno-exceptions', '-fno-asynchronous-unwind-tables'), pch=True, extra_driver=(), name=None, std='-std=c++20', limits=True):
        self.cxx = cxx
        self.flags = [std, *flags, '-w', '-I' + INC, '-I' + CPP]
        if limits:  # raised, because the random trees are deeper than what people write
            self.flags += ['-ftemplate-depth=4096']
        if limits and cxx.startswith('clang'):
            self.flags += ['-fbracket-depth=4096']
        self.pch = pch
        self.name = name or cxx
        self.link = list(extra_driver)


class Failure:
    def __init__(self, spec, carrier, sem, subject, kind, want, got):
        self.spec, self.carrier, self.sem, self.subject, self.kind, self.want, self.got = spec, carrier, sem, subject, kind, want, got

    def text(self):
        return '%s %s on %r [%s]: expected %s, got %s' % (self.sem, self.spec.describe(), self.subject if len(self.subject) < 400 else self.subject[:200] + b'...%d bytes' % len(self.subject), self.carrier, self.want[:2000], self.got[:2000])


class Spec:
    """One regex under test. `body` is the C++ text that fills `vf::Case &c`."""
    __slots__ = ('id', 'tree', 'pattern', 'flags', 'body', 'subj', 'extra', 'note', 'tag', 'prelude', 'seed', 'mates')

    def __init__(self, tree, pattern, flags=(), body=None, subj=None, extra=(), note='', tag=None, prelude='', seed=0):
        self.id = 0
        self.mates = ()
        self.tree, self.pattern, self.flags = tree, pattern, tuple(flags)
        self.body, self.subj, self.extra, self.note, self.tag, self.prelude, self.seed = body, subj, tuple(extra), note, tag, prelude, seed

    def describe(self):
        return 'regex<%s%s>%s' % (rx.cpp_string(self.pattern), ''.join(', ' + f for f in self.flags), (' ' + self.note) if self.note else '')

    def flag_letters(self):
        m = dict(icase='i', dotall='s', multiline='m', ungreedy='u', unroll='r')
        return ''.join(m[f] for f in dict.fromkeys(self.flags)) or '-'


def flags_cpp(flags):
    return ''.join(', meta::regex_flag::' + f for f in flags)


def regex_type(pattern, flags=()):
    return 'meta::regex<%s%s>' % (rx.cpp_string(pattern), flags_cpp(flags))


DEFAULT_SUBJ = dict(exh=500, guided=300, rand=80, maxlen=64, budget=4000, long=6, huge=0)


class Engine:
    def __init__(self, prop, tier, seed, tc=None, mask=F['NONEMPTY'] | F['BACKTRACK'], harness='harness.hpp', driver_flags=('-O2',),
                 run_timeout=300, compile_timeout=240, hang=20, env=None, link=()):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tc = tc or Toolchain()
        self.mask = mask
        self.harness = harness
        self.dir = tempfile.mkdtemp(prefix='vf_%s_' % prop, dir=os.environ.get('VF_TMP', '/tmp'))
        self.driver_flags = list(driver_flags)
        self.link = list(link)
        self.driver_args = []
        self.batch = 30
        self.skip_compile_timeouts = False
        self.run_timeout, self.compile_timeout, self.hang = run_timeout, compile_timeout, hang
        self.env = dict(os.environ, **(env or {}))
        self.n_units = 0
        self.stats = dict(evaluations=0, nontrivial=0, matched=0, skipped=0, patterns=0, inputs=0, units=0, compile_s=0.0, run_s=0.0)
        self.feat = [0] * 17
        self.samples = []
        self.ready = set()
        self.t0 = time.time()
        self.lock = threading.Lock()

    def serialize(self, s):
        return rx.serialize(s.tree)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- building
    def sh(self, cmd, timeout, **kw):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=self.env, **kw)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            return -999, (e.stdout or b'') + b'\n(timeout)'

    def prepare(self, tc):
        """driver object and precompiled harness for this toolchain"""
        if tc.name in self.ready:
            return
        d = os.path.join(self.dir, tc.name)
        os.makedirs(d, exist_ok=True)
        with cf.ThreadPoolExecutor(2) as ex:
            san = [f for f in tc.flags if f.startswith('-fsanitize') or f.startswith('-fno-sanitize') or f.startswith('-D_GLIBCXX')]
            a = ex.submit(self.sh, ['g++' if not san else tc.cxx, '-std=c++20', *self.driver_flags, *san, '-w', '-I' + CPP, '-c', os.path.join(CPP, 'driver.cpp'),
                                    '-o', os.path.join(d, 'driver.o')], 300)
            b = None
            if tc.pch:
                shutil.copy(os.path.join(CPP, self.harness), os.path.join(d, 'pre.hpp'))
                ext = 'gch' if tc.cxx.startswith('g++') else 'pch'
                b = ex.submit(self.sh, [tc.cxx, *tc.flags, '-x', 'c++-header', os.path.join(d, 'pre.hpp'), '-o', os.path.join(d, 'pre.hpp.' + ext)], 300)
            rc, out = a.result()
            if rc != 0:
                raise CheckError('driver does not build:\n' + out.decode(errors='replace')[-3000:])
            if b is not None:
                rc, out = b.result()
                if rc != 0:
                    raise CheckError('the library header does not compile:\n' + out.decode(errors='replace')[-3000:])
        self.ready.add(tc.name)

    def unit_source(self, specs):
        o = ['#include "pre.hpp"\nusing namespace vf;\nnamespace {\n']
        for s in specs:
            o.append('%s\nvoid make%d(Case &c) { %s }\n' % (s.prelude, s.id, s.body))
        o.append('Reg const table[] = {%s};\n}\nnamespace vf { Reg const *const regs = table; int const nregs = %d; }\n' %
                 (', '.join('{%d, make%d}' % (s.id, s.id) for s in specs) or '{0, nullptr}', len(specs)))
        return ''.join(o)

    def plan_line(self, s):
        sj = dict(DEFAULT_SUBJ)
        sj.update(s.subj or {})
        rng = random.Random('%s/%s/%d/%d' % (self.prop, s.pattern.hex(), s.seed, self.seed))
        small, big = rx.alphabet(s.tree, s.flags, rng, limit=sj.get('alpha', 4)) if 'small' not in sj else (sj['small'], sj['big'])
        return '\t'.join([str(s.id), s.flag_letters(), str(rng.getrandbits(62)), self.serialize(s), small.hex(), big.hex(),
                          str(sj['exh']), str(sj['guided']), str(sj['rand']), str(sj['maxlen']), str(sj['budget']),
                          ','.join(x.hex() or '-' for x in s.extra), str(sj['long']), str(sj['huge'])]) + '\n'

    def probe(self, specs, k, tc=None):
        """up to k cheap, varied inputs per spec, chosen with the model only -> {spec: [bytes]}"""
        tc = tc or self.tc
        self.prepare(tc)
        d = os.path.join(self.dir, tc.name)
        exe = os.path.join(d, 'probe.exe')
        if not os.path.exists(exe):
            src = os.path.join(d, 'probe.cpp')
            with open(src, 'w') as f:
                f.write('#include "iface.hpp"\nnamespace vf { Reg const *const regs = nullptr; int const nregs = 0; }\n')
            rc, out = self.sh(['g++', '-std=c++20', '-I' + CPP, src, os.path.join(d, 'driver.o'), '-o', exe, '-lpthread'], 120)
            if rc:
                raise CheckError('probe does not build: ' + out.decode(errors='replace')[-1000:])
        for s in specs:
            self.n_units += 1
            s.id = self.n_units
        chunks = [specs[i::JOBS] for i in range(JOBS)]

        def one(j):
            base = exe + str(j)
            with open(base + '.plan', 'w') as f:
                for s in chunks[j]:
                    f.write(self.plan_line(s))
            rc, out = self.sh([exe, base + '.plan', base + '.out', base + '.state', '0', '1000', '0', '0', str(k)], 300)
            if rc:
                raise CheckError('probe failed rc=%s' % rc)
            r = {}
            with open(base + '.out') as f:
                for line in f:
                    p = line.rstrip('\n').split('\t')
                    if p[0] == 'PROBE':
                        r[int(p[1])] = [unhex(h) for h in p[2].split(',')] if p[2] else []
            return r
        res = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, range(JOBS)):
                res.update(r)
        return {s: res.get(s.id, []) for s in specs}

    def build_unit(self, specs, tc, tag):
        d = os.path.join(self.dir, tc.name)
        base = os.path.join(d, 'u%s' % tag)
        with open(base + '.cpp', 'w') as f:
            f.write(self.unit_source(specs))
        t = time.time()
        exe = base + '.exe'
        inc = ['-include-pch', os.path.join(d, 'pre.hpp.pch')] if (tc.pch and tc.cxx.startswith('clang')) else []
        rc, out = self.sh([tc.cxx, *tc.flags, '-I' + d, *inc, base + '.cpp', os.path.join(d, 'driver.o'), '-o', exe, '-lpthread', *self.link, *tc.link], self.compile_timeout)
        with self.lock:
            self.stats['compile_s'] += time.time() - t
        os.unlink(base + '.cpp')
        if rc != 0:
            return None, out.decode(errors='replace') if rc != -999 else '(timeout)'
        return exe, ''

    def run_unit(self, exe, specs):
        """-> list of Failure; crash/hang are reported as failures of the case they happened in"""
        fails = []
        todo = list(specs)
        byid = {s.id: s for s in specs}
        while todo:
            with open(exe + '.plan', 'w') as f:
                for s in todo:
                    f.write(self.plan_line(s))
            for x in ('.out', '.state'):
                if os.path.exists(exe + x):
                    os.unlink(exe + x)
            t = time.time()
            rc, out = self.sh([exe, exe + '.plan', exe + '.out', exe + '.state', str(self.mask), str(self.hang), *self.driver_args], self.run_timeout)
            with self.lock:
                self.stats['run_s'] += time.time() - t
            done, seen = False, set()
            if os.path.exists(exe + '.out'):
                with open(exe + '.out', errors='replace') as f, self.lock:
                    for line in f:
                        p = line.rstrip('\n').split('\t')
                        if p[0] == 'FAIL' and len(p) >= 8:
                            fails.append(Failure(byid[int(p[1])], p[2], p[3], unhex(p[4]), p[5], p[6], p[7]))
                        elif p[0] == 'CASE' and len(p) >= 8:
                            seen.add(int(p[1]))
                            st = self.stats
                            st['evaluations'] += int(p[2])
                            st['nontrivial'] += int(p[3])
                            st['matched'] += int(p[4])
                            st['skipped'] += int(p[5])
                            st['inputs'] += int(p[6])
                            st['patterns'] += 1
                        elif p[0] == 'SAMPLE' and len(p) >= 5:
                            self.samples.append((byid[int(p[1])], p[2], unhex(p[3]), p[4]))
                        elif p[0] == 'MIX':
                            self.stats['evaluations'] += int(p[1])
                            self.stats['mixed'] = self.stats.get('mixed', 0) + int(p[1])
                        elif p[0] == 'FEAT':
                            for i, v in enumerate(p[1:18]):
                                self.feat[i] += int(v)
                        elif p[0] == 'DONE':
                            done = True
            if done and rc == 0:
                break
            # crashed, hung, or sanitizer abort inside a case
            st = None
            try:
                with open(exe + '.state', 'rb') as f:
                    raw = f.read()
                sid, entry, n, op, hang = struct.unpack_from('<5q', raw)
                subj = raw[40:40 + max(0, min(n, 1 << 18))]
                st = (sid, entry, subj, hang)
            except Exception:
                pass
            if st is None or st[0] not in byid:
                raise CheckError('unit run failed outside of any case, rc=%s\n%s' % (rc, out.decode(errors='replace')[-2000:]))
            sid, entry, subj, hang = st
            if rc == -999:
                # overall time limit of the unit: not a verdict about the code
                raise CheckError('unit run exceeded %d s' % self.run_timeout)
            kind = 'hang' if hang else 'crash'
            tail = out.decode(errors='replace')
            msg = 'no result after %d s of CPU time' % self.hang if hang else 'terminated abnormally (%s): %s' % (
                signal.Signals(-rc).name if rc < 0 else 'exit %d' % rc, ' '.join(tail.split())[:300])
            fails.append(Failure(byid[sid], 'entry%d' % entry, '?', subj, kind, 'a result', msg))
            todo = [s for s in todo if s.id not in seen and s.id != sid]
        for x in ('', '.plan', '.out', '.state'):
            if os.path.exists(exe + x):
                os.unlink(exe + x)
        return fails

    def work(self, specs, tc, tag):
        """compile and run a batch; isolate specs that do not compile"""
        exe, log = self.build_unit(specs, tc, tag)
        if exe is None:
            if len(specs) == 1:
                if log == '(timeout)' and self.skip_compile_timeouts:
                    with self.lock:
                        self.stats['compile_timeouts'] = self.stats.get('compile_timeouts', 0) + 1
                    return []
                if log == '(timeout)':
                    raise CheckError('compilation of %s exceeded %d s' % (specs[0].describe(), self.compile_timeout))
                if any(x in log for x in ('internal compiler error', 'out of memory', 'Killed signal', 'PLEASE submit a bug report', 'Please submit a full bug report')):
                    # the compiler failed: no verdict about the library
                    with self.lock:
                        self.stats['compiler_failures'] = self.stats.get('compiler_failures', 0) + 1
                        if self.stats['compiler_failures'] > 20:
                            raise CheckError('compiler failures: ' + log[-500:])
                    return []
                err = [l for l in log.split('\n') if 'error' in l or 'rror:' in l]
                return [Failure(specs[0], tc.name, 'compile', b'', 'compile', 'compiles', ' '.join((err or [log])[0].split())[-400:])]
            h = len(specs) // 2
            return self.work(specs[:h], tc, tag + 'a') + self.work(specs[h:], tc, tag + 'b')
        with self.lock:
            self.stats['units'] += 1
        return self.run_unit(exe, specs)

    def run(self, specs, tc=None, batch=None, stop_at=None):
        """run all specs; returns failures. stop_at: stop submitting new batches after that many failures"""
        tc = tc or self.tc
        self.prepare(tc)
        for s in specs:
            self.n_units += 1
            s.id = self.n_units
        if batch is None:
            batch = max(1, min(self.batch, (len(specs) + JOBS - 1) // JOBS))
        groups = [specs[i:i + batch] for i in range(0, len(specs), batch)]
        for g in groups:
            for s in g:
                s.mates = g
        fails = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = []
            it = iter(enumerate(groups))
            pending = set()
            err = None
            stop = False
            while True:
                while not stop and len(pending) < JOBS * 2:
                    nxt = next(it, None)
                    if nxt is None:
                        break
                    pending.add(ex.submit(self.work, nxt[1], tc, '%d_%d' % (nxt[1][0].id, nxt[0])))
                if not pending:
                    break
                done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    try:
                        fails += f.result()
                    except CheckError as e:
                        err = err or e
                if stop_at and len(fails) >= stop_at:
                    stop = True
                if err is not None and not fails:
                    stop = True
            if err is not None and not fails:
                raise err
        return fails


def unhex(h):
    return b'' if h == '-' else bytes.fromhex(h)
