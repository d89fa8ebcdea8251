"""What every check shares: running, shrinking, replaying, evidence, verdict."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

from . import rx, refparse
from .engine import Engine, Spec, Toolchain, CheckError, Failure, F, FNAMES, VERIF, REPO, JOBS, regex_type, unhex

ENGINES = []
REPLAY_DIR = os.path.join(VERIF, 'replay')


def needs_backwards(t):
    return any((x[0] == 'L' and not x[1]) or (x[0] == 'A' and x[1] in 'bB') for x in rx.walk(t))


def other_iterators(tree, typ, seed, share=.14):
    """for a share of the cases: the same operations on other iterators than pointers"""
    rr = random.Random('other%d' % seed)
    if tree is None or rr.random() >= share:
        return ''
    k = rr.choice([0, 0, 0, 1, 1, 2])
    if needs_backwards(tree) or any(x[0] == '*' and (x[3] or x[2]) > 100 for x in rx.walk(tree)):
        k = max(k, 1)  # on forward iterators a bounded repetition is as deep as its bound, in templates
    return 'add_other<%s, %d>(c);' % (typ, k)


def basic_body(tree, pattern, flags, seed):
    T = regex_type(pattern, flags)
    return 'add_basic<%s>(c);' % T + other_iterators(tree, T, seed)


def pointer_body(tree, pattern, flags, seed):
    return 'add_basic<%s>(c);' % regex_type(pattern, flags)


class Maker:
    """Makes specs for trees; used for generation and again for shrinking."""

    def __init__(self, body=basic_body, subj=None, prelude=None):
        self.body, self.subj, self.prelude = body, dict(subj or {}), prelude

    def __call__(self, tree, pattern=None, flags=(), seed=0, extra=(), subj=None, note=''):
        if pattern is None:
            pattern = rx.show(tree)
        sj = dict(self.subj)
        sj.update(subj or {})
        b = self.body(tree, pattern, flags, seed)
        pre = ''
        if isinstance(b, tuple):
            pre, b = b
        return Spec(tree, pattern, flags, b, sj, extra, note, self, pre, seed)


def subject_cuts(s):
    out = []
    n = len(s)
    if n > 3000:
        return [x for l in (n // 2, n // 4, n // 8, 1) for x in (s[l:], s[:n - l])]
    for l in (n // 2, n // 4, 3, 2, 1):
        if l <= 0:
            continue
        for i in range(0, n - l + 1, max(1, l)):
            out.append(s[:i] + s[i + l:])
    for i, b in enumerate(s):
        if b not in b'ab':
            out.append(s[:i] + b'a' + s[i + 1:])
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r[:120]


def klass(kind):
    return 'compile' if kind == 'compile' else ('hang' if kind == 'hang' else 'behave')


def badness(f):
    return (klass(f.kind) == 'hang', rx.weight(f.spec.tree) + 3 * len(f.spec.flags), len(f.subject), len(f.spec.pattern))


def shrink(eng, f, tc, limit_s=75, ok=None):
    """structural shrinking: all one-step reductions of the tree are compiled and tried together"""
    t0 = time.time()
    mk = f.spec.tag
    cur = f
    rounds = 0
    if mk is None or klass(f.kind) == 'hang':
        return cur, rounds
    saved = dict(eng.stats), list(eng.feat), list(eng.samples)
    try:
        def attempt(cands):
            specs = []
            for tree, pattern, flags in cands:
                if ok and not ok(tree, flags):
                    continue
                try:
                    specs.append(mk(tree, pattern, flags, cur.spec.seed, extra=[cur.subject] + subject_cuts(cur.subject),
                                    subj=dict(exh=120, guided=40, rand=0, long=0, huge=0, maxlen=max(12, len(cur.subject)))))
                except Exception:
                    continue
            fs = []
            try:
                fs = eng.run(specs, tc)
            except CheckError:
                pass
            fs = [x for x in fs if klass(x.kind) == klass(f.kind)]
            return min(fs, key=badness) if fs else None
        # same tree, canonical spelling, only smaller inputs
        b = attempt([(cur.spec.tree, None, cur.spec.flags), (cur.spec.tree, cur.spec.pattern, cur.spec.flags)])
        canonical = False
        if b is not None:
            canonical = b.spec.pattern == rx.show(b.spec.tree)
            cur = b
        while time.time() - t0 < limit_s and rounds < 25:
            rounds += 1
            cands = []
            w = rx.weight(cur.spec.tree)
            for i in range(len(cur.spec.flags)):
                cands.append((cur.spec.tree, None if canonical else cur.spec.pattern, cur.spec.flags[:i] + cur.spec.flags[i + 1:]))
            for t in rx.shrinks(cur.spec.tree):
                if rx.weight(t) < w:
                    cands.append((t, None, cur.spec.flags))
            if not canonical:
                # the spelling matters: shorter texts, read again
                texts = []
                p = cur.spec.pattern
                for l in (4, 3, 2, 1):
                    for i in range(len(p) - l + 1):
                        texts.append(p[:i] + p[i + l:])
                for x in dict.fromkeys(texts):
                    try:
                        t, e = refparse.parse(x)
                    except Exception:
                        continue
                    if e is None and not refparse.semantic_problems(t) and len(cands) < 400:
                        cands.append((t, x, cur.spec.flags))
            cands = cands[:400]
            if not cands:
                break
            b = attempt(cands)
            if b is None or badness(b) >= badness(cur):
                break
            cur = b
            canonical = cur.spec.pattern == rx.show(cur.spec.tree)
    finally:
        eng.stats, eng.feat, eng.samples = saved
    return cur, rounds


def confirm(eng, f, tc, times=3):
    """the failure must show up again every time, alone"""
    saved = dict(eng.stats), list(eng.feat), list(eng.samples)
    try:
        for _ in range(times):
            s = Spec(f.spec.tree, f.spec.pattern, f.spec.flags, f.spec.body, dict(f.spec.subj or {}, exh=0, guided=0, rand=0, long=0, huge=0), [f.subject],
                     f.spec.note, f.spec.tag, f.spec.prelude, f.spec.seed)
            try:
                fs = eng.run([s], tc)
            except CheckError:
                return False
            if not any(klass(x.kind) == klass(f.kind) for x in fs):
                # carriers that make choices of their own depend on the input's index: repeat with the full plan
                s = Spec(f.spec.tree, f.spec.pattern, f.spec.flags, f.spec.body, f.spec.subj, f.spec.extra, f.spec.note, f.spec.tag, f.spec.prelude, f.spec.seed)
                try:
                    fs = eng.run([s], tc)
                except CheckError:
                    return False
                if not any(klass(x.kind) == klass(f.kind) for x in fs):
                    return False
        return True
    finally:
        eng.stats, eng.feat, eng.samples = saved


def clone(s):
    return Spec(s.tree, s.pattern, s.flags, s.body, s.subj, s.extra, s.note, s.tag, s.prelude, s.seed)


def confirm_batch(eng, f, tc, limit_s=150):
    """a failure that needs the other regexes of its unit: -> a small list of specs that fails again together, or None"""
    saved = dict(eng.stats), list(eng.feat), list(eng.samples)
    t0 = time.time()

    def fails(specs, times):
        for _ in range(times):
            try:
                fs = [x for x in eng.run([clone(s) for s in specs], tc, batch=len(specs)) if klass(x.kind) == klass(f.kind)]
            except CheckError:
                return None
            if fs:
                return fs[0]
        return None
    try:
        cur = list(f.spec.mates) or [f.spec]
        best = fails(cur, 4)
        if best is None:
            return None, None
        n = 2
        while len(cur) > 1 and time.time() - t0 < limit_s:
            step = max(1, len(cur) // n)
            for i in range(0, len(cur), step):
                rest = cur[:i] + cur[i + step:]
                x = fails(rest, 2) if rest else None
                if x is not None:
                    cur, best, n = rest, x, 2
                    break
            else:
                if step == 1:
                    break
                n *= 2
        return cur, best
    finally:
        eng.stats, eng.feat, eng.samples = saved


def write_replay(prop, data):
    os.makedirs(REPLAY_DIR, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:12]
    path = os.path.join(REPLAY_DIR, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return path


def spec_data(s):
    return dict(pattern=s.pattern.decode('latin-1'), flags=list(s.flags), model_tree=rx.serialize(s.tree), prelude=s.prelude, body=s.body, seed=s.seed, extra=[x.hex() for x in s.extra],
                subj={k: (v.hex() if isinstance(v, bytes) else v) for k, v in (s.subj or {}).items()})


def failure_data(prop, f, tc, original=None):
    d = dict(property=prop, kind=f.kind, operation=f.sem, carrier=f.carrier, input_hex=f.subject.hex(), input=f.subject.decode('latin-1'), expected=f.want, got=f.got,
             compiler=tc.cxx, compiler_flags=[x.replace(os.path.join(REPO, 'include'), '$REPO/include') for x in tc.flags], toolchain=tc.name, link=tc.link, harness=None, **spec_data(f.spec),
             legend='results: M = matched, - = not matched, then (position+length) per group from group 0, () = empty group',
             rerun='cd /verif && python3 -m vf.replay <this file>')
    if original is not None:
        d['found_as'] = original
    return d


def write_evidence(prop, tier, seed, level, coverage, t0, violations, assumptions):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(time.time() - t0, 2), violations=violations,
             assumptions=assumptions)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)


def pick_samples(eng, n=12):
    out = []
    step = max(1, len(eng.samples) // n)
    for s, sem, subj, res in eng.samples[::step][:n]:
        out.append(dict(regex=s.describe(), operation=sem, input=subj.decode('latin-1'), model_and_library_result=res))
    return out


ASSUME = ['the reference model (cpp/model.hpp) states the intended semantics; it was written from the documentation and shares no code with the library',
          'inputs on which the model needs more steps than the budget are skipped and counted as skipped_over_budget (exponential backtracking)']


class Run:
    """One execution of a check."""

    def __init__(self, prop, mask, rule, level='exploration', **eng):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.rule, self.level = rule, level
        self.eng = Engine(prop, self.tier, self.seed, mask=mask, **eng)
        ENGINES.append(self.eng)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.extra_cov = {}
        self.extra_eval = 0
        self.extra_nontrivial = 0
        self.extra_samples = []
        self.assume = list(ASSUME)
        self.violations = []
        self.shrink_ok = None
        self.impure = False  # a result that cannot be repeated is itself a violation

    def n(self, quick, factor=8):
        k = float(os.environ.get('VF_SCALE', '1'))
        return max(1, int(quick * k * (factor if self.thorough else 1)))

    def go(self, specs, tc=None, batch=None, label=None):
        """run specs; on failure shrink, confirm and report. Returns True if quiet."""
        tc = tc or self.eng.tc
        before = self.eng.stats['patterns']
        fails = self.eng.run(specs, tc, batch, stop_at=3)
        if label:
            self.extra_cov.setdefault('patterns_per_part', {})[label] = self.extra_cov.get('patterns_per_part', {}).get(label, 0) + self.eng.stats['patterns'] - before
        if not fails:
            return True
        return self.report(fails, tc)

    def report(self, fails, tc):
        fails = sorted(fails, key=badness)
        unconfirmed = []
        for f in fails[:3]:
            print('candidate violation: ' + f.text(), flush=True)
            if not confirm(self.eng, f, tc):
                unconfirmed.append(f)
                continue
            orig = dict(pattern=f.spec.pattern.decode('latin-1'), flags=list(f.spec.flags), input_hex=f.subject.hex(), expected=f.want, got=f.got, kind=f.kind)
            small, rounds = shrink(self.eng, f, tc, ok=self.shrink_ok)
            if small is not f and not confirm(self.eng, small, tc):
                small = f
            print('shrunk in %d rounds: %s' % (rounds, small.text()), flush=True)
            d = failure_data(self.prop, small, tc, orig)
            d['harness'] = self.eng.harness
            d['env'] = {k: v for k, v in self.eng.env.items() if k.endswith('SAN_OPTIONS')}
            self.violation(d)
            return False
        # not reproduced alone: perhaps the regexes of a unit influence each other
        for f in unconfirmed[:2]:
            specs, again = confirm_batch(self.eng, f, tc)
            if specs is None and self.impure and f.kind != 'crash':
                specs, again = list(f.spec.mates), f
            if specs is None:
                continue
            print('shows up only together with other regexes or operations (%d left): %s' % (len(specs), again.text()), flush=True)
            d = failure_data(self.prop, again, tc)
            d['harness'] = self.eng.harness
            d['env'] = {k: v for k, v in self.eng.env.items() if k.endswith('SAN_OPTIONS')}
            d['driver_args'] = self.eng.driver_args
            d['together_with'] = [spec_data(s) for s in specs]
            self.violation(d)
            return False
        raise CheckError('a failure was seen but could not be reproduced: ' + unconfirmed[0].text())

    def violation(self, data):
        path = write_replay(self.prop, data)
        self.violations.append(path)

    def finish(self):
        e = self.eng
        cov = dict(evaluations=e.stats['evaluations'] + self.extra_eval,
                   distinct_nontrivial=e.stats['nontrivial'] + self.extra_nontrivial,
                   rule=self.rule, samples=(pick_samples(e) + self.extra_samples)[:20],
                   patterns=e.stats['patterns'], inputs=e.stats['inputs'], matched=e.stats['matched'],
                   skipped_over_budget=e.stats['skipped'], units_compiled=e.stats['units'],
                   cpu_compile_s=round(e.stats['compile_s'], 1), cpu_run_s=round(e.stats['run_s'], 1),
                   model_features={n: c for n, c in zip(FNAMES, e.feat)})
        cov.update(self.extra_cov)
        write_evidence(self.prop, self.tier, self.seed, self.level, cov, self.t0, len(self.violations), self.assume)
        for p in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
        if not self.violations:
            print('%s held: %d evaluations, %d non-trivial, %d patterns, %.0f s' % (self.prop, cov['evaluations'], cov['distinct_nontrivial'], e.stats['patterns'], time.time() - self.t0))
        return 1 if self.violations else 0


def main(fn, prop):
    R = None
    try:
        R = fn()
        rc = R.finish()
    except CheckError as e:
        print('check error in %s: %s' % (prop, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        for e in ENGINES:
            e.close()
    sys.stdout.flush()
    return rc
