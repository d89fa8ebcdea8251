"""python3 -m vf.replay FILE: runs the failing case of a replay file again on the current tree of the repository"""
import json
import sys

from . import rx
from .core import ENGINES
from .engine import Engine, Spec, Toolchain, CheckError


class Raw(Spec):
    __slots__ = ('text',)


def spec_of(d, alone=None):
    subj = {k: (bytes.fromhex(v) if k in ('small', 'big') else v) for k, v in (d.get('subj') or {}).items()}
    extra = [bytes.fromhex(x) for x in d.get('extra', [])]
    if alone is not None:
        subj.update(exh=0, guided=0, rand=0, long=0, huge=0)
        extra = [alone]
    subj.setdefault('small', b'ab')
    subj.setdefault('big', b'ab')
    s = Raw(('E',), d['pattern'].encode('latin-1'), d['flags'], d['body'], subj, extra, '', None, d['prelude'], d['seed'])
    s.text = d['model_tree']
    return s


def main(path):
    d = json.load(open(path))
    print('property %s: %s' % (d['property'], d['kind']))
    if d['property'] == 'C09' and 'tree' not in d and 'model_tree' not in d:
        from . import checks2
        from .core import Run
        R = Run('C09', 0, '')
        p = bytes.fromhex(d['pattern_hex'])
        if d['kind'] == 'verdict':
            got = checks2.vtext(checks2.Verdicts(R).compile([p], d['compiler'])[0])
        else:
            got = 'compiles' if checks2.compiles_alone(R, p)[0] else 'rejected'
        print('pattern %s\nexpected: %s\ngot:      %s' % (rx.cpp_string(p), d['expected'], got))
        return 0 if got == d['expected'] or (d['kind'] == 'compiles' and got == 'rejected') else 1
    eng = Engine(d['property'], 'quick', 1, mask=0, harness=d['harness'], env=d.get('env'))
    ENGINES.append(eng)
    eng.serialize = lambda s: s.text
    eng.driver_args = list(d.get('driver_args', []))
    flags = [f for f in d['compiler_flags'] if not f.startswith('-I') and f not in ('-std=c++20', '-w', '-ftemplate-depth=4096', '-fbracket-depth=4096')]
    tc = Toolchain(d['compiler'], flags, name=d.get('toolchain'), extra_driver=d.get('link', ()))
    if 'together_with' in d:
        tries = [[spec_of(x) for x in d['together_with']] for _ in range(4)]
    else:
        tries = [[spec_of(d, bytes.fromhex(d['input_hex']))], [spec_of(d)]]
    print('regex<%s%s>, %s (%s), input %r' % (rx.cpp_string(d['pattern'].encode('latin-1')), ''.join(', ' + f for f in d['flags']), d['operation'], d['carrier'], bytes.fromhex(d['input_hex'])))
    print('recorded: expected %s, got %s' % (d['expected'], d['got']))
    for specs in tries:
        fs = eng.run(specs, tc, batch=len(specs))
        for f in fs:
            print('now:      expected %s, got %s [%s %s]' % (f.want, f.got, f.sem, f.carrier))
        if fs:
            return 1
    print('now:      as expected')
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except CheckError as e:
        print('replay error: %s' % e)
        rc = 3
    finally:
        for e in ENGINES:
            e.close()
    sys.exit(rc)
