"""setup: the tools are there, the driver and its model build, and the two independent readings of patterns agree with each other"""
import random
import subprocess
import sys
import tempfile
import os

from . import rx, refparse
from .engine import CPP, INC


def main():
    r = random.Random(7)
    n = 0
    for _ in range(1500):
        g = rx.Gen(r, depth=r.choice([1, 2, 3, 4]), alphabet=b'ab1')
        t = g.make()
        for p in (rx.show(t), rx.spell(t, r, .3)):
            u, err = refparse.parse(p)
            if err is not None:
                print('printer and parser disagree on %r: error at %s' % (p, err))
                return 1
            if refparse.canon(u) != refparse.canon(t):
                print('printer and parser disagree on %r' % p)
                return 1
            n += 1
    with tempfile.TemporaryDirectory() as d:
        for cxx in ('g++', 'clang++'):
            subprocess.run([cxx, '-std=c++20', '-fsyntax-only', '-w', '-I' + CPP, '-I' + INC, os.path.join(CPP, 'driver.cpp')], check=True)
    print('self-test passed: %d printed patterns read back, driver compiles' % n)
    return 0


if __name__ == '__main__':
    sys.exit(main())
