#!/usr/bin/env python3
"""Checks the toolchain and warms the compiler cache with the build variants."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
sys.dont_write_bytecode = True
import build

for v in build.VARIANTS:
    try:
        build.sim(v)
        print('built', v)
    except build.BuildError as e:
        print('variant %s does not build: %s' % (v, e))


def resources():
    build.sim('dbg', name='res', resource='res')


def sanitized():
    import p15
    for f in (p15.asan, p15.msan, p15.asan_other, p15.plain):
        f()
    p15.wild('asan')
    p15.wild('msan')


def determinism():
    import p16
    p16.builds()


def statistics():
    import p19
    p19.builds()


def settings():
    import p17
    for n, e in p17.builds()[1].items():
        print('setting %s does not build: %s' % (n, e))


for f in (resources, build.refstep, build.fpunit, build.mkckpt, sanitized, determinism,
          statistics, settings):
    try:
        f()
        print('built', f.__name__)
    except build.BuildError as e:
        print('%s does not build: %s' % (f.__name__, e))
