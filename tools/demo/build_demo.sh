#!/bin/bash
# usage: build_demo.sh SRC OUT   -- compiles one C++ file against the nimble library built in ./_build (cwd = repository)
python3 - "$1" "$2" <<'PY'
import re, sys, subprocess, shlex
src, out = sys.argv[1:]
t = open('_build/build.ninja').read()
i = t.index('build unit_tests/CMakeFiles/NimbleSM_Unit.dir/nimble_unit_main.cc.o:')
blk = t[i:t.index('\n\n', i)]
g = lambda k, b: (re.search(r'^  %s = (.*)$' % k, b, re.M) or [None, ''])[1]
j = t.index('build unit_tests/NimbleSM_Unit:')
lnk = t[j:t.index('\n\n', j)]
libs = g('LINK_LIBRARIES', lnk).replace('libnimble.a', '_build/libnimble.a')
cmd = ['g++'] + shlex.split(g('DEFINES', blk)) + shlex.split(g('FLAGS', blk)) + ['-O0', '-g0', '-w'] + shlex.split(g('INCLUDES', blk)) + ['-Isrc', src, '-o', out] + shlex.split(libs)
sys.exit(subprocess.call(cmd))
PY
