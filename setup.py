#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is present; the checks build everything else themselves."""
import os, subprocess, sys, tempfile
src = '#include <cstdio>\nint main(){puts("ok");}'
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.cpp')
    open(p, 'w').write(src)
    for flags in (['-fsanitize=address,undefined'], ['-fsanitize=thread']):
        r = subprocess.run(['g++', '-std=c++20', *flags, p, '-o', os.path.join(d, 'a')])
        if r.returncode:
            sys.exit('g++ %s does not work' % flags)
print('setup ok')
