#!/usr/bin/env python3
"""Checks that the toolchain the checks rely on works (checks build everything from /repo themselves)."""
import os, subprocess, sys, tempfile
src = '#include <vector>\nint main(){std::vector<int> v(3);return int(v.size())-3;}\n'
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.cpp')
    open(f, 'w').write(src)
    for cmd in (['clang++', '-fsanitize=address,undefined'], ['clang++', '-fsanitize=thread'], ['g++', '-fsanitize=address,undefined']):
        e = os.path.join(d, 'a')
        if subprocess.call(cmd + ['-std=c++17', f, '-o', e]) or subprocess.call([e]):
            print('not working:', cmd)
            sys.exit(1)
print('toolchain ok')
