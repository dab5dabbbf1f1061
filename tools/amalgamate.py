#!/usr/bin/env python3
"""Inline the "hsm/..." includes of include/hsm/hsm.h the way quom does (the
repository's generator, which is not installed here).  usage: amalgamate.py INC OUT"""
import os, re, sys
inc, dst = sys.argv[1:3]
seen, out = set(), []
def go(p):
    for line in open(p).read().splitlines():
        m = re.match(r'\s*#\s*include\s+"([^"]+)"', line)
        if m:
            q = os.path.join(inc, m.group(1))
            if not os.path.exists(q):
                q = os.path.join(os.path.dirname(p), m.group(1))
            q = os.path.normpath(q)
            if q not in seen:
                seen.add(q)
                go(q)
        elif not re.match(r'\s*#\s*pragma once', line):
            out.append(line.rstrip())
seen.add(os.path.normpath(inc + '/hsm/hsm.h'))
go(inc + '/hsm/hsm.h')
s = re.sub(r'\n\n\n+', '\n\n', '#pragma once\n' + '\n'.join(out) + '\n')
open(dst, 'w').write(s)
