#!/usr/bin/env python3
"""tools/mutfn.py CHECKS FILE FUNCTION: run checks with the body of FUNCTION replaced by stdin"""
import re, subprocess, sys
checks, f, fn = sys.argv[1:4]
s = open('/repo/' + f).read()
m = re.search(r'^%s \([^;{]*\)\s*\n\{' % fn, s, re.M)
a = m.end() - 1; b = s.index('\n}', a) + 2
q = lambda x: x.replace('\\', '\\\\')
subprocess.run(['/verif/tools/mutate.py', checks, f, q(s[m.start():b]), q(s[m.start():a] + sys.stdin.read().strip())])
