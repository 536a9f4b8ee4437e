#!/usr/bin/env python3
# writes the export headers cmake would generate (static build: all macros empty)
import os, sys, re
repo, out = sys.argv[1:3]
subs = ['', 'asio', 'ev', 'wx', 'thread', 'fltk']
# any other <rotor/xxx/export.h> the tree includes
for root, _, files in os.walk(os.path.join(repo, 'include')):
    for f in files:
        p = os.path.join(root, f)
        try:
            t = open(p, errors='replace').read()
        except OSError:
            continue
        for m in re.finditer(r'#\s*include\s*[<"]rotor/(\w+)/export\.h[>"]', t):
            if m.group(1) not in subs:
                subs.append(m.group(1))
for s in subs:
    d = os.path.join(out, 'rotor', s)
    os.makedirs(d, exist_ok=True)
    n = 'ROTOR_' + (s.upper() + '_' if s else '')
    t = '#pragma once\n'
    for k in ('API', 'NO_EXPORT', 'DEPRECATED', 'DEPRECATED_EXPORT', 'DEPRECATED_NO_EXPORT'):
        t += '#ifndef %s%s\n#define %s%s\n#endif\n' % (n, k, n, k)
    p = os.path.join(d, 'export.h')
    if not os.path.exists(p) or open(p).read() != t:
        open(p, 'w').write(t)
