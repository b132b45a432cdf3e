#!/usr/bin/env python3
"""Apply each behaviour-preserving edit of tools/refactors/*.py to a scratch copy of the header and run checks on it.
Every check must exit 0.  usage: refactor.py [name-prefix ...] [--jobs N] [--all]
A refactor file defines REFACTORS = [(name, [(old, new[, nth])...], [check ids])]."""
import sys, os, glob, subprocess, shutil, importlib.util, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
args = [a for a in sys.argv[1:] if not a.startswith('-')]
SRC = open('/repo/include/dsga.hxx').read()
ALL = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(V + '/sa/checks/[a-z][0-9][0-9].py'))
bad = 0
for f in sorted(glob.glob(HERE + '/refactors/*.py')):
    spec = importlib.util.spec_from_file_location('r', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for name, edits, checks in m.REFACTORS:
        if args and not any(name.startswith(a) for a in args): continue
        s = SRC
        err = None
        for e in edits:
            old, new = e[0], e[1]
            n = s.count(old)
            if n == 0: err = 'missing: ' + old[:60]; break
            if len(e) > 2 and e[2] == 'all': s = s.replace(old, new)
            elif len(e) > 2:
                i = -1
                for _ in range(e[2]): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            else:
                if n != 1: err = 'ambiguous(%d): ' % n + old[:60]; break
                s = s.replace(old, new)
        if err: print(name, 'EDIT', err); bad += 1; continue
        d = '/tmp/refac.%d' % os.getpid(); os.makedirs(d + '/include', exist_ok=True)
        open(d + '/include/dsga.hxx', 'w').write(s)
        r = subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-I' + d + '/include', '-I/repo/dev_3rd', '/repo/tests/function_test.cxx'], capture_output=True, text=True)
        if r.returncode: print(name, 'NOCOMPILE', r.stderr[:600]); bad += 1; continue
        for c in (ALL if '--all' in sys.argv else checks):
            t = time.time()
            r = subprocess.run([sys.executable, V + '/sa/run.py', c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d))
            st = 'ok' if r.returncode == 0 else 'ALARM(%d)' % r.returncode
            print('%-32s %s %s %.0fs' % (name, c, st, time.time() - t), flush=True)
            if r.returncode: bad += 1; print('\n'.join((r.stdout + r.stderr).splitlines()[-8:]))
        shutil.rmtree(d)
sys.exit(1 if bad else 0)
