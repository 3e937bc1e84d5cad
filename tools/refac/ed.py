"""Helper to author a behaviour-preserving edit: ed.py NAME < script.
script: blocks '== file', then pairs '<<<' old '===' new '>>>'. A block '++ file' ... '++end' replaces the whole file.
Works on a scratch copy of /repo and stores the diff as NAME.diff"""
import subprocess, sys, os, re
name = sys.argv[1]; here = os.path.dirname(os.path.abspath(__file__))
W = '/tmp/rf/' + name
subprocess.check_call('rm -rf %s; mkdir -p /tmp/rf; cp -a /repo %s' % (W, W), shell=True)
f = None; mode = None; old = new = ''
for line in sys.stdin:
    if mode is None and line.startswith('== '): f = W + '/' + line[3:].strip()
    elif mode is None and line.startswith('++ '): f = W + '/' + line[3:].strip(); mode = 'all'; new = ''
    elif mode == 'all' and line.startswith('++end'): open(f, 'w').write(new); mode = None
    elif mode == 'all': new += line
    elif mode is None and line.startswith('<<<'): mode = 'old'; old = new = ''
    elif mode == 'old' and line.startswith('==='): mode = 'new'
    elif mode == 'new' and line.startswith('>>>'):
        s = open(f).read(); c = s.count(old)
        assert c >= 1, (f, old)
        open(f, 'w').write(s.replace(old, new)); mode = None
    elif mode == 'old': old += line
    elif mode == 'new': new += line
subprocess.call('cd %s && gofmt -w $(git diff --name-only; git ls-files -o --exclude-standard) && git add -N . && git diff > %s/%s.diff && git diff --stat | tail -1' % (W, here, name), shell=True)
