#!/usr/bin/env python3
"""Builds and validates the planted bugs: run.py [-n (no check)] [id...]
Each bug is described in seeds.txt; see parse()."""
import json, os, re, subprocess, sys, time
here = os.path.dirname(os.path.abspath(__file__))
REPO, OUT = '/repo', '/verif/seeded'

def parse():
    bugs, cur, sec, sub = [], None, None, None
    for line in open(here + '/seeds.txt'):
        if line.startswith('#### '):
            cur = dict(id=line.split()[1], prop=line.split()[2], needs='', breaks='', edits=[], demo=''); bugs.append(cur); sec = None
        elif line.startswith('## needs: '): cur['needs'] = line[10:].strip()
        elif line.startswith('## breaks: '): cur['breaks'] = line[11:].strip()
        elif line.startswith('## file: '): cur['edits'].append([line[9:].strip(), '', '']); sec = 1
        elif line.startswith('## with') : sec = 2
        elif line.startswith('## demo'): sec = 'demo'
        elif sec in (1, 2): cur['edits'][-1][sec] += line
        elif sec == 'demo': cur['demo'] += line
    return bugs

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    args = sys.argv[1:]
    nocheck = '-n' in args
    only = [a for a in args if not a.startswith('-')]
    assert sh('git -C /repo status --porcelain').stdout.strip() == ''
    for b in parse():
        if only and not any(re.fullmatch(o, b['id']) for o in only): continue
        d = OUT + '/' + b['id']
        os.makedirs(d, exist_ok=True)
        for f in ('demo.sh', 'stub.go'): sh('cp %s/%s %s/' % (here, f, d))
        demo = b['demo']
        if not demo.lstrip().startswith('package'): demo = 'package main\n' + demo
        open(d + '/main.go', 'w').write(demo)
        sh('gofmt -w %s/main.go' % d)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
        try:
            for f, old, new in b['edits']:
                s = open(REPO + '/' + f).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(REPO + '/' + f, 'w').write(s.replace(old, new))
                sh('gofmt -w ' + REPO + '/' + f)
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            # do the changed lines belong to the original repository?
            orig = 0
            for f, old, new in b['edits']:
                bl = sh('git -C /repo blame -s HEAD -- ' + f).stdout.splitlines()
                diff = sh('git -C /repo diff -U0 -- ' + f).stdout
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', diff, re.M):
                    n = int(m[2] or 1)
                    for i in range(int(m[1]), int(m[1]) + n):
                        if 'ca299a0' in bl[i-1][:10]: orig += 1
            rb = sh('bash /opt/vp/build.sh', cwd=REPO)
            rt = sh('bash /opt/vp/test.sh /tmp/seedt.json | tail -1', cwd=REPO).stdout.strip()
            bad = json.load(open('/tmp/seedt.json'))
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
            res = '-'
            if not nocheck:
                t = time.time()
                rc = sh('timeout 900 ./e check %s verifh/%s' % (b['prop'], b['prop'].lower()), cwd='/verif')
                v = [l for l in rc.stdout.splitlines() if l.startswith('VIOLATION property=%s' % b['prop'])]
                res = '%s exit=%d viol=%d %.0fs' % ('CAUGHT' if rc.returncode == 1 and v else 'MISSED', rc.returncode, len(v), time.time() - t)
                if not (rc.returncode == 1 and v): open('/tmp/seed-%s.log' % b['id'], 'w').write(rc.stdout)
        finally:
            sh('git -C /repo checkout -- .')
        ok = r0.returncode == 0 and rb.returncode == 0 and r1.returncode not in (0, 3) and '154 passed' in rt and orig > 0
        print('%-28s %s %s demo=%d/%d orig=%d build=%d tests=%s check=%s' % (b['id'], b['prop'], 'OK' if ok else 'INVALID', r0.returncode, r1.returncode, orig, rb.returncode, rt, res), flush=True)
        if not nocheck and ok:
            rf = here + '/results.json'
            try: rs = json.load(open(rf))
            except Exception: rs = {}
            hs = sorted({l.split(':')[0] for l in rc.stdout.splitlines() if l.startswith('H_')})
            rs[b['id']] = dict(property=b['prop'], caught='CAUGHT' in res, by=hs, needs=b['needs'])
            json.dump(rs, open(rf, 'w'), indent=1, sort_keys=True)
        if r0.returncode: print(r0.stdout[-800:])
        if r1.returncode == 3: print(r1.stdout[-800:])
        if not nocheck is None and '-v' in args: print(r1.stdout[-500:])
main()
