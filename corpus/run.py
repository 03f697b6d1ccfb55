#!/usr/bin/env python3
"""Regression corpus of the analyser: edits of the repository, each with the verdict expected.
usage: run.py [-b] FILE...   (-b: also build and vet the edited tree)
A corpus file holds cases:
  # case NAME PROPS quiet|caught
  @@ file
  old text
  ====
  new text
Several @@ blocks per case. Works on a scratch copy of /repo."""
import sys, os, subprocess, shutil, re, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
build = '-b' in sys.argv
only = [a[2:] for a in sys.argv[1:] if a.startswith('-n')]
files = [a for a in sys.argv[1:] if not a.startswith('-')]
cases = []
for f in files:
    cur = None; blk = None
    for line in open(f):
        if line.startswith('# case '):
            _, _, name, props, exp = line.split()
            cur = dict(name=os.path.basename(f).split('.')[0]+'/'+name, props=props.split(','), exp=exp, blocks=[])
            cases.append(cur); blk = None
        elif line.startswith('@@ '):
            blk = [line[3:].strip(), '', None]
            cur['blocks'].append(blk)
        elif blk is not None:
            if line.strip() == '====' and blk[2] is None:
                blk[2] = ''
            elif blk[2] is None:
                blk[1] += line
            else:
                blk[2] += line
AREA = {'core/manager/': 'C01 C02 C03 C04 C05 C06 C07 C14 C19 C20', 'core/xdsresource/': 'C01 C05 C07 C08 C11 C12 C13 C17', 'xdssuite/': 'C07 C08 C09 C10 C15 C16 C17 C18 C20', '': 'C20'}
if '-q' in sys.argv:
    # the quiet cases, on every property of the area they touch
    cases = [c for c in cases if c['exp'] == 'quiet']
    for c in cases:
        ps = set()
        for b in c['blocks']:
            ps |= set(next(v for k, v in AREA.items() if b[0].startswith(k)).split())
        c['props'] = sorted(ps)
if only: cases = [c for c in cases if any(o in c['name'] for o in only)]
subprocess.run([V+'/setup.sh'], check=True)
env = dict(os.environ)
def run(c):
    d = tempfile.mkdtemp(prefix='xvc', dir='/tmp')
    try:
        subprocess.run(['cp','-a','/repo/.',d], check=True)
        for f, old, new in c['blocks']:
            p = d+'/'+f
            s = open(p).read() if os.path.exists(p) else ''
            old = old.rstrip('\n'); new = (new or '').rstrip('\n')
            if old == '':
                s = s + '\n' + new + '\n'
            else:
                if s.count(old) != 1: return c['name']+': PATCH old text found %d times in %s: %s' % (s.count(old), f, old[:60])
                s = s.replace(old, new)
            open(p,'w').write(s)
        if build:
            r = subprocess.run('source /opt/vp/env.sh; go build ./... && go vet ./core/... ./xdssuite/...', shell=True, executable='/bin/bash', cwd=d, capture_output=True, text=True, errors='replace')
            if r.returncode: return c['name']+': BUILD '+r.stderr[-600:]
        out = []
        for p in c['props']:
            w = tempfile.mkdtemp(prefix='xve', dir='/tmp')
            os.mkdir(w+'/evidence'); os.symlink(V+'/refs', w+'/refs')
            for k in ('known_findings.txt',):
                if os.path.exists(V+'/'+k): os.symlink(V+'/'+k, w+'/'+k)
            r = subprocess.run([V+'/bin/xv','check',p,d,w], capture_output=True, text=True, errors='replace')
            v = {0:'quiet',1:'caught'}.get(r.returncode, 'ERR%d'%r.returncode)
            s = p+'='+v
            if v == 'caught' and ':undecided' in r.stdout or 'undecided:' in r.stdout: s += '(undecided)'
            if v != c['exp'] or 'undecided' in s:
                s += '\n      ' + '\n      '.join(l[:300] for l in (r.stdout+r.stderr[-500:]).split('\n')[:int(os.environ.get('N','6'))])
            out.append(s)
            shutil.rmtree(w)
        ok = any(o.startswith(p+'='+c['exp']) for o in out for p in c['props']) if c['exp']=='caught' else all('=quiet' in o for o in out)
        return ('ok   ' if ok else 'BAD  ')+c['name']+': '+' '.join(out)
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, cases): print(r, flush=True)
