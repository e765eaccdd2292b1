#!/usr/bin/env python3
"""Compare the calls the interposition records with the kernel's view (strace) of the same run."""
import re, subprocess, sys, os, tempfile
zmc = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../mc/target/debug/zmc')
st = tempfile.mktemp()
out = subprocess.run(['strace', '-f', '-y', '-e', 'trace=%file,%desc,flock,ftruncate', '-o', st, zmc, 'trace'],
                     capture_output=True, text=True, env=dict(os.environ, ZMC_VERIF='/verif')).stdout
ours = {}
for l in out.split('\n'):
    m = re.match(r'(\w+)\((/h[^,)]*)', l)
    if m:
        k = (m.group(1).lower(), m.group(2)); ours[k] = ours.get(k, 0) + 1
names = {'openat': 'open', 'open': 'open', 'mkdir': 'mkdir', 'mkdirat': 'mkdir', 'unlink': 'unlink', 'unlinkat': 'unlink', 'rmdir': 'rmdir',
         'write': 'write', 'writev': 'write', 'read': 'read', 'ftruncate': 'trunc', 'flock': 'flock', 'rename': 'rename', 'renameat2': 'rename'}
kern = {}
base = None
for l in open(st):
    m = re.match(r'\d+ +(\w+)\((.*)\) += +(-?\d+)', l)
    if not m or m.group(1) not in names: continue
    call, args = m.group(1), m.group(2)
    p = re.findall(r'"(/[^"]*)"', args) if call not in ('write', 'writev', 'read', 'ftruncate', 'flock') else re.findall(r'^\d+<([^>]*)>', args)
    if not p: continue
    p = p[0]
    m2 = re.match(r'(.*/w\d+/\d+/h)(/.*)?$', p)
    if not m2: continue
    if 'O_DIRECTORY' in args or 'O_PATH' in args: continue  # listings, and the interposition's own lookups
    k = (names[call], '/h' + (m2.group(2) or '')); kern[k] = kern.get(k, 0) + 1
os.unlink(st)
bad = 0
for k in sorted(set(ours) | set(kern)):
    if k[0] not in set(names.values()): continue
    a, b = ours.get(k, 0), kern.get(k, 0)
    # locks are decided by the scheduler; the snapshot at the end of a run also opens and reads
    if b > a:
        print('the kernel sees more:', k, 'recorded', a, 'kernel', b); bad += 1
    if b < a and k[0] in ('mkdir', 'unlink', 'rmdir', 'write', 'trunc', 'open'):
        print('recorded only:', k, a, b); bad += 1
print(sum(ours.values()), 'recorded calls,', sum(kern.values()), 'seen by the kernel,', bad, 'differences')
sys.exit(bad > 0)
