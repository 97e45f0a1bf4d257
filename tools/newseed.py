#!/usr/bin/env python3
"""newseed.py SPEC.py: SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main, kind)]; writes /verif/seeded/<id>."""
import json, os, runpy, subprocess, sys
W = '/tmp/seedwt'
for s in runpy.run_path(sys.argv[1])['SEEDS']:
  if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
  subprocess.run(['git', '-C', W, 'checkout', '-q', '--detach', subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()], check=True)
  subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
  for f, a, b in s['edits']:
    p = f'{W}/rust/{f}'; t = open(p).read()
    assert t.count(a) == 1, (s['id'], f, a, t.count(a))
    open(p, 'w').write(t.replace(a, b))
  d = f"/verif/seeded/{s['id']}"; os.makedirs(f'{d}/src', exist_ok=True)
  open(f'{d}/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
  subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
  json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
  open(f'{d}/src/main.rs', 'w').write(s['main'].lstrip())
  for k in ('matching', 'verifier'):
    if s.get('kind') == k: open(f'{d}/{k}', 'w').write('')
  subprocess.run(['python3', '/verif/tools/mkseed.py', s['id']], check=True)
  print('made', s['id'])
