#!/usr/bin/env python3
"""Replays one violation: rebuilds its driver from /repo's working tree and runs the one case that failed."""
import sys, os, json, tempfile, shutil, subprocess
sys.argv, path = sys.argv[:1], sys.argv[1]
import run as R
v = json.load(open(path))
job = next(j for j in R.J.PROPS[v['property']]['jobs'] if j['src'] == v['src'] and v['mode'] in j['modes'])
tmp = tempfile.mkdtemp(prefix='verif.replay.')
try:
    exe, _ = R.build((job, v['cfg'], tuple(tuple(d) for d in v['defs'])), tmp)
    cmd = [exe, v['mode'], '--seed', str(v['seed']), '--only', str(v['idx'])] + (['--arg', v['arg']] if v.get('arg') else [])
    if v['cfg'] == 'v': cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
    sys.stdout.flush(); sys.exit(subprocess.call(cmd, env=R.ENV))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
