#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known-findings.txt from /repo's history; "finding:" lines are kept.
import subprocess, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {'9979d64':'C10','df76705':'C03','ea69751':'C11','bdf8815':'C11','ac24322':'C01','c7210fe':'C07','97aef4b':'C23','9a78179':'C20','30df488':'C01','68a1e4b':'C04','92e48ec':'C16',
'4b2e4f3':'C15','cceab3e':'C15','08e1cf6':'C11','b3693b4':'C01','6b04a77':'C21','90381d2':'C02','a37c05d':'C15','78bddfc':'C20','451a020':'C05','3904c5d':'C20','baa5311':'C23','e877d92':'C12',
'ac47d95':'C13','ea5ef08':'C05','d815c7a':'C05','cd8fc6e':'C05','c550bec':'C18','98028d8':'C05','a21a03b':'C05','e7f19ad':'C23','7d80096':'C23','fc3bb6c':'C23','6af91b3':'C09','8cf67ca':'C02',
'710d4e1':'C23','72f1bae':'C09','6fc27fb':'C01','f3ce9a6':'C07'}
rows = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','b0eeb42..'], text=True).strip().split('\n')
path = os.path.join(here, 'known-findings.txt')
old = [l.rstrip('\n') for l in open(path)] if os.path.exists(path) else []
keep = [l for l in old if l.startswith('finding:')]
out = ['# Defects of cxon found by the checks. "fixed:" - repaired in /repo (suppresses nothing); "finding:" - recorded, not repaired:',
       '# finding: property=ID key=KEY site="SITE" input=HEX what fails (matched exactly by property, key, site and input)']
for r in rows:
    h, m = r.split(' ', 1)
    if not m.startswith('fix:'): continue
    g = re.search(r'\((C\d\d)\)$', m)
    p = M.get(h) or (g and g.group(1))
    if not p: print('no property for', r); continue
    out.append('fixed: property=%s %s %s' % (p, h, m[5:].strip()))
open(path, 'w').write('\n'.join(out + keep) + '\n')
