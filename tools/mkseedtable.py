#!/usr/bin/env python3
"""Runs each planted bug of seeded/ against its property's quick check (on a
copy of /repo and of the harness, so that the corpus is used or left out) and
writes the table in DESIGN.md.

usage: tools/mkseedtable.py [run [NAME...]]   run (all or the named) and write the table
       tools/mkseedtable.py                   write the table from the last results
Results are kept in tools/seedresults.json."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
RES = os.path.join(V, 'tools', 'seedresults.json')
try:
    results = json.load(open(RES))
except FileNotFoundError:
    results = {}


def sh(cmd, **kw):
    return subprocess.run(['bash', '-c', f'. {V}/env.sh; ' + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def run(name):
    meta = json.load(open(f'{V}/seeded/{name}/meta.json'))
    pid = meta['property']
    d = tempfile.mkdtemp(prefix='verif-seed-', dir='/tmp')
    os.chmod(d, 0o755)
    try:
        shutil.copytree(REPO, d + '/repo', symlinks=True)
        shutil.copytree(V + '/harness', d + '/harness')
        r = sh(f'cd {d}/repo && git apply {V}/seeded/{name}/patch.diff')
        if r.returncode:
            return 'does not apply'
        mod = open(d + '/harness/go.mod').read().replace('=> /repo', f'=> {d}/repo')
        open(d + '/harness/go.mod', 'w').write(mod)
        race = '-race' if pid == 'C05' else ''
        r = sh(f'cd {d}/harness && go build {race} -o {d}/verif . && cd {d}/repo && go build -o {d}/cljfmt ./cljfmt')
        if r.returncode:
            return 'does not build'
        os.mkdir(d + '/v')
        env = dict(os.environ, VERIF_SEED='1', VERIF_CLJFMT=d + '/cljfmt', VERIF_REPO=d + '/repo')
        # without the corpus: the cases there are for repaired defects
        r = sh(f'timeout 900 {d}/verif run -prop {pid} -verif {d}/v -tier quick', env=env)
        hit = any(l.startswith(f'VIOLATION property={pid} ') for l in r.stdout.splitlines())
        return 'caught' if r.returncode == 1 and hit else f'missed ({r.returncode})'
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = sorted(os.listdir(V + '/seeded'))
if sys.argv[1:2] == ['run']:
    for n in sys.argv[2:] or names:
        results[n] = run(n)
        print(n, results[n], flush=True)
        json.dump({k: results[k] for k in sorted(results) if k in names}, open(RES, 'w'), indent=1)

rows = []
for n in names:
    meta = json.load(open(f'{V}/seeded/{n}/meta.json'))
    needs = meta['needs'].replace('|', '\\|').replace('\n', ' ')
    rows.append((meta['property'], n, results.get(n, 'not run'), needs))
rows.sort()
caught = sum(r[2] == 'caught' for r in rows)
text = f'{len(rows)} planted bugs, {caught} caught by the quick check of their property (seed 1, without the corpus).\n\n'
text += '| property | bug | check | needs |\n|---|---|---|---|\n'
text += ''.join('| ' + ' | '.join(r) + ' |\n' for r in rows)
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seedtable -->\n', '<!-- /seedtable -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + text + s[j:])
