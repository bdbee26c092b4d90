#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.seed and confirms each one.

usage: seed.py [-n] [ID...]     (-n: keep going without the tests of the repository)
A definition file holds: a header of "key: value" lines (property, needs, breaks), then
"@@ file" sections with "<<<" old "===" new ">>>" edits, then "@@ demo" with the body of the Go demo.
"""
import json, os, re, shutil, subprocess, sys, glob
V = '/verif'; S = V + '/tools/seeds'
IMPORTS = {'bytes':'bytes','context':'context','errors':'errors','fmt':'fmt','io':'io','net':'net','http':'net/http','strings':'strings','sync':'sync','atomic':'sync/atomic','testing':'testing','time':'time','utf8':'unicode/utf8','json':'encoding/json','binary':'encoding/binary','runtime':'runtime','os':'os','bufio':'bufio','slices':'slices','sort':'sort','math':'math'}
def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(['bash','-c',cmd],cwd=cwd,capture_output=True,text=True,timeout=t)
        return p.returncode, p.stdout+p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def parse(path):
    txt = open(path).read()
    head, *secs = re.split(r'^@@ ', txt, flags=re.M)
    d = dict(l.split(': ',1) for l in head.strip().splitlines())
    edits = []; demo = None
    for s in secs:
        name, body = s.split('\n',1)
        if name.strip() == 'demo': demo = body
        else:
            for m in re.finditer(r'<<<\n(.*?)===\n(.*?)>>>\n', body, flags=re.S):
                edits.append((name.strip(), m.group(1), m.group(2)))
    return d, edits, demo
def build(id):
    d, edits, demo = parse(f'{S}/{id}.seed')
    w = f'/tmp/seedw.{id}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp','-a','/repo',w],check=True)
    try:
        for f, old, new in edits:
            p = f'{w}/{f}'; t = open(p).read()
            if t.count(old) != 1: return f'{id}: edit of {f} matches {t.count(old)} times:\n{old}'
            open(p,'w').write(t.replace(old,new))
        diff = subprocess.run(['git','diff'],cwd=w,capture_output=True,text=True,check=True).stdout
        out = f'{V}/seeded/{id}'; os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        shutil.copy(S+'/helper_test.go',out); shutil.copy(S+'/demo.sh',out); os.chmod(out+'/demo.sh',0o755)
        if d.get('race'): open(out+'/demo.sh','r+').write(open(S+'/demo.sh').read().replace('go test ','go test -race '))
        imps = [IMPORTS[k] for k in IMPORTS if re.search(r'(?<![\w.])'+k+r'\.[A-Z]', demo)]
        if 'testing' not in imps: imps.append('testing')
        go = 'package snapws_test\n\nimport (\n' + ''.join(f'\t"{i}"\n' for i in sorted(imps)) + ('\n\tsnapws "github.com/Atheer-Ganayem/SnapWS"\n' if 'snapws.' in demo else '') + ')\n\n' + demo
        open(out+'/demo_test.go','w').write(go)
        sh(f'. /opt/vp/env.sh; gofmt -w {out}/*.go', w)
        json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(out+'/meta.json','w'),indent=1)
        # original lines
        blame = set()
        for l in diff.splitlines():
            if l.startswith('--- a/'): f = l[6:]
        removed = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        base = ''
        for f in set(f for f,_,_ in edits):
            base += subprocess.run(['git','show',f'1ee6d84:{f}'],cwd='/repo',capture_output=True,text=True).stdout
        orig = sum(1 for l in removed if l[1:].strip() and l[1:] in base.splitlines())
        # the unchanged tree
        rc0, o0 = sh(out+'/demo.sh', '/repo')
        rc1, o1 = sh(out+'/demo.sh', w)
        rct, ot = sh('. /opt/vp/env.sh; go vet . >/dev/null && go test -count=1 .', w) if '-n' not in sys.argv else (0,'')
        ok = rc0 == 0 and rc1 != 0 and rct == 0 and orig > 0 and 'build failed' not in o1
        msg = f'{"OK " if ok else "BAD"} {id} {d["property"]}: demo {rc0}/{rc1} tests {rct} orig lines {orig}/{len(removed)}'
        if not ok:
            msg += '\n' + (o0[-1500:] if rc0 else '') + (o1[-1500:] if rc1==0 or 'build failed' in o1 else '') + (ot[-1500:] if rct else '')
        return msg
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.path.basename(p)[:-5] for p in glob.glob(S+'/*.seed'))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(6) as ex:
    for m in ex.map(build, ids): print(m, flush=True)
