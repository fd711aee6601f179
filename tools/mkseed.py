#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes and validates seeded bugs.
A spec file defines: id, prop, needs, breaks, edits=[(file,old,new)], pkg, test (Go test source, TestSeededDemo)."""
import sys,os,subprocess,json,shutil,tempfile
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
printf '{"Replace":{"%%s/%s/zz_seeded_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
timeout 120 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 100s -run '^TestSeededDemo$' ./%s
rc=$?
rm -rf "$t"
exit $rc
'''
def run(c,cwd,timeout=300):
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout,executable='/bin/bash')
def main():
    for f in sys.argv[1:]:
        ns={}
        exec(open(f).read(),ns)
        d='/verif/seeded/'+ns['id']
        t=tempfile.mkdtemp()
        r=t+'/repo'
        subprocess.run(['cp','-a','/repo',r],check=True)
        ok=True
        for p,a,b in ns['edits']:
            s=open(r+'/'+p).read()
            if s.count(a)!=1:
                print(ns['id'],'edit does not apply once',p,s.count(a)); ok=False; break
            open(r+'/'+p,'w').write(s.replace(a,b))
        if not ok: shutil.rmtree(t); continue
        diff=run('git diff',r).stdout
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(ns['test'])
        open(d+'/demo.sh','w').write(DEMO%(ns['pkg'],ns['pkg'])); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":ns['prop'],"needs":ns['needs'],"what_it_breaks":ns['breaks']},open(d+'/meta.json','w'),indent=1)
        b=run('. /opt/vp/env.sh; go build ./... ; go test ./... 2>&1 | tail -30',r)
        x=run('. /opt/vp/env.sh; go build -o %s/texted ./cmd/texted; for f in tests/*.xml; do timeout 8 %s/texted test $f >/dev/null 2>&1 && echo PASS $f; done'%(t,t),r)
        base=[l for l in json.load(open('/opt/vp/BASELINE.json'))['stable'] if l.endswith('.xml')]
        lost=[l for l in base if 'PASS '+l not in x.stdout.split('\n')]
        if lost: print(ns['id'],'fails',lost)
        tests='FAIL' not in b.stdout and b.returncode==0 and not lost
        with_=run(d+'/demo.sh',r); without=run(d+'/demo.sh','/repo')
        good=tests and with_.returncode!=0 and without.returncode==0
        print(ns['id'],ns['prop'],'OK' if good else 'BAD','tests',tests,'demo with',with_.returncode,'without',without.returncode)
        if not good:
            print(b.stdout[-1500:],b.stderr[-800:],with_.stdout[-500:],without.stdout[-800:])
        shutil.rmtree(t)
main()
