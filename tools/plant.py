#!/usr/bin/env python3
"""plant.py SPEC.py...: builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], and DEMO (a Go
test file for package DEMO_PKG) or DEMO_SH (+ FILES {name: text})."""
import sys,os,subprocess,shutil,tempfile,json
REPO='/repo'; OUT='/verif/seeded'
SH='''#!/bin/bash
# exit 0 if the property holds on the demonstration, nonzero if not
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
cat > "$w/o.json" <<J
{"Replace": {"$PWD/PKG/zz_demo_test.go": "$d/demo.go.txt"}}
J
cp go.mod "$w/go.mod"; cp go.sum "$w/go.sum"
go test RACE-modfile="$w/go.mod" -overlay "$w/o.json" -count=1 -timeout 120s -run TestDemo ./PKG
'''
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
  for spec in sys.argv[1:]:
    g={'RACE':''}; exec(open(spec).read(),g)
    d=os.path.join(OUT,g['ID']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp(prefix='plant-',dir='/tmp'); wt=os.path.join(w,'repo')
    try:
        subprocess.check_call(['cp','-a',REPO,wt])
        if 'DEMO' in g:
            open(d+'/demo.go.txt','w').write(g['DEMO'])
            open(d+'/demo.sh','w').write(SH.replace('PKG',g['DEMO_PKG']).replace('RACE',g['RACE']))
        else:
            open(d+'/demo.sh','w').write(g['DEMO_SH'])
        for n,t in g.get('FILES',{}).items(): open(os.path.join(d,n),'w').write(t)
        os.chmod(d+'/demo.sh',0o755)
        r=run(['bash',d+'/demo.sh'],wt)
        ok0=r.returncode==0
        if not ok0: print(r.stdout[-1500:])
        for f,a,b in g['EDITS']:
            p=os.path.join(wt,f); s=open(p).read()
            assert s.count(a)==1,(g['ID'],f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        diff=run(['git','diff'],wt).stdout
        open(d+'/patch.diff','w').write(diff)
        # changed lines must be lines of the original repository
        import re
        u0=run(['git','diff','-U0'],wt).stdout; cur=None; orig=own=0
        for l in u0.splitlines():
            if l.startswith('--- a/'): cur=l[6:]
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
            if m:
                a=int(m[1]); n=int(m[2] or 1)
                if n:
                    bl=run(['git','blame','-s','-L%d,%d'%(a,a+n-1),'HEAD','--',cur],REPO).stdout.splitlines()
                    for x in bl:
                        if x.startswith('^') : orig+=1
                        else: own+=1
        if own or not orig: print(g['ID'],'WARNING: changes',own,'own lines,',orig,'original lines')
        b=run(['bash','-c','. /opt/vp/env.sh; go vet ./... >/dev/null 2>&1; go build ./... && go test ./... 2>&1 | grep -v "no test files"'],wt)
        bad=('FAIL' in b.stdout) or b.returncode not in (0,)
        r=run(['bash',d+'/demo.sh'],wt)
        okn=r.returncode!=0 and 'build failed' not in r.stdout
        json.dump(dict(property=g['PROPERTY'],needs=g['NEEDS'],what_it_breaks=g['BREAKS']),open(d+'/meta.json','w'),indent=1)
        print(g['ID'],'clean demo',ok0,'| tests',not bad,'| patched demo fails',okn)
        if bad: print(b.stdout[-1500:])
        if not okn: print(r.stdout[-800:])
    finally:
        shutil.rmtree(w,ignore_errors=True)
main()
