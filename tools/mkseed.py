#!/usr/bin/env python3
# usage: mkseed.py SPEC.py   SPEC defines S=[dict(id,prop,edits=[(file,old,new)],needs,breaks,pkg,demo)]
# Plants each change in a scratch worktree of /repo, confirms build, existing tests and the demo, and keeps it in /verif/seeded.
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
only=sys.argv[2:]
DEMO='''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds for the demonstrated case
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$R" "$D" > "$T/o.json"
cp "$D/demo_test.go.txt" "$T/demo_test.go"; sed -i "s#$D/demo_test.go.txt#$T/demo_test.go#" "$T/o.json"
export DEMO_TMP="$T"
go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
wt=tempfile.mkdtemp(prefix='seedwt')
shutil.rmtree(wt)
print(sh(f'git worktree add --detach {wt} HEAD','/repo').stderr.strip().splitlines()[-1:])
try:
  for s in spec['S']:
    if only and s['id'] not in only: continue
    sh('git checkout -- . && git clean -fdq',wt)
    d=tempfile.mkdtemp()
    ok=True
    pkg=s['pkg']
    open(d+'/demo.sh','w').write((DEMO%dict(pkg=pkg)).replace('go test -vet','go test -race -vet' if s.get('race') else 'go test -vet')); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(s['demo'])
    env=dict(os.environ)
    r=sh(f'bash {d}/demo.sh',wt)
    if r.returncode!=0: print(s['id'],'demo fails on unchanged tree',r.stdout[-1500:],r.stderr[-1500:]); continue
    for f,old,new in s['edits']:
        p=wt+'/'+f; b=open(p,newline='').read()
        crlf='\r\n' in b
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if s.get('second') and b.count(old)==2:
            i=b.index(old,b.index(old)+1); open(p,'w',newline='').write(b[:i]+new+b[i+len(old):]); continue
        if b.count(old)!=1: print(s['id'],'edit matches',b.count(old),f,repr(old[:60])); ok=False; break
        open(p,'w',newline='').write(b.replace(old,new))
    if not ok: continue
    r=sh('. /opt/vp/env.sh; pkgs=$(go list -e ./... | grep -Ev "$LEFT_OUT"); go build -tags=jsoniter $pkgs && go test -vet=off -count=1 $pkgs',wt)
    if r.returncode!=0: print(s['id'],'build/test fails',r.stdout[-800:],r.stderr[-800:]); continue
    r=sh(f'bash {d}/demo.sh',wt)
    if r.returncode==0: print(s['id'],'demo passes with the change'); continue
    diff=sh('git diff --no-color --binary',wt).stdout
    # at least one line of the original repository must change: find who wrote the removed lines
    base=sh('git rev-list --max-parents=0 HEAD',wt).stdout.split()[0]
    import re
    orig=0; mine=0; cur=None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m[1]); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            b=sh(f'git blame -s -L {ln},{ln} HEAD -- {cur}',wt).stdout
            if b.startswith('^') or b.startswith(base[:7]): orig+=1
            else: mine+=1
            ln+=1
        elif not l.startswith('+') and not l.startswith('\\'): 
            try: ln+=1
            except NameError: pass
    if not orig: print(s['id'],'REJECTED: changes no original line',mine); continue
    if mine: print(s['id'],'note: original lines',orig,'own lines',mine)
    dst='/verif/seeded/'+s['id']
    if os.path.isdir(dst): shutil.rmtree(dst)
    shutil.copytree(d,dst)
    p=subprocess.run('git diff --no-color',shell=True,cwd=wt,capture_output=True).stdout
    open(dst+'/patch.diff','wb').write(p)
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(dst+'/meta.json','w'),indent=1)
    print(s['id'],'kept;',(r.stdout+r.stderr).strip().splitlines()[:3])
    shutil.rmtree(d)
finally:
  sh(f'git worktree remove --force {wt}','/repo'); sh('git worktree prune','/repo')
