#!/usr/bin/env python3
# writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the notes below, the harness
# comments, KNOWN_FINDINGS.txt and seeded/*/meta.json
import re,glob,json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from design_notes import N
H={}
for f in sorted(glob.glob('harness/internal/**/*.go',recursive=True)):
    c=[]
    for l in open(f).read().replace('\r','').split('\n'):
        if l.startswith('//'): c.append(l)
        else:
            m=re.match(r'func (ZZ_(\w\d\d)_\w+)',l)
            if m: H.setdefault(m[2],[]).append((m[1],c,f))
            c=[]
out=open('tools/design_head.md').read()
for l in open('properties.jsonl'):
    p=json.loads(l); i=p['id']
    out+='\n### %s %s\n\n'%(i,p['title'])
    n=N.get(i)
    if n: out+='Oracle: %s\n\nOutside: %s\n\n'%n
    for name,c,f in H.get(i,[]):
        doc=' '.join(x[2:].strip() for x in c if not x.startswith('//verif'))
        ps=[re.sub(r'^//verif:harness \w+ ?','',x) for x in c if x.startswith('//verif:harness')]
        ps=[x for x in ps if x]
        out+='* `%s` %s%s\n'%(name,doc,' ['+'; '.join(ps)+']' if ps else '')
out+='\n'+open('tools/design_tail.md').read()
out+='\n## Defects found in the repository\n\nAll were repaired by "fix:" commits; each check reports the violation again without its fix.\n\n'
for l in open('KNOWN_FINDINGS.txt'):
    m=re.match(r'fixed: property=(\w+) (\w+) (.*)',l.strip())
    out+='* %s (%s) %s\n'%m.groups() if m else '* '+l.strip()+'\n'
out+='\n## Planted bugs\n\nEach is caught by the quick check of its property. "strengthened" marks those which the checks\nmissed when they were planted, with the extension that catches them now.\n\n'
S=json.load(open('tools/strengthened.json'))
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); k=d.split('/')[1]
    out+='* `%s` (%s): %s.%s\n'%(k,m['property'],m['what_it_breaks'].rstrip('.'),' Strengthened: '+S[k]+'.' if k in S else '')
open('DESIGN.md','w').write(out)
