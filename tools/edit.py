#!/usr/bin/env python3
# edit.py FILE: replaces OLD by NEW (read as python literals from stdin: a list of pairs), keeping CRLF line ends
import sys,ast
p=sys.argv[1]; s=open(p,newline='').read(); crlf='\r\n' in s
t=s.replace('\r\n','\n')
for old,new in ast.literal_eval(sys.stdin.read()):
    assert t.count(old)==1,(p,t.count(old),old)
    t=t.replace(old,new)
open(p,'w',newline='').write(t.replace('\n','\r\n') if crlf else t)
