#!/usr/bin/env python3
"""addhook.py FILE FUNC LOOPHEADER NAME[:G]  : insert an attachment point (guard DNSTABLE_CONTRACTS) after the given loop header line
(moves a trailing '{' to its own line), or for :G after that statement line."""
import sys,re
f,func,head,name=sys.argv[1:5]
s=open(f).read()
m=re.search(r"^"+re.escape(func)+r"\(",s,re.M) or re.search(r"\b"+re.escape(func)+r"\(",s)
i=s.index(head,m.start())
g=name.endswith(":G")
if g:
    e=s.index("\n",i)+1
    s=s[:e]+"#ifdef DNSTABLE_CONTRACTS\nVPG_%s\n#endif\n"%name[:-2]+s[e:]
else:
    # end of header line(s): head must end with ) or contain up to it
    e=i+len(head)
    rest=s[e:]
    ls=s.rindex("\n",0,i)+1
    indent=re.match(r"\s*",s[ls:]).group(0)
    mm=re.match(r"[ \t]*\{[ \t]*\n",rest)
    hook="\n#ifdef DNSTABLE_CONTRACTS\nVPL_%s\n#endif\n"%name
    if mm: s=s[:e]+hook+indent+"{\n"+rest[mm.end():]
    else: 
        mm=re.match(r"[ \t]*\n",rest); assert mm, rest[:40]
        s=s[:e]+hook+rest[mm.end():]
open(f,"w").write(s)
