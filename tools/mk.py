#!/usr/bin/env python3
# mk.py id property file 'old' 'new' 'needs' 'breaks'   (demo.cpp read from stdin) ; plant + verify in a scratch copy
import sys,os,subprocess,json,shutil
SID,prop,edits,needs,breaks=sys.argv[1:6]
demo=sys.stdin.read()
D='/verif/seeded/'+SID; os.makedirs(D,exist_ok=True)
if demo.strip(): open(D+'/demo.cpp','w').write(demo)
shutil.copy('/root/seedtools/demo.sh',D+'/demo.sh'); os.chmod(D+'/demo.sh',0o755)
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+'/meta.json','w'),indent=1)
E=json.loads(edits)  # [[file,old,new,(occurrence)]]
assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='' , 'repo dirty'
try:
    for e in E:
        p='/repo/src/'+e[0]; s=open(p).read(); n=s.count(e[1]); occ=e[3] if len(e)>3 else None
        if occ is None:
            assert n==1,(n,e[1])
            s=s.replace(e[1],e[2])
        else:
            parts=s.split(e[1]); s=e[1].join(parts[:occ+1])+e[2]+e[1].join(parts[occ+1:])
        open(p,'w').write(s)
    d=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    open(D+'/patch.diff','w').write(d)
finally:
    subprocess.run(['git','-C','/repo','checkout','--','.'])
# original lines?
base=subprocess.run(['git','-C','/repo','diff','deb94a6','HEAD'],capture_output=True,text=True).stdout
added=set(l[1:] for l in base.splitlines() if l.startswith('+') and not l.startswith('+++'))
for l in d.splitlines():
    if l.startswith('-') and not l.startswith('---') and l[1:] in added: print('WARNING touches own line:',l)
print(d)
