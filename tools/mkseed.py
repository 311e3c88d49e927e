#!/usr/bin/env python3
# mkseed.py ID PROP FILE <<< old\n====\nnew\n====\nneeds\n====\nbreaks   (several FILE edits: separate with @@@@ FILE)
import sys,os,subprocess,json,tempfile,shutil
i,prop,f=sys.argv[1:4]
pkg=sys.argv[4] if len(sys.argv)>4 else os.path.dirname(f)
txt=sys.stdin.read()
parts=txt.split('\n====\n')
d='/verif/seeded/'+i
os.makedirs(d,exist_ok=True)
tmp=tempfile.mkdtemp()
subprocess.check_call(['git','clone','-q','/repo',tmp+'/r'])
def edit(f,o,n):
    p=tmp+'/r/src/'+f; s=open(p).read()
    assert s.count(o)==1,(f,s.count(o),o)
    open(p,'w').write(s.replace(o,n))
edits=[]
k=0
fs=[f]
while True:
    edit(fs[-1],parts[k],parts[k+1]); k+=2
    if parts[k].startswith('@@@@ '):
        fs.append(parts[k][5:].strip()); k+=1; continue
    break
needs,breaks=parts[k].strip(),parts[k+1].strip()
diff=subprocess.check_output(['git','-C',tmp+'/r','diff'])
open(d+'/patch.diff','wb').write(diff)
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
shutil.rmtree(tmp)

sh=open('/verif/tools/demo.sh.in').read().replace('@PKG@',pkg)
open(d+'/demo.sh','w').write(sh)
if len(parts)>k+2 and parts[k+2].strip():
    open(d+'/demo_test.go','w').write(parts[k+2].strip()+"\n")
