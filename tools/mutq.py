"""mutq.py FILE: lines  'Pxx | file | old | new' ; apply each alone to a scratch copy and run the check"""
import sys, subprocess, os, shutil
from concurrent.futures import ThreadPoolExecutor
muts=[]
for l in open(sys.argv[1]):
    l=l.rstrip("\n")
    if not l.strip() or l.startswith("#"): continue
    a=[x.strip() for x in l.split(" | ")]
    muts.append(a)
def one(i):
    pid,file,old,new=muts[i][:4]
    nth=int(muts[i][4]) if len(muts[i])>4 else 0
    d="/tmp/mq/%d"%i
    shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/mq",exist_ok=True)
    subprocess.run(["cp","-a","/repo",d],check=True) if False else subprocess.run("mkdir -p %s && cd /repo && cp -a Cargo.toml Cargo.lock src %s/ && mkdir -p %s/tests && (cp -a benches examples rust-toolchain* %s/ 2>/dev/null; true)"%(d,d,d,d),shell=True,check=True)
    p=d+"/"+file
    s=open(p).read()
    old=old.replace("\\n","\n"); new=new.replace("\\n","\n")
    parts=s.split(old)
    if len(parts)<2: return (i,"NOMATCH",old)
    if nth>=len(parts)-1: return (i,"NOMATCH-nth","")
    s=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
    open(p,"w").write(s)
    r=subprocess.run(["python3","/verif/check.py",pid],capture_output=True,text=True,env=dict(os.environ,GPF_REPO=d))
    out=[x for x in r.stdout.splitlines() if x.startswith("  ")]
    shutil.rmtree(d,ignore_errors=True)
    return (i,{0:"missed",1:"CAUGHT"}.get(r.returncode,"??"+r.stderr[-200:]),(out[0][:150] if out else ""))
with ThreadPoolExecutor(int(os.environ.get("J","3"))) as ex:
    for i,st,m in ex.map(one,range(len(muts))):
        print(st,"|",muts[i][0],muts[i][2][:50],"->",muts[i][3][:50],"|",m,flush=True)
