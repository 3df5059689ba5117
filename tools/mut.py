#!/usr/bin/env python3
# mut.py PROP[,PROP] FILE OLD NEW [FILE OLD NEW]... : apply to a copy of /repo, run the quick check(s)
import sys,subprocess,re,os,tempfile,shutil
props=sys.argv[1]; rest=sys.argv[2:]
D=tempfile.mkdtemp(prefix='/tmp/mut-'); R=D+'/repo'
try:
    shutil.copytree('/repo',R,symlinks=True,ignore=shutil.ignore_patterns('.git'))
    for f,old,new in zip(rest[0::3],rest[1::3],rest[2::3]):
        s=open(R+'/'+f).read()
        if s.count(old)<1: print("OLD not found",f); sys.exit(2)
        open(R+'/'+f,'w').write(s.replace(old,new,1))
    inst=lambda q:q[0] in 'CK' or q in('B05','W02')
    if any(inst(q) for q in props.split(',')):
        r=subprocess.run(['bash','/verif/tools/rb.sh',R,D],capture_output=True,text=True)
        if r.returncode: print("BUILD FAIL",(r.stdout+r.stderr)[-600:]); sys.exit(1)
    if any(not inst(q) for q in props.split(',')):
        b=subprocess.run(['bash','/verif/tools/pb.sh',R,D],capture_output=True,text=True)
        if b.returncode: print("BUILD FAIL",b.stderr[:600]); sys.exit(1)
    shutil.copy('/verif/known-findings.txt',D)
    for q in props.split(','):
        exe=D+('/checkr' if inst(q) else '/checkm')
        r=subprocess.run(['bash','-c',f'. /opt/vp/env.sh; exec timeout 900 {exe} -property {q} -tier quick -seed {os.environ.get("SEED","1")} -dir {D}'],capture_output=True,text=True,cwd='/tmp')
        out=r.stdout+r.stderr
        print(q,'rc',r.returncode,re.sub(r'\s+',' ',' | '.join(l for l in out.splitlines() if l.startswith(('violation','minimised','ok','replay'))))[:500],flush=True)
finally:
    shutil.rmtree(D,ignore_errors=True)
