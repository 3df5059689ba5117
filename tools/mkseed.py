#!/usr/bin/env python3
# mkseed.py SPEC.py...: makes /verif/seeded/<id>/ from a spec: id, prop, needs, breaks, edits=[(file,old,new)], demo (Go test source), flags
import sys,os,subprocess,tempfile,shutil,json
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    specs=g.get('specs') or [g]
    for s in specs:
        d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
        t=tempfile.mkdtemp(prefix='/tmp/mkseed-')
        try:
            subprocess.run(['git','-C','/repo','worktree','list'],capture_output=True)
            subprocess.check_call(['git','clone','-q','/repo',t+'/r'])
            for fn,old,new in s['edits']:
                p=t+'/r/'+fn; x=open(p).read()
                assert x.count(old)==1,(s['id'],fn,x.count(old),old)
                open(p,'w').write(x.replace(old,new))
            subprocess.run(f'. /opt/vp/env.sh; cd {t}/r && gofmt -l $(git diff --name-only)',shell=True,executable='/bin/bash')
            open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',t+'/r','diff'],text=True))
        finally: shutil.rmtree(t)
        open(d+'/demo_test.go','w').write(s['demo'].lstrip('\n'))
        src=open('/verif/tools/seed_demo.sh').read()
        open(d+'/demo.sh','w').write(src); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'))
        print('made',s['id'])
