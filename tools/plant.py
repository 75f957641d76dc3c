#!/usr/bin/env python3
# plant.py SPEC.json: creates /verif/seeded/<id>/ from {"id","property","needs","breaks","edits":[[file,old,new],...],"demo":"go test source","files":[extra test files],"pkg":"."}
import json,sys,os,subprocess,shutil,tempfile
for sp in sys.argv[1:]:
    s=json.load(open(sp)) if sp.endswith('.json') else eval(open(sp).read())
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='plant'); 
    subprocess.check_call(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['cp','-a','/repo/.',w])
    for f,o,n in s['edits']:
        t=open(f'{w}/{f}').read(); assert t.count(o)==1,(f,o,t.count(o)); open(f'{w}/{f}','w').write(t.replace(o,n))
    fmt=subprocess.run(['gofmt','-l']+sorted({w+'/'+f for f,_,_ in s['edits']}),capture_output=True,text=True); assert fmt.returncode==0,fmt.stderr
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True); open(d+'/patch.diff','w').write(diff)
    pkg=s.get('pkg','.')
    for f in {f for f,_,_ in s['edits']}:
        base=set(subprocess.check_output(['git','-C','/repo','show','abc84c6:'+f],text=True).splitlines())
        dl=[l[1:] for l in subprocess.check_output(['git','-C',w,'diff','-U0','--',f],text=True).splitlines() if l.startswith('-') and not l.startswith('---')]
        new=[l for l in dl if l not in base]
        if new or not dl: print('   NOT BASE LINES',f,new,len(dl))
    fs={'demo_test.go':None}
    open(d+'/demo_test.go','w').write(s['demo'])
    for f in s.get('files',[]): shutil.copy(f,d); fs[os.path.basename(f)]=None
    lines=[]
    rep=','.join('"$PWD/%s/zz_%s":"$d/%s"'%(pkg,f,f) if pkg!='.' else '"$PWD/zz_%s":"$d/%s"'%(f,f) for f in fs)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo: exits 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
o=$(mktemp -d) || exit 2
trap 'rm -rf "$o"' EXIT
cat > "$o/overlay.json" <<EOF
{"Replace":{%s}}
EOF
go test %s -vet=off -count=1 -timeout 200s -overlay "$o/overlay.json" -run '^TestDemo' ./%s
'''%(rep,s.get('flags',''),pkg))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off')
    def demo(cwd): 
        r=subprocess.run(['bash',d+'/demo.sh'],cwd=cwd,capture_output=True,text=True,env=env); return r.returncode,(r.stdout+r.stderr)
    b=subprocess.run(['go','build','./...'],cwd=w,capture_output=True,text=True,env=env)
    a,oa=demo('/repo'); c,oc=demo(w)
    ok = b.returncode==0 and a==0 and c!=0
    print(s['id'],'OK' if ok else 'BAD','build',b.returncode,'demo clean',a,'patched',c)
    if a!=0: print(oa[-1500:])
    if b.returncode: print(b.stderr[-1500:])
    print('   ',' '.join(l for l in oc.splitlines() if 'demo_test' in l or 'panic' in l)[:300])
    if '-t' in os.environ.get('PLANT',''):
        r=subprocess.run(['go','test','-vet=off','-count=1','./...'],cwd=w,capture_output=True,text=True,env=env); print('   tests',r.returncode, [l for l in r.stdout.splitlines() if 'FAIL' in l][:5])
    shutil.rmtree(w)
