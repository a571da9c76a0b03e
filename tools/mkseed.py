#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG 'needs' 'breaks' <<< python edits: reads /tmp/seed/<id>.py (edits: list of (file, old, new)) and
/tmp/seed/<id>_test.go (demo test, TestZZDemo); builds seeded/<id> after confirming everything in a scratch copy."""
import sys,os,subprocess,shutil,tempfile,json
sid,prop,pkg,needs,breaks=sys.argv[1:6]
ns={};exec(open(f'/tmp/seed/{sid}.py').read(),ns)
tmp=tempfile.mkdtemp(prefix='seed')
try:
    w=tmp+'/w'; shutil.copytree('/repo',w)
    d=f'/verif/seeded/{sid}'; os.makedirs(d,exist_ok=True)
    for f,a,b in ns['edits']:
        s=open(w+'/'+f).read(); assert s.count(a)==1,(f,a,s.count(a)); open(w+'/'+f,'w').write(s.replace(a,b))
    p=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(p)
    shutil.copy(f'/tmp/seed/{sid}_test.go',d+'/demo_test.go')
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Runs demo_test.go inside package {pkg} in a scratch copy of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${{HOME:-/root}}" PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
unset GOROOT GOWORK
export GOTOOLCHAIN=local GOPROXY=off GOENV=off GOWORK=off GOFLAGS=-buildvcs=false CGO_ENABLED=0
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r . "$tmp/w" && cp "$here/demo_test.go" "$tmp/w/{pkg}/zz_demo_test.go" || exit 2
cd "$tmp/w" && go test -vet=off -count=1 -timeout 200s -run '^TestZZDemo$' ./{pkg}
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r=subprocess.run([d+'/demo.sh'],cwd='/repo',capture_output=True,text=True); print('clean demo',r.returncode, r.stdout[-300:] if r.returncode else '')
    r2=subprocess.run([d+'/demo.sh'],cwd=w,capture_output=True,text=True); print('patched demo',r2.returncode); print(r2.stdout[-600:])
    env=dict(os.environ)
    t=subprocess.run("export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-buildvcs=false GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'",shell=True,cwd=w,capture_output=True,text=True)
    print('tests',t.returncode,t.stdout[-500:],t.stderr[-500:])
    print('OK' if r.returncode==0 and r2.returncode!=0 and 'FAIL' not in t.stdout and t.returncode==0 else 'NOT OK')
finally:
    shutil.rmtree(tmp)
