import os,sys,json,subprocess,shutil,re
sys.path.insert(0,'/tmp/w')
import alt
T='/tmp/w/seedtree'
DEMO='''#!/bin/bash
# Builds demo.go against the go-ini/ini in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -d /opt/veriftools/go1.27.3/bin ] && export GOROOT=/opt/veriftools/go1.27.3 PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off GOSUMDB=off
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp "$here/demo.go" "$w/main.go" || exit 2
printf 'module demo\\n\\ngo 1.23\\n\\nrequire github.com/go-ini/ini v0.0.0\\n\\nreplace github.com/go-ini/ini => %s\\n' "$repo" >"$w/go.mod"
printf 'module github.com/go-ini/ini\\n\\ngo 1.23\\n' >"$w/ini.mod"
printf '{"Replace": {"%s/go.mod": "%s/ini.mod"}}\\n' "$repo" "$w" >"$w/overlay.json"
cd "$w" || exit 2
go build RACE-overlay overlay.json -o demo . || exit 2
mkdir scratch && cd scratch && timeout 60 ../demo
'''
def sh(c,cwd=None,timeout=600): return alt.sh(c,cwd=cwd,timeout=timeout)
def fresh():
    if not os.path.exists(T): sh(f'cp -a /repo {T}')
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',cwd=T)
    if not os.path.exists(T+'/go.mod') and os.path.exists('/repo/go.mod'): shutil.copy('/repo/go.mod',T); shutil.copy('/repo/go.sum',T)
BASE='5be160a'
def original(diff):
    """lines removed that stem from the original repository / all removed"""
    o=n=0
    for f in re.split(r'(?m)^diff --git ',diff)[1:]:
        name=re.search(r'^\+\+\+ b/(\S+)',f,re.M).group(1)
        bl=sh(f'git blame -s {BASE}..HEAD -- {name}',cwd=T)[1].splitlines()
        ln=0
        for l in f.splitlines():
            m=re.match(r'^@@ -(\d+)',l)
            if m: ln=int(m.group(1)); continue
            if not ln: continue
            if l.startswith('-'):
                n+=1; o+= bl[ln-1].startswith('^'); ln+=1
            elif l.startswith('+'): pass
            else: ln+=1
    return o,n
def stable():
    b=json.load(open('/opt/vp/BASELINE.json'))
    return set(b.get('passed') or b.get('stable') or b.get('tests'))
def tests():
    rc,o=sh('go test -vet=off -count=1 -timeout 120s ./...',cwd=T)
    return rc==0,o
def demo(d,cwd):
    return sh(f'bash {d}/demo.sh',cwd=cwd,timeout=300)
def make(b,check=True,extra=()):
    """b: id, prop, edits [(file, old, new)], demo, needs, breaks, race"""
    d=f"/tmp/w/seeded/{b['id']}"
    fresh()
    for f,old,new in b['edits']:
        p=f'{T}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(b['id'],'OLD TEXT COUNT',s.count(old),repr(old)); return
        open(p,'w').write(s.replace(old,new))
    g=sh('gofmt -l *.go',cwd=T)[1].strip()
    if g: sh('gofmt -w '+g.replace('\n',' '),cwd=T)
    diff=subprocess.run('git diff',shell=True,cwd=T,stdout=subprocess.PIPE).stdout.decode()
    o,n=original(diff)
    rc,out=sh('go build ./... && go vet . 2>&1 | grep -v "^#" | head -3',cwd=T)
    if rc: print(b['id'],'BUILD',out); return
    ok,out=tests()
    if not ok: print(b['id'],'TESTS FAIL',re.findall(r'--- FAIL: \S+|panic: .*',out)[:4]); return
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    body=b['demo']
    src='package main\n\nimport "github.com/go-ini/ini"\n\n'+DEMOHEAD+body if 'func main' in body else 'package main\n\nimport "github.com/go-ini/ini"\n\n'+DEMOHEAD+'func main() {\n'+body+'\n}\n'
    open(d+'/demo.go','w').write(src)
    rc,out=sh(f'goimports -w {d}/demo.go')
    if rc: print(b['id'],'GOIMPORTS',out)
    s=open(d+'/demo.go').read()
    if 'go-ini/ini' not in s:
        s=s.replace('import (','import (\n\t"github.com/go-ini/ini"',1); open(d+'/demo.go','w').write(s); sh(f'gofmt -w {d}/demo.go')
    open(d+'/demo.sh','w').write(DEMO.replace('RACE','-race ' if b.get('race') else ''))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
    r1,o1=demo(d,'/repo'); r2,o2=demo(d,T)
    if r1!=0 or r2 in(0,2): print(b['id'],'DEMO clean',r1,o1[-300:],'patched',r2,o2[-300:]); shutil.rmtree(d); return
    print(b['id'],f'kept; original lines {o}/{n}; demo: {o2.strip()[-150:]}',flush=True)
    if o==0: print(b['id'],'NO ORIGINAL LINES')
    if check:
        res=catch(b['id'],[b['prop'],*extra])
def catch(id,propsl,seed='1',tier='quick'):
    fresh(); d=f'/tmp/w/seeded/{id}'
    rc,o=sh(f'git apply {d}/patch.diff',cwd=T)
    if rc: print(id,'APPLY',o); return
    out={}
    built={}
    for p in propsl:
        race= p=='C29'
        if race not in built:
            rc,o=alt.build(T,f'/tmp/w/seed/pbt{"r" if race else ""}',race); built[race]=rc
            if rc: print(id,'HARNESS BUILD',o[-500:])
        rc,o,v=alt.run(f'/tmp/w/seed/pbt{"r" if race else ""}',p,tier,seed=seed,vd='/tmp/w/seed/vd')
        out[p]=rc
        first=o.strip().splitlines()[0][:160] if o.strip() else ''
        print('   ',id,p,{0:'MISSED',1:'caught'}.get(rc,'rc %d'%rc),first if rc else '',flush=True)
    return out
DEMOHEAD='''
func check(ok bool, format string, args ...any) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func load(opts ini.LoadOptions, src any, more ...any) *ini.File {
	f, err := ini.LoadSources(opts, src, more...)
	check(err == nil, "load: %v", err)
	return f
}

func text(f *ini.File) string {
	var b bytes.Buffer
	_, err := f.WriteTo(&b)
	check(err == nil, "write: %v", err)
	return b.String()
}

'''
