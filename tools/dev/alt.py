import subprocess,os,shutil,json,glob,sys,re
ENV=dict(os.environ,GOROOT='/opt/veriftools/go1.27.3',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOSUMDB='off',GO111MODULE='on')
def sh(cmd,cwd=None,env=None,timeout=None):
    try:
        r=subprocess.run(cmd,shell=True,cwd=cwd,env=env or ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
        return r.returncode,r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124,(e.stdout or b'').decode(errors='replace')
def build(tree,out,race=False):
    d=out+'.d'; os.makedirs(d,exist_ok=True)
    s=open('/verif/pbt/go.mod').read().replace('=> /repo','=> '+tree)
    open(d+'/go.mod','w').write(s); shutil.copy('/verif/pbt/go.sum',d+'/go.sum')
    ov={'Replace':{tree+'/go.mod':'/verif/pbt/repo.go.mod'}}
    if race:
        for f in glob.glob(tree+'/*.go'):
            if f.endswith('_test.go'): continue
            t=open(f).read()
            n=re.sub(r'(?m)^((?:import )?\s*)"sync"$',r'\1sync "verif/pbt/vsync"',t)
            if n!=t:
                o=d+'/locks_'+os.path.basename(f); open(o,'w').write(n); ov['Replace'][f]=o
    json.dump(ov,open(d+'/overlay.json','w'))
    return sh(f'go build {"-race" if race else ""} -overlay {d}/overlay.json -modfile {d}/go.mod -o {out} .',cwd='/verif/pbt')
def run(binp,prop,tier='quick',vd='/tmp/w/altvd',timeout=900,scale=None,seed='1'):
    os.makedirs(vd,exist_ok=True)
    e=dict(ENV,VERIF_DIR=vd,VERIF_SEED=seed)
    if scale: e['PBT_SCALE']=str(scale)
    rc,o=sh(f'{binp} run {prop} {tier}',env=e,timeout=timeout)
    m=re.search(r'VIOLATION property=\S+ replay=(\S+)',o)
    return rc,o,(m.group(1) if m else None)
def replay(binp,f):
    return sh(f'{binp} replay {f}',env=dict(ENV,VERIF_DIR='/tmp/w/altvd',GORACE='halt_on_error=1 exitcode=66'),timeout=120)
