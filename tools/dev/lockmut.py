import re,subprocess,os
for fn in ['file.go','section.go','key.go']:
    src=open('/repo/'+fn).read()
    for m in re.finditer(r'\tif [a-z.]*BlockMode \{\n((?:.*\n)*?)\t\}\n',src):
        f=re.findall(r'func [^{]*',src[:m.start()])[-1]
        new=src[:m.start()]+src[m.end():]
        if 'RLock()\n\t}' in m.group(0) and 'defer' not in m.group(0):
            # GetKey: remove both
            new=src.replace(m.group(0),'',1)
            new=re.sub(r'\tif s.f.BlockMode \{\n\t\ts.f.lock.RUnlock\(\)\n\t\}\n','',new,1)
        elif 'RUnlock' in m.group(0) and 'defer' not in m.group(0): continue
        open('/repo/'+fn,'w').write(new)
        try:
            r=subprocess.run(['/tmp/w/brace.sh'],capture_output=True,text=True)
            if r.returncode: print(f,'BUILD',r.stderr[:200]); continue
            r=subprocess.run(['/tmp/w/r.sh','C29','quick'],capture_output=True,text=True)
            print(f, 'caught' if 'VIOLATION' in r.stdout else 'MISSED', re.findall(r'C29/(\w+): (.{60})',r.stdout,re.S)[:1], flush=True)
        finally:
            subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
