#!/usr/bin/env python3
"""mutate.py OUT.jsonl [SCALE [FILTER]]: development tool. Makes every small edit
that mutants.go lists, keeps those that build and pass the tests of /repo, and
runs the quick checks (scaled down) on them until one reports a violation.
Works in a scratch directory; /repo is never written."""
import subprocess, os, json, sys, re, shutil, tempfile, concurrent.futures as cf, threading, time, signal
ENV = dict(os.environ, GOROOT='/opt/veriftools/go1.27.3', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'],
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off', GO111MODULE='on')
ENV['GOCACHE'] = os.environ.get('MUT_CACHE', '/tmp/mutcache')
OUT = sys.argv[1]
SCALE = sys.argv[2] if len(sys.argv) > 2 else '0.1'
FILTER = sys.argv[3] if len(sys.argv) > 3 else ''
ONLY = os.environ.get('MUT_ONLY')  # a file of mutants to run again
JOBS = int(os.environ.get('MUT_JOBS', '4'))
W = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
shutil.copytree('/verif/pbt', W + '/src')
here = os.path.dirname(os.path.abspath(__file__))

def sh(cmd, cwd=None, env=None, timeout=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        return 124, ''
ORDER = {
 'parser.go': 'C02 C03 C04 C05 C06 C07 C10 C01 C08 C12',
 'file.go': 'C08 C09 C10 C11 C15 C13 C16 C18 C20 C30 C12',
 'section.go': 'C17 C15 C16 C18 C20 C30 C19',
 'key.go': 'C22 C23 C24 C21 C17 C20 C18',
 'struct.go': 'C25 C26 C27 C28',
 'ini.go': 'C12 C14 C31 C32 C02', 'data_source.go': 'C14 C12 C31', 'error.go': 'C02 C06 C31', 'helper.go': 'C24 C16', 'deprecated.go': 'C31'}
ALL = ['C%02d' % i for i in range(1, 33) if i != 29]
lock = threading.Lock()
def one(i, m):
    d = f'{W}/{i}'; os.makedirs(d)
    try:
        src = open(m['file'], 'rb').read()
        b = src[:m['off']] + m['new'].encode() + src[m['end']:]
        f = f'{d}/' + os.path.basename(m['file']); open(f, 'wb').write(b)
        json.dump({'Replace': {m['file']: f}}, open(d + '/t.json', 'w'))
        rc, o = sh(f'go build -overlay {d}/t.json -o /dev/null .', cwd='/repo', timeout=120)
        if rc: return 'nobuild'
        rc, o = sh(f'go test -vet=off -overlay {d}/t.json -count=1 -timeout 60s .', cwd='/repo', timeout=120)
        if rc: return 'tests'
        json.dump({'Replace': {m['file']: f, '/repo/go.mod': '/verif/pbt/repo.go.mod'}}, open(d + '/h.json', 'w'))
        shutil.copy('/verif/pbt/go.mod', d); shutil.copy('/verif/pbt/go.sum', d)
        rc, o = sh(f'go build -overlay {d}/h.json -modfile {d}/go.mod -o {d}/pbt .', cwd=W + '/src', timeout=300)
        if rc: return 'harness: ' + o[:300]
        first = ORDER.get(os.path.basename(m['file']), '').split()
        os.makedirs(d + '/vd')
        os.symlink('/verif/corpus', d + '/vd/corpus')
        odd = ''
        for p in first + [x for x in ALL if x not in first]:
            rc, o = sh(f'{d}/pbt run {p} quick', env=dict(ENV, VERIF_DIR=d + '/vd', TMPDIR=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), PBT_SCALE=SCALE), timeout=900)
            if rc == 1: return 'killed ' + p
            if rc: odd += f' {p}:rc{rc}:{o[-200:]}'
        return 'SURVIVED' + odd
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    if ONLY: ms = [json.loads(l) for l in open(ONLY)]
    else:
        sh(f'go build -o {W}/mutants {here}/mutants.go')
        files = [f'/repo/{x}' for x in sorted(os.listdir('/repo')) if x.endswith('.go') and not x.endswith('_test.go')]
        rc, o = sh(f'{W}/mutants ' + ' '.join(files)); ms = [json.loads(l) for l in o.splitlines()]
    ms = [m for m in ms if re.search(FILTER, m['file'] + ':' + m['func'])]
    lines = {}
    def message(m):  # the text of an error
        ls = lines.setdefault(m['file'], open(m['file']).read().split('\n'))
        return m['kind'].startswith('string') and re.search(r'Errorf|errors\.New|panic|Sprintf\("err', ls[m['line'] - 1]) or m['file'].endswith('error.go')
    ms = [m for m in ms if not message(m)]
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            r = json.loads(l); done.add((r['file'], r['off'], r['end'], r['new']))
    ms = [m for m in ms if (m['file'], m['off'], m['end'], m['new']) not in done]
    print(len(ms), 'mutants', flush=True)
    if os.environ.get('MUT_SHUFFLE'):
        import random; random.Random(1).shuffle(ms)
    out = open(OUT, 'a'); n = {}
    def work(im):
        i, m = im; t = time.time()
        try: r = one(i, m)
        except Exception as e: r = 'error ' + repr(e)
        with lock:
            src = open(m['file'], 'rb').read()
            m.pop('result', None)
            out.write(json.dumps(dict(m, result=r, old=src[m['off']:m['end']].decode(errors='replace')[:200], secs=round(time.time() - t, 1))) + '\n'); out.flush()
            n[r.split()[0]] = n.get(r.split()[0], 0) + 1
    with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(work, enumerate(ms)))
    print(n)
    shutil.rmtree(W)
main()
