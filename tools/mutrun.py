#!/usr/bin/env python3
"""mutation run: every small change that builds and passes the tests must be noticed by a check.
usage: mutrun.py OUT.jsonl [-j N] [-verif DIR] [-limit N] FILE...   (survivors and outcomes as JSON lines)"""
import sys, os, json, subprocess, threading, queue, shutil, hashlib
REPO = '/repo'
MAP = [
 ('frame_handler', 'C01 C21 C20'), ('packet_codec', 'C04 C02 C03 C18 C05 C08'), ('header.go', 'C04 C05 C08 C18'),
 ('codec/hex', 'C26 C04 C06 C27 C05'), ('gbk', 'C27 C06'), ('device_params', 'C07 C24 C23'), ('device_args','C24'), ('device_media','C06 C24'),
 ('model/device.go', 'C16 C15 C10 C13 C08 C14'), ('msg_0100', 'C06 C09 C08 C24'), ('msg_0102', 'C06 C10 C24 C08'), ('model/msg_', 'C06 C08 C24 C05 C18 C07 C23'), ('model/msg.go','C05 C06 C08'),
 ('model/session', 'C19 C25 C23'), ('segment', 'C18 C25'), ('msg_processor', 'C08 C10 C11 C09 C14 C24 C22 C15 C18 C13'), ('keepalive', 'C14 C13 C12'),
 ('device_cache', 'C09 C22 C14 C23 C12 C25'), ('geo_cache', 'C15 C13 C22 C25'), ('param_cache', 'C24 C25'), ('session_cache', 'C23 C19 C20 C25'),
 ('tcp_server', 'C20 C23'), ('api.go', 'C23'), ('pipeline', 'C20 C08 C03 C24 C21 C23'), ('ring_buffer', 'C17 C15'), ('safe.go', 'C20'), ('hash', 'C10'), ('region','C06'),
]
def props(f):
    for k, p in MAP:
        if k in f: return p.split()
    return []
args = sys.argv[1:]; out = args.pop(0); J = 3; V = '/verif'; limit = 0; files = []
while args:
    a = args.pop(0)
    if a == '-j': J = int(args.pop(0))
    elif a == '-verif': V = args.pop(0)
    elif a == '-limit': limit = int(args.pop(0))
    else: files.append(a)
muts = [json.loads(l) for l in subprocess.check_output(['/tmp/mutate'] + files, cwd=REPO, text=True).splitlines()]
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r['file'], r['off'], r['end'], r['new']))
def skip(m):
    w = m['what']
    return any(x in w for x in ('mutex.', 'InitOnce', 'options[0x', 'log.', '.Msg(', '.Err(', 'fmt.Print', 'errors.Wrap')) and not 'drop if' in w
q = queue.Queue()
import random
random.Random(7).shuffle(muts)
n = 0
for m in muts:
    if skip(m) or (m['file'], m['off'], m['end'], m['new']) in done: continue
    q.put(m); n += 1
    if limit and n >= limit: break
print(n, 'mutants')
lock = threading.Lock(); env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def work(i):
    W = f'/tmp/wt/mut{os.getpid()}_{i}'
    subprocess.run(['git', '-C', REPO, 'worktree', 'add', '-q', '--detach', W, 'HEAD'], check=True)
    try:
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = f'{W}/{m["file"]}'
            src = open(f'{REPO}/{m["file"]}', 'rb').read()
            open(p, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
            r = dict(m); res = None
            if subprocess.run(['go', 'build', './...'], cwd=W, env=env, capture_output=True).returncode: res = 'nobuild'
            else:
                try:
                    if subprocess.run(['go', 'test', '-vet=off', './...'], cwd=W, env=env, capture_output=True, timeout=120).returncode: res = 'tests'
                except subprocess.TimeoutExpired: res = 'tests'
            if res is None:
                res = 'SURVIVED'; r['rc'] = {}
                for c in props(m['file']):
                    try:
                        x = subprocess.run(['bash', f'{V}/check.sh', c, 'quick', '-budget', '45', '-workers', str(max(2, 9 // J))], env=dict(env, REPO=W), capture_output=True, text=True, timeout=900)
                        rc, o = x.returncode, x.stdout + x.stderr
                    except subprocess.TimeoutExpired: rc, o = 99, ''
                    if rc == 1:
                        res = 'caught ' + c; break
                    if rc != 0: r['rc'][c] = [rc, o[-300:]]
                    if 'unconfirmed 0' not in o: r.setdefault('unconf', []).append(c)
            r['res'] = res
            with lock:
                open(out, 'a').write(json.dumps(r, ensure_ascii=False) + '\n')
            open(p, 'wb').write(src)
    finally:
        subprocess.run(['git', '-C', REPO, 'worktree', 'remove', '--force', W])
ts = [threading.Thread(target=work, args=(i,)) for i in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
