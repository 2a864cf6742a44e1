#!/usr/bin/env python3
# The check of the Python binding: drive.py PROPERTY TIER TMP EVIDENCE [REPLAY]
import glob, json, os, shutil, signal, struct, subprocess, sys, time
prop, tier, tmp, evf = sys.argv[1:5]; replay = sys.argv[5] if len(sys.argv) > 5 else None
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE)); REPO = os.environ.get('MC_REPO', '/repo')
PY = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else sys.executable
t0 = time.time()
def sh(*c):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: print('command failed:', ' '.join(c)); print(p.stdout[-4000:]); sys.exit(2)
src = [f for f in sorted(glob.glob(REPO + '/src/*.c')) if os.path.basename(f) not in ('greshunkel_test.c', 'utests.c', 'main.c')]
sh('gcc', '-O2', '-g', '-w', '-fPIC', '-shared', '-pthread', '-I' + REPO + '/include', *src, '-Wl,-soname,lib38moths.so', '-o', tmp + '/lib38moths.so', '-lm', '-lrt')
sh('gcc', '-O2', '-w', '-fPIC', '-shared', '-fno-builtin', HERE + '/place.c', '-o', tmp + '/place.so')
sh('gcc', '-O2', '-w', '-fPIC', '-shared', '-I' + REPO + '/include', HERE + '/ref.c', '-o', tmp + '/ref.so', '-L' + tmp, '-l38moths')
env = dict(os.environ, LD_PRELOAD=tmp + '/place.so', LD_LIBRARY_PATH=tmp, LC_ALL='C', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', C32_BUDGET=str(500 if tier == 'quick' else 780))
env.pop('PYTHONPATH', None)
PLACES = ['low', 'above-2G', 'above-4G', 'high', 'mixed']
def run(placement, shard, shards, case=None):
    return subprocess.Popen([PY, '-B', HERE + '/worker.py', tmp, REPO, placement, str(shard), str(shards), tier] + ([json.dumps(case)] if case else []), env=env, cwd=tmp,
                            stdout=open('%s/out.%s.%d' % (tmp, placement, shard), 'w'), stderr=subprocess.STDOUT)
def current(placement, shard):
    try:
        b = open('%s/progress.%s.%d' % (tmp, placement, shard), 'rb').read(); n, l = struct.unpack('QQ', b[:16]); return n, b[16:16 + l]
    except Exception: return 0, b''
SH = 8
todo = [(p, k) for p in PLACES for k in range(SH)]; running = {}; bad = None; done = []
if replay:
    c = json.load(open(replay)); todo = [(c['placement'], 0)]
while (todo or running) and not bad:
    while todo and len(running) < (os.cpu_count() or 8):
        p, k = todo.pop(0); running[p, k] = [run(p, k, SH, c['case'] if replay else None), -1, time.time()]
    time.sleep(0.05)
    for (p, k), r in list(running.items()):
        rc = r[0].poll(); n, case = current(p, k); msg = None
        if rc is None:
            if n != r[1]: r[1], r[2] = n, time.time()
            elif time.time() - r[2] > 60: msg = 'the binding hangs'; r[0].kill(); r[0].wait()
            if not msg: continue
        del running[p, k]
        out = open('%s/out.%s.%d' % (tmp, p, k)).read(); rf = '%s/result.%s.%d' % (tmp, p, k)
        if not msg and os.path.exists(rf):
            res = json.load(open(rf)); done.append((p, k, res))
            if 'violation' in res: msg = res['violation']
        elif not msg and rc is not None and rc < 0: msg = 'the process dies of signal %d%s' % (-rc, ('\n' + out[-1500:]) if out else '')
        elif not msg and n == 0 and 'harness:' not in out: msg = 'the binding can not be loaded\n' + out[-1500:]
        elif not msg: print('worker failed', rc, out[-3000:]); sys.exit(2)
        if msg:
            bad = (p, case.decode(errors='replace'), msg); break
for r in running.values(): r[0].kill(); r[0].wait()
res = [x[2] for x in done]
if not replay:
    out = set(h for r in res for h in r['outcomes'])
    cov = {'states': sum(r['states'] for r in res), 'transitions': sum(r['renders'] for r in res) + sum(r['allocations'] for r in res),
           'traces_validated_against_impl': sum(r['executions'] for r in res), 'renderings_compared_with_C': sum(r['renders'] for r in res), 'distinct_nontrivial': len(out),
           'rule': 'an execution builds contexts in Python, renders, drops them, and is compared with a C caller; states are distinct (placement, context, template) or history prefixes; transitions are renderings and allocations of the library; distinct rendered texts are counted',
           'placements': PLACES, 'exhaustive': not bad and all(r['complete'] for r in res) and len(res) == len(PLACES) * SH,
           'bound': 'contexts of up to %d entries out of 25, texts of up to %d characters out of 15, histories of up to %d steps over 2 contexts and 2 templates' % ((2, 2, 6) if tier == 'quick' else (3, 3, 8)),
           'samples': [s for r in res for s in r['samples']][:10] or ['(violated before a sample was kept)']}
    json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
               'assumptions': ['integers fit a C int', 'rendered text is valid UTF-8', 'filters are GshklFilterFunc objects'], 'wall_s': round(time.time() - t0, 2), 'violations': 1 if bad else 0}, open(evf, 'w'), indent=1)
if bad:
    p, case, msg = bad; rp = replay
    if not replay:
        os.makedirs(VERIF + '/replays', exist_ok=True); rp = VERIF + '/replays/%s-replay.json' % prop
        try: json.dump({'placement': p, 'case': json.loads(case)}, open(rp, 'w'))
        except ValueError: open(rp, 'w').write(case)
    print('memory placed %s, case %s\n%s' % (p, case[:1500], msg[:2500])); print('VIOLATION property=%s replay=%s' % (prop, rp)); sys.exit(1)
if replay: print('the replayed case holds'); sys.exit(0)
print('%s: held; %d executions, %d renderings, %.1fs%s' % (prop, cov['traces_validated_against_impl'], cov['renderings_compared_with_C'], time.time() - t0, '' if cov['exhaustive'] else ' (incomplete)'))
