#!/usr/bin/env python3
"""Build /repo's current sources into a model-checking binary for one property and explore it.

usage: run.py ID [--tier quick|thorough] [--replay FILE] [--only HARNESS] [--mode MODE] [--keep]
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import os, sys, json, time, shutil, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
CC, CXX = 'clang', 'clang++'
# mode: asan = sequential code under AddressSanitizer; fibers = controlled threads under ASan;
# race = controlled threads with happens-before race detection
MODES = {
    'asan':   dict(repo=['-fsanitize=address'], own=['-fsanitize=address'], link=['-fsanitize=address'], src=['nosched.cc']),
    'fibers': dict(repo=['-fsanitize=address', '-femulated-tls'], own=['-fsanitize=address', '-DMC_FIBERS'], link=['-fsanitize=address'], src=['sched.cc']),
    'race':   dict(repo=['-fsanitize=thread', '-femulated-tls'], own=['-DMC_FIBERS', '-DMC_RACE'], link=[], src=['sched.cc', 'race.cc']),
}
PROPS = json.load(open(os.path.join(VERIF, 'checks.json')))

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        print('command failed:', ' '.join(cmd)); print(p.stdout[-6000:]); raise SystemExit(2)
    return p.stdout

def build(tmp, prop, cfg, mode):
    m = MODES[mode]
    lib, har = os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'harness')
    inc = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-I', lib]
    common = ['-g1', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-pthread']
    jobs, repo_objs, own_objs = [], [], []
    for s in sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))):
        b = os.path.basename(s)
        if 'test' in b: continue
        o = os.path.join(tmp, 'repo_' + b + '.o'); repo_objs.append(o)
        jobs.append([CC, '-O1', '-w', '-fno-builtin', '-ftrivial-auto-var-init=pattern', '-fno-optimize-sibling-calls', *common, *inc, *m['repo'], '-c', s, '-o', o])
    def own(src, cc, std, extra=()):
        o = os.path.join(tmp, 'own_' + os.path.basename(src) + '.o'); own_objs.append(o)
        jobs.append([cc, *std, '-O1', '-Wall', '-Wno-unused-function', *common, *inc, *m['own'], *extra, '-c', src, '-o', o])
    own(os.path.join(lib, 'shim.c'), CC, [])
    for s in ['mc.cc', 'env.cc', *m['src']]:
        own(os.path.join(lib, s), CXX, ['-std=c++17'])
    for s in cfg['src']:
        own(os.path.join(har, s), CXX, ['-std=c++17'])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    # send the library's calls to the outside world to the environment
    syms = []
    for o in own_objs:
        for l in sh(['nm', '--defined-only', o]).splitlines():
            f = l.split()
            if len(f) == 3 and f[1] in 'TW' and f[2].startswith('mcx_'):
                syms.append(f[2][4:] + ' ' + f[2])
    mapf = os.path.join(tmp, 'redefine.txt')
    open(mapf, 'w').write('\n'.join(sorted(set(syms))) + '\n')
    for o in repo_objs:      # and its static variables to where the environment finds them
        ren = []
        for l in sh(['objdump', '-h', '-w', o]).splitlines():
            f = l.split()
            if len(f) > 2 and f[0].isdigit() and not f[1].startswith('.data.rel.ro'):
                for k, to in (('.data', 'mcdata'), ('.bss', 'mcbss')):
                    if f[1] == k or f[1].startswith(k + '.'): ren += ['--rename-section', f[1] + '=' + to]
        sh(['objcopy', *ren, '--redefine-syms=' + mapf, o])
    exe = os.path.join(tmp, 'mc')
    sh([CXX, '-g1', '-pthread', '-no-pie', *m['link'], *own_objs, *repo_objs, '-o', exe, '-lrt', '-lm'])
    return exe

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick'); replay = None; only = []; keep = False; mode = None
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--replay': replay = os.path.abspath(a.pop(0))
        elif x == '--only': only = ['--only', a.pop(0)]
        elif x == '--keep': keep = True
        elif x == '--mode': mode = a.pop(0)
    cfg = PROPS[prop]
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, prop + '.json')
    if not replay and os.path.exists(evf): os.remove(evf)
    tmp = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    try:
        if 'cmd' in cfg:      # a check with its own driver (the Python binding)
            return subprocess.call([sys.executable, os.path.join(VERIF, cfg['cmd']), prop, tier, tmp, evf] + ([replay] if replay else []))
        results = []; violated = None; known = set()
        for part in cfg['parts']:
            if mode and part['mode'] != mode: continue
            d = os.path.join(tmp, part['mode'] + '_' + part['src'][0].replace('.', '_')); os.makedirs(d)
            exe = build(d, prop, part, part['mode'])
            bt = time.time() - t0
            env = dict(os.environ, MC_TMP=d, MC_REPO=REPO, MC_VERIF=VERIF, MC_PROP=prop, TZ='UTC', LC_ALL='C')
            env['ASAN_SYMBOLIZER_PATH'] = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''
            cmd = [exe, '--out', d + '/result.json', '--tier', tier, '--tmp', d, '--jobs', str(min(8, os.cpu_count() or 8)),
                   '--hang', '10', '--budget', str((700 if tier == 'quick' else 800) / len(cfg['parts'])), *only]
            if replay:
                r = subprocess.call(cmd + ['--replay', replay], env=env, cwd=d)
                if r != 2 or len(cfg['parts']) == 1: return r
                continue
            r = subprocess.call(cmd, env=env, cwd=d)
            if r not in (0, 1) or not os.path.exists(d + '/result.json'):
                print('check failed with status', r); return 2
            known |= {os.path.basename(f)[6:] for f in glob.glob(d + '/known.*')}
            res = json.load(open(d + '/result.json'))
            res['mode'] = part['mode']; results.append(res)
            if res['violated']:
                violated = res; break
        if replay: return 2
        if known:
            for l in open(os.path.join(VERIF, 'known-findings.txt')):
                f = l.split(None, 3)
                if l.startswith('finding: property=%s id=' % prop) and f[2][3:] in known:
                    print('KNOWN-FINDING: property=%s [%s] %s' % (prop, f[2][3:], f[3].strip()))
        hs = [dict(h, mode=r['mode']) for r in results for h in r['harnesses']]
        cov = {
            'states': sum(h['states'] for h in hs),
            'transitions': sum(h['transitions'] for h in hs),
            'traces_validated_against_impl': sum(h['executions'] for h in hs),
            'distinct_nontrivial': sum(h['outcomes'] for h in hs),
            'rule': cfg.get('rule', 'every execution is one choice sequence of the explorer, run on the real code; distinct observed outcomes are counted'),
            'exhaustive': all(h['complete'] for h in hs) and not violated,
            'samples': [s for h in hs for s in h['samples']][:12] or ['(violated before a sample was kept)'],
            'explorations': [{'name': h['name'], 'engine': h['mode'], 'bound': h['bound'], 'deviation_bound': h['deviation_bound'],
                              'runs_about_the_property': h['nontrivial'], 'longest_choice_sequence': h['max_choices'],
                              'complete': h['complete'], 'seconds': h['wall_s']} for h in hs],
        }
        json.dump({'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
                   'level': 'model_checking', 'coverage': cov, 'assumptions': cfg.get('assumptions', []),
                   'wall_s': round(time.time() - t0, 2), 'violations': 1 if violated else 0}, open(evf, 'w'), indent=1)
        if violated:
            rd = os.path.join(VERIF, 'replays'); os.makedirs(rd, exist_ok=True)
            dst = os.path.join(rd, '%s-%s' % (prop, os.path.basename(violated['replay'])))
            if os.path.exists(violated['replay']): shutil.copy(violated['replay'], dst)
            print(violated['message'][:3000])
            print('VIOLATION property=%s replay=%s' % (prop, dst)); return 1
        print('%s: held; %d executions, build %.1fs, total %.1fs' % (prop, cov['traces_validated_against_impl'], bt, time.time() - t0))
        return 0
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)

sys.exit(main())
