# One shard of the exploration of the Python binding: worker.py DIR REPO PLACEMENT SHARD SHARDS TIER [CASE]
import ctypes, gc, itertools, json, mmap, os, struct, sys, time, warnings
warnings.simplefilter('ignore')
d, repo, placement, shard, shards, tier = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
one = json.loads(sys.argv[7]) if len(sys.argv) > 7 else None
budget = float(os.environ.get('C32_BUDGET', '300'))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(repo, 'python'))
import greshunkel as G
assert os.path.realpath(G.__file__).startswith(os.path.realpath(repo)), G.__file__
P = ctypes.CDLL(d + '/place.so'); R = ctypes.CDLL(d + '/ref.so')
v, s, i, z = ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_size_t
P.place_init.argtypes = [ctypes.c_uint64] * 2; P.place_live.restype = ctypes.c_long; P.place_total.restype = ctypes.c_ulong
for n, r, a in (('r_ctx', v, []), ('r_free', None, [v]), ('r_str', i, [v, s, s]), ('r_int', i, [v, s, i]), ('r_sub', i, [v, s, v]), ('r_arr', v, [v, s]), ('r_arr_done', None, [v]),
                ('r_l_str', i, [v, s]), ('r_l_int', i, [v, i]), ('r_l_sub', i, [v, v]), ('r_flt', i, [v, s, i]), ('r_render', v, [v, s, z]), ('r_text_done', None, [v])):
    getattr(R, n).restype = r; getattr(R, n).argtypes = a
PLACES = {'low': (0x20000000, 0), 'above-2G': (0x90000000, 0), 'above-4G': (0x1_20000000, 0), 'high': (0x3fff_a0000000, 0), 'mixed': (0x3fff_a0000000, 0x30000000)}
e = P.place_init(*PLACES[placement])
if e: print('harness: can not place memory', e); sys.exit(2)

mf = open('%s/progress.%s.%d' % (d, placement, shard), 'w+b'); mf.truncate(8192); mem = mmap.mmap(mf.fileno(), 8192)
cases = [0]
def progress(case):
    cases[0] += 1
    b = json.dumps(case).encode()[:8000]; mem[16:16 + len(b)] = b; mem[0:16] = struct.pack('QQ', cases[0], len(b))
class Violation(Exception): pass
def fail(msg): raise Violation(msg)

# --- the model of a context: ['str', text] ['int', n] ['list', [..]] ['dict', [[name, value]..]] ['filter', kind]; a context is a [[name, value]..]
FILTERS = [lambda a: b'z', lambda a: b'<' + (b'-' if a is None else a) + b'>', lambda a: '\u00e9\u20ac'.encode(), lambda a: b'']
def py(x):
    k, a = x
    if k in ('str', 'int', 'bool'): return a
    if k == 'list': return [py(y) for y in a]
    if k == 'dict': return {n: py(y) for n, y in a}
    return G.GshklFilterFunc(FILTERS[a])
def ref_add(c, n, x):
    k, a = x; n = n.encode()
    if k == 'str': R.r_str(c, n, a.encode())
    elif k in ('int', 'bool'): R.r_int(c, n, int(a))
    elif k == 'filter': R.r_flt(c, n, a)
    elif k == 'dict': R.r_sub(c, n, ref_ctx(a))
    else:
        l = R.r_arr(c, n)
        for kk, aa in a:
            if kk == 'str': R.r_l_str(l, aa.encode())
            elif kk in ('int', 'bool'): R.r_l_int(l, int(aa))
            else: R.r_l_sub(l, ref_ctx(aa))
        R.r_arr_done(l)
def ref_ctx(m):
    c = R.r_ctx()
    for n, x in m: ref_add(c, n, x)
    return c
def ref_render(c, t):
    b = t.encode(); r = R.r_render(c, b, len(b)); o = ctypes.string_at(r); R.r_text_done(r); return o.decode(errors='ignore')
def binding(f):      # what the library allocates meanwhile comes from the arena
    P.place_on(1)
    try: return f()
    finally: P.place_on(0)
junk = []
def scribble():      # closures of dropped filters are reused by others
    gc.collect(); junk[:] = [G.GshklFilterFunc(lambda a: b'WRONG FILTER') for _ in range(4)]
stats = dict(executions=0, renders=0, calls=0, states=set(), outcomes=set(), samples=[], complete=True)
def compare(t, got, want, what):
    stats['renders'] += 1
    got = got.replace('\ufffd', '') # what is left of a character that the limit of a value cuts in half is nobody's business
    if got != want: fail('template %r renders as %r through the binding (%s), as %r in C' % (t, got, what, want))
    stats['outcomes'].add(hash(want))
def balance(what):
    gc.collect(0)
    if P.place_live() : gc.collect()
    if P.place_bad(): fail('%s: memory was released %s' % (what, 'twice' if P.place_bad() == 1 else 'that is not the beginning of a block'))
    if P.place_live(): fail('%s: %d blocks are still allocated after everything was dropped' % (what, P.place_live()))
    stats['calls'] += P.place_total() and 1
    P.place_reset()

def run_case(case):
    kind = case[0]
    try:
        if kind == 'render':         # one context, several templates, each several times
            _, m, ts = case
            rc = ref_ctx(m)
            c = binding(lambda: G.Context({n: py(x) for n, x in m}))
            if any(x[0] == 'filter' or x[0] == 'dict' or x[0] == 'list' for _, x in m): scribble()
            for t in ts:
                want = ref_render(rc, t); T = G.Template(t)
                compare(t, binding(lambda: T.render(c)), want, 'first rendering')
                compare(t, binding(lambda: T.render(c)), want, 'second rendering')
                stats['states'].add(hash((placement, str(m), t)))
            compare(ts[0], binding(lambda: G.Template(ts[0]).render(c)), ref_render(rc, ts[0]), 'after other templates')
            R.r_free(rc)
            def drop():
                nonlocal c; del c
            binding(drop); balance('context %r' % m)
        else:                        # a history over two contexts and two templates
            _, ms, ts, ops = case
            live = {}; T = {}; rcs = [ref_ctx(m) for m in ms]
            for op in ops:
                o, k = op[0], op[1]
                if o == 'new': live[k] = binding(lambda: G.Context({n: py(x) for n, x in ms[k]}))
                elif o == 'drop':
                    def drop(): del live[k]
                    binding(drop)
                elif o == 'gc': binding(scribble)
                else:
                    t = ts[op[2]]; tt = T.setdefault(op[2], G.Template(t))
                    compare(t, binding(lambda: tt.render(live[k])), ref_render(rcs[k], t), 'after %r' % (ops,))
                stats['states'].add(hash((placement, str(ms), str(ops[:ops.index(op) + 1]))))
            binding(live.clear); T.clear(); balance('history %r' % (ops,))
            for c in rcs: R.r_free(c)
    except Violation: raise
    except Exception as x: fail('the binding raises %s: %s' % (type(x).__name__, x))
    finally:
        stats['executions'] += 1
    if len(stats['samples']) < 3 and stats['executions'] % 37 == 1: stats['samples'].append('%s memory: %s' % (placement, json.dumps(case)[:400]))

# --- the cases
S, I, L, D, F = (lambda a: ['str', a]), (lambda a: ['int', a]), (lambda *a: ['list', list(a)]), (lambda **a: ['dict', [[k, x] for k, x in a.items()]]), (lambda k: ['filter', k])
DL = lambda *a: ['dict', list(a)]
ENTRIES = [                          # name, value, templates that refer to it
 ('s', S('abc'), ['xXx @s xXx', 'a xXx @s xXx\u00e9 xXx @s xXx']), ('u', S('\u00e9\u20ac\U0001f600'), ['xXx @u xXx', '\u00fc xXx @u xXx \u00fc']),
 ('e', S(''), ['[xXx @e xXx]', 'xXx UNLESS NOT @e xXxyesxXx ENDLESS xXx']), ('big', S('x' * 511 + 'y'), ['xXx @big xXx']), ('cut', S('w' * 700), ['xXx @cut xXx']),
 ('i', I(7), ['xXx @i xXx', 'xXx UNLESS NOT @i xXxyesxXx ENDLESS xXx']), ('neg', I(-2147483648), ['xXx @neg xXx']), ('max', I(2147483647), ['xXx @max xXx']), ('zero', I(0), ['xXx @zero xXx']),
 ('flag', ['bool', True], ['xXx @flag xXx']),
 ('no', L(), ['xXx LOOP k no xXx(xXx @k xXx)xXx BBL xXx.', 'xXx UNLESS NOT @no xXxyesxXx ENDLESS xXx']),
 ('l', L(S('a'), S('\u00e9'), I(3)), ['xXx LOOP k l xXx(xXx @k xXx)xXx BBL xXx', 'xXx LOOP k l xXx\n- xXx @k xXx\nxXx BBL xXx\n', '\u00e9\nxXx LOOP k l xXx\u20acxXx @k xXxxXx BBL xXx']),
 ('one', L(I(-5)), ['xXx LOOP k one xXxxXx @k xXx;xXx BBL xXx']), ('many', L(*[I(n) for n in range(40)]), ['xXx LOOP k many xXxxXx @k xXx;xXx BBL xXx']),
 ('dl', L(D(n=S('One'), m=I(1)), D(n=S('\u00e9'), m=I(-2))), ['xXx LOOP k dl xXxxXx @k.n xXx-xXx @k.m xXx;xXx BBL xXx', 'xXx LOOP k dl xXx\nxXx @k.m xXx xXx @k.n xXx\nxXx BBL xXx\n']),
 ('mix', L(S('p'), D(n=S('q'))), ['xXx LOOP k mix xXx.xXx BBL xXx']),
 ('dlf', L(DL(['n', S('One')], ['deep', F(1)]), DL(['n', S('Two')])), ['xXx LOOP k dlf xXx[xXx @k.n xXx]xXx BBL xXx']),
 ('d', D(n=S('test'), m=I(777)), ['xXx @d.n xXx', 'xXx @d.m xXx+xXx @d.n xXx', 'xXx UNLESS @d.n xXxshownxXx ENDLESS xXx']),
 ('de', D(), ['plain']), ('dd', D(n=S('\u00e9'), in_=D(k=S('v'), l=L(S('x')))), ['xXx @dd.n xXx']), ('df', DL(['n', S('x')], ['f', F(0)]), ['xXx @df.n xXx']),
 ('z', F(0), ['XxX z anything XxX', 'XxX z XxX']), ('w', F(1), ['XxX w some \u00e9 text XxX', 'XxX w XxX', '\u00e9XxX w a XxX\nXxX w b XxX\n']), ('uf', F(2), ['XxX uf \u20ac XxX!', 'XxX uf XxX']), ('ef', F(3), ['[XxX ef x XxX]']),
]
NEUTRAL = ['', 'text', '\u00e9\n', '\u20ac\U0001f600 line\nnext\n', '<a href="%s">\\n & 100%</a>']
COMBO = {('s', 'w'): ['XxX w xXx @s xXx XxX'], ('u', 'w'): ['XxX w xXx @u xXx XxX'], ('l', 'w'): ['xXx LOOP k l xXxXxX w xXx @k xXx XxXxXx BBL xXx'], ('l', 's'): ['xXx LOOP k l xXxxXx @k xXx xXx @s xXx,xXx BBL xXx'],
         ('dl', 'z'): ['xXx LOOP k dl xXxXxX z F XxX xXx @k.n xXxxXx BBL xXx'], ('d', 'w'): ['XxX w xXx @d.n xXx XxX']}
CHARS = ['a', ' ', '\n', '%', '\\', '"', '@', '&', '\x7f', '\u00e9', '\u20ac', '\U0001f600', '\ufeff', '\u2028', '\u0130']
def gen():
    q = tier != 'thorough'
    # every context of up to 2 (3) entries in every order, with every sequence of up to 2 applicable fragments
    for n in range(0, 3 if q else 4):
        for es in (itertools.permutations(ENTRIES, n) if n < 3 else itertools.combinations(ENTRIES, n)):
            fr = [t for e in es for t in e[2]] + [t for a, b in COMBO for t in COMBO[a, b] if a in [e[0] for e in es] and b in [e[0] for e in es]] + (NEUTRAL if n < 2 or not q else NEUTRAL[:3])
            m = [[e[0], e[1]] for e in es]
            block = lambda t: t.startswith('xXx LOOP') or t.startswith('xXx UNLESS')    # these stand at the beginning of a line
            ts = [a + b for a in fr for b in fr + ['\n' + f for f in fr] if not block(b)] if n < 2 or (n < 3 and not q) else fr + [a + '\n' + b for a, b in zip(fr, fr[1:] + fr[:1])]
            yield ['render', m, list(dict.fromkeys(ts))]
    # every text of up to 2 (3) characters as a template, as a value, as an element, as an item, as an argument
    for n in range(0, 3 if q else 4):
        for cs in itertools.product(CHARS, repeat=n):
            t = ''.join(cs)
            yield ['render', [['v', S(t)], ['l', L(S(t), S(t))], ['d', D(n=S(t))], ['w', F(1)]], [t, 'xXx @v xXx|' + t, 'xXx LOOP k l xXx' + t + 'xXx @k xXxxXx BBL xXx', 'xXx @d.n xXx'] + (['XxX w .' + t + '. XxX'] if '\n' not in t else [])]
    # every integer near a power of two
    for b in range(0, 32):
        for n in (1 << b, (1 << b) - 1, (1 << b) + 1, -(1 << b), -(1 << b) - 1, -(1 << b) + 1):
            if -2**31 <= n < 2**31: yield ['render', [['i', I(n)], ['l', L(I(n), I(n))], ['d', D(n=I(n))]], ['xXx @i xXx', 'xXx LOOP k l xXxxXx @k xXx xXx BBL xXx', 'xXx @d.n xXx']]
    # numbers of entries, of elements, of lines and lengths of text around every size the library might round to
    for n in list(range(0, 70)) + ([127, 128, 129, 255, 256, 257, 511, 512, 513] if q else list(range(70, 600))):
        yield ['render', [['s%d' % k, S('v%d' % k)] for k in range(n)] + [['t', S('end')]], ['xXx @t xXx' + (' xXx @s%d xXx' % (n - 1) if n else '')]]
        yield ['render', [['l', L(*[S('e%d' % k) for k in range(n)])], ['f', F(1)]], ['xXx LOOP k l xXx.xXx @k xXxxXx BBL xXx']]
        yield ['render', [['f%d' % k, F(k % 4)] for k in range(n)] + [['g', F(1)]], ['XxX g x XxX' + (' XxX f%d y XxX' % (n - 1) if n else '')]]
        yield ['render', [['s', S('\u00e9' * (n // 2) + 'a' * (n % 2))]], ['\u00e9' * n, 'a' + '\u20ac' * n + 'xXx @s xXx', 'l\n' * n]]
    # values around the 512 bytes that are kept, with characters of every size across the limit
    for ch in ('a', '\u00e9', '\u20ac', '\U0001f600'):
        for n in (range(500, 525) if q else range(480, 540)):
            v = S('a' * n + ch * (1 if n % 2 else 20)); yield ['render', [['s', v], ['l', L(v, S('x'), v)], ['d', D(n=v)]], ['xXx @s xXx.', '\u00e9\nxXx LOOP k l xXx[xXx @k xXx]xXx BBL xXx', 'xXx @d.n xXx\u20ac']]
    # every history of two contexts and two templates
    ms = [[['x', S('A\u00e9')], ['f', F(1)], ['l', L(S('1'), I(2))]], [['x', I(5)], ['f', F(2)], ['l', L()]]]
    ts = ['\u00e9xXx @x xXx XxX f q XxX', 'xXx LOOP k l xXx(xXx @k xXx)xXx BBL xXx.']
    depth = 6 if q else 8
    def hist(ops, alive):
        if ops and (ops[-1][0] == 'ren' or len(ops) == depth): yield ['history', ms, ts, list(ops)]
        if len(ops) == depth: return
        for k in (0, 1):
            if k not in alive:
                if k == 0 or 0 in alive or ops: yield from hist(ops + [['new', k]], alive | {k})
            else:
                yield from hist(ops + [['drop', k]], alive - {k})
                for t in (0, 1): yield from hist(ops + [['ren', k, t]], alive)
        if ops and ops[-1][0] != 'gc': yield from hist(ops + [['gc', 0]], alive)
    yield from hist([], frozenset())

end = time.time() + budget; rc = 0
try:
    if one: progress(one); P.place_reset(); run_case(one)
    else:
        for k, c in enumerate(gen()):
            if k % shards != shard: continue
            if time.time() > end: stats['complete'] = False; break
            progress(c); run_case(c)
except Violation as x:
    stats['violation'] = str(x); rc = 1
stats['states'] = len(stats['states']); stats['outcomes'] = [str(h) for h in stats['outcomes']]; stats['allocations'] = P.place_total()
json.dump(stats, open('%s/result.%s.%d' % (d, placement, shard), 'w'))
sys.stdout.flush(); os._exit(rc)
