#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source."""
import sys, os, json, time, shutil, tempfile, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mm
ALL = ['sgemm', 'dgemm', 'cgemm', 'zgemm']
REAL, CPLX = ALL[:2], ALL[2:]
# what the evaluation of the loop-nest summary checks, by property
EVAL = {'C01': ['c-value'], 'C02': ['c-value'], 'C03': ['c-value'], 'C04': ['beta0-no-read'], 'C05': ['c-write-inside'], 'C06': ['c-read-inside', 'pack-source'],
        'C07': ['scratch-bounds', 'pack-precondition'], 'C08': ['panel-fresh'], 'C09': ['panel-align', 'tile-align'], 'C10': ['race-free'], 'C14': ['released-once', 'alloc-size'],
        'C15': ['*'], 'C19': ['*'], 'C16': ['race-free', 'panel-fresh', 'no-shared-state', 'history-independent'], 'C12': ['threads-within-setting'], 'C11': ['c-value'], 'C21': ['join-own-node']}
class Ctx:
    def __init__(self, prop, tier, work):
        self.prop, self.tier, self.work = prop, tier, work
        self.preps, self.lists, self.queue, self.done = {}, {}, [], set()
    def prep(self, cfg, tag=None, envx=None):
        key = cfg + (tag or '')
        if key not in self.preps:
            args = mm.CONFIGS[cfg]['args']
            self.preps[key] = mm.Prep(key, self.work, envx, args)
        return self.preps[key]
    def prep_all(self, keys):
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex: list(ex.map(lambda k: self.prep(*k), keys))
    def list(self, p):
        if p.name not in self.lists:
            d = p.job('list')
            if d.get('error'): raise mm.NoAnswer('analyser failed on %s: %s' % (p.name, d['error']))
            self.lists[p.name] = d['facts']
        return self.lists[p.name]
    def kernels(self, p, pre=None):
        ks = [k[7:] for k in self.list(p) if k.startswith('kernel ')]
        return [k for k in ks if pre is None or any(k.startswith(x[0]) for x in pre)]
    def cpus(self, p, entry):
        v = self.list(p).get('entry ' + entry)
        return None if v is None else v.split('|')
    def add_kernels(self, p, ents=ALL):
        for k in self.kernels(p, ents): self.add(p, 'kernel|' + k, 1)
    def add(self, p, job, w=1, env=None):
        """env: build-time settings the job is analysed under"""
        if (p.name, job, str(env)) in self.done: return
        self.done.add((p.name, job, str(env)))
        self.queue.append((p, job, w, env))
    def add_entry(self, p, e, picks, level, cpu, env=None):
        w = {'1,1': 10, '1,2': 14, '2,1': 14}.get(picks, 25) * {'s': 1, 'd': .6, 'c': .7, 'z': 1.2}[e[0]]
        self.add(p, 'entry|%s|%s|%d' % (e, picks, level) + ('' if cpu is None else '|' + cpu), w * (4 if cpu is None else 1), env)
    def add_entries(self, p, ents, picks, cpus='all', level=1, env=None):
        """cpus: all = one analysis per set of detected instruction sets; best/none = the largest/the empty one; sym = CPU left symbolic"""
        for e in ents:
            l = self.cpus(p, e)
            if l is None: continue
            if cpus == 'all': sel = l
            elif cpus == 'best': sel = [max(l, key=len)]
            elif cpus == 'ends': sel = sorted({max(l, key=len), min(l, key=len)})
            elif cpus == 'none': sel = [min(l, key=len)]
            else: sel = [None]
            for pk in picks:
                for c in sel: self.add_entry(p, e, pk, level, c, env)
    def run(self):
        self.queue.sort(key=lambda j: -j[2])
        q, self.queue = self.queue, []
        res = mm.run_jobs([(p, j, env) for p, j, _, env in q])
        for (p, j, _, env), d in zip(q, res): d['env'], d['prep'] = env, p
        # numbers of workers other than one and two
        for d in list(res):
            if not d['job'].startswith('entry|'): continue
            for w in d['facts'].get('worker counts', '').split(','):
                if w.isdigit() and int(w) > 2:
                    a = d['job'].split('|')
                    for pk in ('%s,1', '%s,2', '1,%s', '2,%s', '%s,%s'): self.add(d['prep'], '|'.join([a[0], a[1], pk.replace('%s', w)] + a[3:]), 25, d['env'])
        if self.queue: res += self.run()
        return res

def plan(c):
    P, th = c.prop, c.tier == 'thorough'
    rel = c.prep('rel') if P != 'C15' else None
    many = ['1,2', '2,1', '2,2'] if th else ['2,2']
    lv = 2 if th else 1
    if P in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09'):
        ents = REAL if P == 'C01' else CPLX if P == 'C02' else ALL
        c.add_kernels(rel, ents)
        c.add_entries(rel, ents, ['1,1'], 'all', lv)
        c.add_entries(rel, ents, many, 'all' if th else 'best', lv)
        if P in ('C07', 'C08', 'C09', 'C06') or th:
            # scratch memory lives elsewhere without the standard library
            ns = c.prep('nostd'); c.add_entries(ns, ents, ['1,1'], 'all' if th else 'none', lv)
            if th: c.add_kernels(ns, ents)
    elif P in ('C10', 'C11', 'C16'):
        if P != 'C16': c.add_kernels(rel)
        c.add_entries(rel, ALL, ['1,2', '2,1', '2,2'] + (['1,1'] if P != 'C10' else []), 'all' if th else 'best', lv)
        if P == 'C10' and not th: c.add_entries(rel, ['sgemm', 'dgemm'], ['2,2'], 'none', lv)
    elif P == 'C13':
        c.add_entries(rel, ALL, ['1,1'], 'sym', 0)
        c.add_kernels(rel)
        if th:
            for cfg in ('nothread', 'nostd', 'min', 'constconf'): p = c.prep(cfg); c.add_entries(p, ALL, ['1,1'], 'sym', 0); c.add_kernels(p)
            for f in ('fma', 'avx', 'sse2', 'fallback', 'avx2', 'none'): p = c.prep('rel', '-mmtest-' + f, {'MMTEST_FEATURE': f}); c.add_entries(p, ALL, ['1,1'], 'sym', 0)
    elif P == 'C14':
        c.add_entries(rel, ALL, ['1,1', '2,2'] if not th else ['1,1', '1,2', '2,1', '2,2'], 'all' if th else 'best', lv)
        c.add_entries(rel, ALL, ['1,1'], 'none', lv)
    elif P in ('C17', 'C18'):
        d = c.prep('dbg')
        for p in [rel, d]:
            c.add_kernels(p)
            c.add_entries(p, ALL, ['1,1'], 'all' if th else 'ends', lv)
            if p is rel or th: c.add_entries(p, ALL, many, 'all' if th else 'best', lv)
        for cfg in (['nothread', 'nostd'] if th else []): p = c.prep(cfg); c.add_entries(p, ALL, ['1,1'], 'all', lv)
    elif P == 'C19':
        for cfg in ('dbg', 'nothread', 'nostd', 'min') + (('rel', 'constconf') if th else ()):
            p = c.prep(cfg)
            c.add_kernels(p)
            c.add_entries(p, ALL, ['1,1'], 'all' if th else 'ends' if cfg in ('nostd', 'min') else 'best', lv)
    elif P == 'C12':
        for cfg in ('rel', 'dbg', 'nothread') + (('constconf',) if th else ()):
            p = c.prep(cfg)
            for e in ALL: c.add(p, 'registry|' + e, 4)
        c.add_entries(rel, ALL, ['1,1', '1,2', '2,1', '2,2'], 'all' if th else 'best', lv)
    elif P == 'C21':
        for e in ALL: c.add(rel, 'registry|' + e, 4)
        c.add_entries(rel, ALL, ['1,2', '2,1', '2,2'], 'all' if th else 'best', lv)
        if not th: c.add_entries(rel, ALL, ['2,2'], 'none', lv)
    elif P == 'C15': plan_conf(c, th, lv)
    else: raise SystemExit('no plan for ' + P)

ELEM = dict(S=('e4x1', 1024, 256, 64), D=('e8x1', 1024, 256, 64), C=('e8x2', 512, 256, 32), Z=('e16x2', 512, 256, 32))
def setting(t, d): return 'MATMUL_%sGEMM_%sC' % (t, d)
def plan_conf(c, th, lv):
    p = c.prep('constconf')
    c.add(p, 'parser', 2)
    # the mapping from settings to block sizes: nothing set, each one alone, all of them, all but one
    dist = {setting(t, d): str(v) for i, t in enumerate('SDCZ') for d, v in (('N', 2000 + 16 * i), ('K', 300 + 8 * i), ('M', 80 + 8 * i))}
    c.conf = [{}, dist] + [{k: v} for k, v in dist.items()] + [{k: v for k, v in dist.items() if k != x} for x in dist]
    for e in c.conf: c.add(p, 'list', 1, e)
    c.mal = [{setting('S', 'M'): '6 4'}, {setting('D', 'K'): '25x'}, {setting('C', 'N'): '-512'}, {setting('Z', 'N'): '0x200'}, {setting('S', 'K'): '25:'}, {setting('D', 'N'): '10/4'}]
    for e in c.mal: c.add(p, 'list', 1, e)
    # the loop nest under unusual block sizes (accepted ones, then ones the crate may refuse with a panic)
    good = [(8, 8, 8), (9, 10, 11), (20, 36, 100), (17, 200, 203), (24, 1000, 1500)] + ([(8, 9, 17), (64, 64, 64), (13, 64, 65536), (100, 101, 102), (300, 400, 500)] if th else [])
    c.bad = [(4, 4, 4), (7, 9, 9), (64, 32, 1024), (64, 256, 128), (1, 1, 1), (0, 8, 8), (8, 0, 8), (8, 8, 0)][:8 if th else 4]
    for mc, kc, nc in good + c.bad:
        env = {setting(t, d): str(v) for t in 'SDCZ' for d, v in (('N', nc), ('K', kc), ('M', mc))}
        c.add_entries(p, ALL, ['1,1'], 'all' if th else 'ends', lv, env)
        if (mc, kc, nc) in good and kc >= 128: c.add_entries(p, ALL if th else ['sgemm', 'cgemm'], ['2,2'], 'best', 1, env)
def may_panic(c, env):
    """settings that need not be accepted"""
    return env and any(all(env.get(setting('S', d)) == str(v) for d, v in zip('MKN', b)) for b in getattr(c, 'bad', []))
def decide_conf(c, res):
    out = []
    ob = lambda st, rule, at, what, detail='': out.append(dict(p=['C15'], rule=rule, at=at, span='', st=st, what=what, detail=detail))
    for d in res:
        if d['job'] != 'list': continue
        env = d['env']
        ks = {k[7:]: v for k, v in d['facts'].items() if k.startswith('kernel ')}
        if env in c.mal:
            ob('refuted' if ks and all(ks.values()) else 'proved', 'setting-rejected', 'build', 'the malformed setting %s is rejected at compile time' % env)
            continue
        if not ks:
            ob('refuted' if 'E0080' in d.get('error', '') else 'open', 'setting-accepted', 'build', 'the settings %s are accepted' % env, d.get('error', '')[:200])
            continue
        for kn, key in ks.items():
            t = next((t for t, x in ELEM.items() if key.startswith(x[0] + ' ')), None)
            if t is None or '/' not in key: ob('open', 'setting-mapping', kn, 'block sizes of the kernel found', key); continue
            got = key.split()[-1].split('/')
            for d_, g, df in zip('MKN', got, (ELEM[t][3], ELEM[t][2], ELEM[t][1])):
                s = setting(t, d_)
                want = env.get(s, str(df))
                ob('proved' if g == want else 'refuted', 'setting-mapping', kn, '%sC is %s with %s' % (d_, want, '%s=%s' % (s, env[s]) if s in env else '%s unset' % s), 'it is %s; settings: %s' % (g, env))
    return out

def prewarm(c):
    cfgs = {'C06': ['nostd'], 'C07': ['nostd'], 'C08': ['nostd'], 'C09': ['nostd'], 'C17': ['dbg'], 'C18': ['dbg'], 'C19': ['dbg', 'nothread', 'nostd', 'min'], 'C12': ['dbg', 'nothread'], 'C15': ['constconf']}.get(c.prop, [])
    if c.prop == 'C15': c.prep('constconf')
    elif c.prop == 'C19' and c.tier == 'quick': c.prep_all([(x,) for x in cfgs + ['rel']])
    else: c.prep_all([(x,) for x in ['rel'] + cfgs])

# in a build configuration other than the default one, every rule is part of C19 (and, for settable block sizes, of C15)
def relevant(prop, o): return prop in o['p'] or '*' in o['p'] or prop in ('C15', 'C19')

def decide(prop, res, c):
    """extra rules that compare several analyses"""
    out = []
    if prop == 'C15': out += decide_conf(c, res)
    if prop == 'C11':
        sig = collections.defaultdict(dict)
        for d in res:
            if not d['job'].startswith('entry|'): continue
            e, pk = d['job'].split('|')[1:3]
            for f, v in d['facts'].items():
                if f.startswith('sig '): sig[(e, f)][pk] = v
        n = 0
        for (e, f), m in sorted(sig.items()):
            if len(m) < 2: continue
            n += 1
            if len(set(m.values())) > 1:
                out.append(dict(p=['C11'], rule='thread-independent', at=e, span='', st='refuted', what='the sequence of operations on C differs between worker configurations', detail='%s: %s' % (f, m)))
        out.append(dict(p=['C11'], rule='thread-independent', at='all', span='', st='proved', what='%d call shapes have one operation sequence under every worker configuration that occurs' % n, detail='')) if n else None
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    # time spent on calls made after other calls, where calls leave something behind
    os.environ['MM_HIST_MS'] = '60000' if prop == 'C16' else '6000'
    ev = os.path.join(mm.HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, prop + '.json')
    if os.path.exists(evf): os.unlink(evf)
    work = tempfile.mkdtemp(prefix='mmsa-', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        mm.build_driver()
        c = Ctx(prop, tier, work)
        prewarm(c)
        plan(c)
        tq = time.time()
        res = c.run()
    finally: shutil.rmtree(work, ignore_errors=True)
    extra = decide(prop, res, c)
    obs = []
    for d in res:
        for o in d['obs']:
            if prop == 'C15' and may_panic(c, d['env']) and ('C17' in o['p'] or o['rule'] == 'anchor'): continue
            if relevant(prop, o): o = dict(o); o['job'] = d['job']; o['config'] = d['config']; obs.append(o)
    for o in extra: o['job'] = 'comparison'; o['config'] = '-'; obs.append(o)
    checked = collections.Counter()
    for d in res:
        for k, v in d['stats'].items():
            if k.startswith('checked ') and (k[8:] in EVAL.get(prop, []) or '*' in EVAL.get(prop, [])): checked[k[8:]] += v
    tot = lambda k: sum(d['stats'].get(k, 0) for d in res)
    cnt = collections.Counter(o['st'] for o in obs)
    byrule = collections.defaultdict(collections.Counter)
    for o in obs: byrule[o['rule']][o['st']] += 1
    errs = [dict(job=d['job'], config=d['config'], error=d['error'][-300:]) for d in res if d.get('error') and not (prop == 'C15' and d['env'] in c.mal)]
    notes = collections.Counter()
    for d in res:
        for n, x in d['notes'].items(): notes[n] += x
    anchors = [o for o in obs if o['rule'] == 'anchor']
    known = load_known()
    viol, kf = {}, {}
    for o in obs:
        if o['st'] != 'refuted': continue
        key = '%s %s @ %s' % (prop, o['rule'], o['at'])
        hit = next((k for k in known if k['property'] == prop and k['key'] in '%s | %s | %s' % (key, o['what'], o['detail'])), None)
        if hit: kf[hit['key']] = hit
        else: viol.setdefault(key, o)
    decided = cnt['proved'] + cnt['refuted'] + sum(checked.values())
    samples = [dict(rule=o['rule'], at=o['at'], what=o['what'][:200]) for o in dedupe(obs)][:25]
    cov = dict(
        explanation='Abstract interpretation of the type-checked MIR (as monomorphised by rustc) of every function reachable from the analysed entry points; nothing of the crate is executed. '
                    '"obligations" are decided symbolically for all values of the quantified variables; "conditions" are conditions on the derived loop-nest summary, decided at the listed number of valuations of sizes, strides, scalars, addresses, worker counts and CPU features.',
        obligations=len(obs), discharged=cnt['proved'], refuted=cnt['refuted'], undecided=cnt['open'],
        conditions=dict(checked), valuations=tot('valuations'),
        rules={r: dict(v) for r, v in sorted(byrule.items())},
        analyses=[dict(job=d['job'], config=d['config'], **({'settings': d['env']} if d.get('env') else {}), s=round(d.get('wall', 0), 1)) for d in res][:120],
        functions_interpreted=max([d['stats'].get('functions', 0) for d in res] or [0]), blocks_interpreted=tot('blocks interpreted'), loops=tot('loops'), loops_with_iteration_count=tot('loops bounded'), events=tot('events'), event_instances=tot('event instances'),
        kernels=sorted({k for d in res for k in [d['job'][7:]] if d['job'].startswith('kernel|')}),
        undecided_samples=[dict(rule=o['rule'], at=o['at'], what=o['what'][:160]) for o in obs if o['st'] == 'open'][:10],
        analysis_limits=[n[:160] for n, _ in notes.most_common(15)], failed_analyses=errs[:5], samples=samples, source=mm.src_hash())
    e = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', coverage=cov,
             assumptions=['rustc lowers the source to the analysed MIR faithfully, and its code generator preserves MIR semantics', 'models of intrinsics, of std/thread-tree/once_cell entry points and of floating-point operations as exact real arithmetic (DESIGN.md)'],
             wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(e, open(evf, 'w'), indent=1)
    print('%s %s: %d obligations (%d proved, %d undecided), %d conditions at %d valuations, %d analyses, %.0f s' % (prop, tier, len(obs), cnt['proved'], cnt['open'], sum(checked.values()), tot('valuations'), len(res), time.time() - t0))
    for k in kf.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for x in errs: print('analysis failed: %s [%s] %s' % (x['job'], x['config'], x['error'].replace('\n', ' ')[-200:]))
    if viol:
        rp = os.path.join(ev, prop + '.violations.json')
        json.dump(list(viol.values()), open(rp, 'w'), indent=1)
        for k, o in list(viol.items())[:12]: print('  %s %s: %s [%s] %s (%s, %s)' % (o['rule'], o['at'], o['what'][:300], o['detail'][:300], o['span'], o['job'], o['config']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if anchors or not decided:
        print('no answer: %s' % ('; '.join(o['what'] for o in anchors) or 'nothing was decided'))
        return 2
    return 0
def dedupe(obs):
    seen, out = set(), []
    for o in obs:
        k = (o['rule'], o['at'])
        if k not in seen: seen.add(k); out.append(o)
    return out
def load_known():
    f = os.path.join(mm.HERE, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=ID key=<text that identifies it> | <what fails>
                a, w = l[9:].split(' | ', 1)
                pr, key = a.split(' ', 1)
                out.append(dict(property=pr[9:], key=key[4:], what=w))
    return out
if __name__ == '__main__':
    try: sys.exit(main())
    except mm.NoAnswer as e: print('no answer:', str(e)); sys.exit(2)
