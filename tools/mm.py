"""Build and run the analyser (engine/) on /repo's current source.

The analyser is a rustc driver: it interprets the type-checked, monomorphic MIR of the crate abstractly.
Nothing of the crate is executed. One rustc invocation per job; cargo is used once per configuration to
compile dependencies and to obtain the exact rustc command line of the crate.
"""
import json, os, subprocess, sys, time, hashlib, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MM_REPO', '/repo')
ENGINE = os.path.join(HERE, 'engine')
BUILD = os.path.join(HERE, 'build')
DRIVER = os.path.join(BUILD, 'engine', 'release', 'mmsa')
TC = '+nightly'

CONFIGS = {
    'rel': dict(args=['--release', '--features', 'cgemm,threading']),
    'dbg': dict(args=['--features', 'cgemm,threading']),
    'nothread': dict(args=['--release', '--features', 'cgemm']),
    'nostd': dict(args=['--release', '--no-default-features', '--features', 'cgemm']),
    'min': dict(args=['--release', '--no-default-features']),
    'constconf': dict(args=['--release', '--features', 'cgemm,threading,constconf']),
}
class NoAnswer(Exception): pass
def env0():
    e = dict(os.environ)
    for v in ['RUSTFLAGS', 'MMTEST_FEATURE', 'MATMUL_NUM_THREADS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER']: e.pop(v, None)
    for k in list(e):
        if k.startswith('MATMUL_') or k.startswith('MMSA_') and not os.environ.get('MM_DEV'): e.pop(k)
    return e
def sysroot():
    return subprocess.run(['rustc', TC, '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()
_feat = None
def target_features():
    """instruction sets guaranteed at compile time"""
    global _feat
    if _feat is None:
        r = subprocess.run(['rustc', TC, '--print', 'cfg'], capture_output=True, text=True, check=True, cwd=REPO, env=env0()).stdout
        _feat = ','.join(l.split('"')[1] for l in r.splitlines() if l.startswith('target_feature='))
    return _feat
def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    e = env0(); e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'engine')
    r = subprocess.run(['cargo', TC, 'build', '--release', '--offline'], cwd=ENGINE, env=e, capture_output=True, text=True)
    if r.returncode: raise NoAnswer('analyser does not build:\n' + r.stderr[-3000:])
def src_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('target', '.git', 'testdefs', 'benches', 'examples', 'blas-bench', 'docs'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
def clean_err(t): return '\n'.join(l for l in t.split('\n') if '"$message_type"' not in l)

class Prep:
    """rustc command line of the crate in one configuration"""
    def __init__(self, name, work, envx=None, args=None):
        self.name = name
        self.dir = os.path.join(work, name)
        os.makedirs(self.dir, exist_ok=True)
        self.envx = dict(envx or {})
        dump = os.path.join(self.dir, 'cmd.json')
        e = env0(); e.update(self.envx)
        self.sys = sysroot()
        e['LD_LIBRARY_PATH'] = os.path.join(self.sys, 'lib')
        e.update(MMSA_DUMP=dump, RUSTFLAGS='-Zalways-encode-mir -Zub-checks=no', RUSTC_WORKSPACE_WRAPPER=DRIVER)
        a = args if args is not None else CONFIGS[name]['args']
        r = subprocess.run(['cargo', TC, 'check', '--offline', '--lib', '--target-dir', os.path.join(self.dir, 't')] + a, cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(dump): raise NoAnswer(f'/repo does not compile in configuration {name}:\n' + r.stderr[-3000:])
        self.cmd = json.load(open(dump))
    def job(self, job, opts=None):
        out = tempfile.mktemp(suffix='.json', dir=self.dir)
        e = env0(); e.update(self.cmd['env']); e.update(self.envx)
        e.update(LD_LIBRARY_PATH=os.path.join(self.sys, 'lib'), MMSA_JOB=job, MMSA_FEATURES=target_features(), MMSA_OUT=out, RUST_MIN_STACK=str(4 << 30))
        if opts: e.update(opts)
        t = time.time()
        try: r = subprocess.run([DRIVER] + self.cmd['args'], cwd=self.cmd['cwd'], env=e, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired: return dict(job=job, error='timeout', config=self.name, obs=[], notes={}, stats={}, facts={}, key='')
        if not os.path.exists(out): return dict(job=job, error=(clean_err(r.stderr)[:3000] or f'exit {r.returncode}'), config=self.name, obs=[], notes={}, stats={}, facts={}, key='')
        d = json.load(open(out)); os.unlink(out)
        d['config'] = self.name; d['wall'] = time.time() - t
        if os.environ.get('MM_VERBOSE'): sys.stderr.write(r.stderr)
        return d
def run_jobs(jobs, n=8):
    """jobs: (prep, job string[, environment])"""
    with cf.ThreadPoolExecutor(n) as ex: return list(ex.map(lambda j: j[0].job(j[1], j[2] if len(j) > 2 else None), jobs))
