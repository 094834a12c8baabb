#!/usr/bin/env python3
"""check.py PROPERTY...   decide properties of /repo's current source.

Dumps the MIR of /repo's crates with the driver in engine/mirdump (rustc_private), evaluates it with the
gated value-numbering engine in engine/mirval.py, and applies the property's rule from rules/.
Exit 0: no violation; 1: VIOLATION line printed; 2: no answer (the tree could not be analysed)."""
import glob, hashlib, importlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.setrecursionlimit(20000)
MODULES = {'tls': ['verify', 'wire', 'records', 'suites', 'misc', 'shapes'], 'core': ['core_rules'], 'att': ['att_rules'], 'mpc': ['mpc_rules', 'client_rules'], 'fmt': ['fmt_rules'], 'prot': ['prot_rules']}

class NoAnswer(Exception): pass
class NoInterface(NoAnswer): pass      # the crate does not type-check against the dependency interfaces of engine/stubws

def sh(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')

def environ(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('RUSTC', 'CARGO_BUILD', 'CARGO_PROFILE', 'CARGO_ENCODED', 'RUSTFLAGS', 'CARGO_TARGET', 'RUSTUP_TOOLCHAIN', 'MIRDUMP'))}
    e.setdefault('HOME', '/root')
    e['PATH'] = e.get('PATH', '') + ':/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin'
    e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'; e['CARGO_INCREMENTAL'] = '0'
    e.update(extra or {})
    return e

def sysroot():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'], environ())
    if rc: raise NoAnswer('no nightly toolchain: ' + out[-300:])
    return out.strip().splitlines()[-1]

def build_driver(dst):
    rc, out = sh(['rustc', '+nightly', '--edition', '2021', os.path.join(HERE, 'engine/mirdump/main.rs'), '-o', dst], environ())
    if rc: raise NoAnswer('the MIR driver does not build: ' + out[-2000:])

def dump(ws, repo, packages, features=()):
    """dump the MIR of packages of workspace template `ws`; -> (list of JSON files, scratch dir)"""
    scratch = tempfile.mkdtemp(prefix='verif-mir-')
    try:
        root = os.path.join(scratch, 'ws'); os.mkdir(root)
        for f in ('Cargo.toml', 'Cargo.lock'): shutil.copy(os.path.join(ws, f), root)
        for f in os.listdir(ws):
            p = os.path.join(ws, f)
            if os.path.isdir(p): shutil.copytree(p, os.path.join(root, f))
        os.symlink(os.path.join(repo, 'crates'), os.path.join(root, 'crates'))
        for l in glob.glob(root + '/pk/*/links'):              # source files of the repository in a package of ours
            for to, src in (x.split() for x in open(l)): os.symlink(os.path.join(root, src), os.path.join(os.path.dirname(l), to))
        drv = os.path.join(scratch, 'mirdump'); build_driver(drv)
        out = os.path.join(scratch, 'out'); os.mkdir(out)
        env = environ({'LD_LIBRARY_PATH': sysroot() + '/lib', 'MIRDUMP_OUT': out, 'RUSTC_WORKSPACE_WRAPPER': drv, 'CARGO_TARGET_DIR': os.path.join(scratch, 'target')})
        cmd = ['cargo', '+nightly', 'check', '--offline', '--lib'] + sum((['-p', p] for p in packages), [])
        if features: cmd += ['--features', ','.join(features)]
        rc, log = sh(cmd, env, root)
        files = sorted(glob.glob(out + '/*.json'))
        shutil.rmtree(os.path.join(scratch, 'target'), ignore_errors=True)
        return rc, log, files, scratch
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise

def tree_hash(repo):
    h = hashlib.sha256()
    for base in (os.path.join(repo, 'crates'), os.path.join(HERE, 'engine')):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('target', '__pycache__', 'node_modules'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')) and not (base.endswith('engine') and f.endswith('.py')):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

# what a rule needs: (workspace template, package, features, crates that must have been analysed)
KINDS = {'tls': ('ws', 'tlsn-tls-core', ['tlsn-tls-core/serde'], ['tls_core']),
         'core': ('stubws', 'tlsn-core', [], ['tls_core', 'tlsn_core']),
         'att': ('stubws', 'tlsn-attestation', [], ['tls_core', 'tlsn_core', 'tlsn_attestation']),
         'mpc': ('stubws', 'tlsn-mpc-tls', [], ['tls_core', 'tlsn_core', 'mpc_tls']),
         'fmt': ('stubws', 'tlsn-formats', [], ['tls_core', 'tlsn_core', 'tlsn_formats']),
         'prot': ('stubws', 'tlsn', [], ['tls_core', 'tlsn_core', 'tlsn'])}

def get_db(kind):
    import mirval
    ws, pk, ft, crates = KINDS[kind]
    ws = os.path.join(HERE, 'engine', ws)
    cache = None
    if os.environ.get('VERIF_DEVCACHE'):       # development only; registered commands never set it
        cache = os.path.join(os.environ['VERIF_DEVCACHE'], '%s-%s' % (kind, tree_hash(REPO)))
        if os.path.isdir(cache): return mirval.DB(sorted(glob.glob(cache + '/*.json')))
    rc, log, files, scratch = dump(ws, REPO, [pk], ft)
    try:
        got = {os.path.basename(f)[:-5] for f in files}
        if rc or not set(crates) <= got: raise (NoInterface if 'stubws' in ws else NoAnswer)('the crate could not be type-checked (analysed: %s): %s' % (sorted(got), log[-3000:]))
        db = mirval.DB(files)
        if cache:
            os.makedirs(cache); [shutil.copy(f, cache) for f in files]
        return db
    finally: shutil.rmtree(scratch, ignore_errors=True)

def find_rule(pid):
    for kind, mods in MODULES.items():
        for m in mods:
            if not os.path.exists(os.path.join(HERE, 'rules', m + '.py')): continue
            mod = importlib.import_module(m)
            if hasattr(mod, pid): return kind, getattr(mod, pid)
    raise NoAnswer('no rule for ' + pid)

def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def decide(pid, db, fn, tier, t0):
    import rules
    ctx = rules.Ctx(pid, db)
    ctx.tier = tier
    def late(*a): raise TimeoutError('evaluation exceeded its time limit')
    signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, 600, 20)
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    try: fn(ctx)
    except Exception:
        # a construct could not be evaluated (or not in time): everything decided so far stands, the rest is undecided
        tb = traceback.format_exc()
        ctx.unk('engine', 'evaluation stopped: ' + tb[-400:])
        print(tb[-1500:], file=sys.stderr)
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    kn = {k: d for p, k, d in known() if p == pid}
    viol = [v for v in ctx.violations if v['key'] not in kn]
    seen = [v for v in ctx.violations if v['key'] in kn]
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    per = {}
    for k, st, d in ctx.obl: per[st] = per.get(st, 0) + 1
    cov = dict(explanation='Static analysis of the type-checked program: every obligation below is decided on the MIR of the current source tree by evaluating the '
               'anchored functions (gated value numbering over the control-flow graph, conditions as BDDs, callees inlined) and comparing the resulting '
               'return values, guards and call arguments with the rule. Nothing is executed.',
               rule=(fn.__doc__ or '').strip(), obligations=len(ctx.obl), discharged=per.get('discharged', 0), violated=per.get('violated', 0), undecided=per.get('undecided', 0),
               functions_analysed=len(ctx.functions), basic_blocks=ctx.blocks, call_sites=ctx.calls,
               anchors=sorted(set(map(str, ctx.anchors)))[:80], functions=sorted(rules.norm(f) for f in ctx.functions)[:200],
               samples=[dict(obligation=k, verdict=st, detail=d[:300]) for k, st, d in ctx.obl[:400]],
               undecided_obligations=[dict(obligation=k, reason=d[:300]) for k, d in ctx.unknowns][:50], notes=ctx.notes)
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
                   assumptions=['The dumped MIR is that of the default features plus serde on the host target.', 'Calls into dependencies are opaque functions of their arguments unless modelled in engine/models.py.'],
                   wall_s=round(time.time() - t0, 3), violations=len(viol)), open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    for v in seen: print('KNOWN-FINDING: property=%s %s' % (pid, kn[v['key']]))
    if viol:
        rp = os.path.join(ev, pid + '.replay.json')
        json.dump(dict(property=pid, violations=viol, how='re-run: python3 check.py %s' % pid), open(rp, 'w'), indent=1)
        for v in viol[:20]: print('  %s: %s [%s]' % (v['key'], v['msg'][:600], v['where']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: no violation; %d obligations, %d discharged, %d undecided, %d functions' % (pid, len(ctx.obl), per.get('discharged', 0), per.get('undecided', 0), len(ctx.functions)))
    return 0

def undecided(pid, tier, why, t0):
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=dict(explanation='Nothing was decided: the crate does not type-check against the dependency interfaces.', obligations=0, undecided=1, reason=why[-1500:]),
                   assumptions=[], wall_s=round(time.time() - t0, 3), violations=0), open(os.path.join(ev, pid + '.json'), 'w'), indent=1)

def main(argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    ids = [a for a in argv if not a.startswith('-')]
    if '--setup' in argv:
        d = tempfile.mkdtemp(prefix='verif-setup-')
        try: build_driver(os.path.join(d, 'mirdump'))
        finally: shutil.rmtree(d, ignore_errors=True)
        print('driver builds'); return 0
    dbs = {}; worst = 0
    for pid in ids:
        try:
            kind, fn = find_rule(pid)
            if kind not in dbs: dbs[kind] = get_db(kind)
            t1 = time.time() if len(ids) > 1 else t0
            rc = decide(pid, dbs[kind], fn, tier, t1)
        except NoInterface as e:
            # the code uses something of a dependency that the interface stubs lack: nothing can be said, which is no violation
            print('%s: undecided: %s' % (pid, e)); rc = 0; undecided(pid, tier, str(e), t0)
        except NoAnswer as e:
            print('%s: no answer: %s' % (pid, e)); rc = 2
        except Exception:
            traceback.print_exc(); print('%s: no answer: internal error' % pid); rc = 2
        worst = rc if rc == 1 or worst == 0 else worst
    return worst
if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
