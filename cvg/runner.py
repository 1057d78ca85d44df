"""Common driver of all checks:  python3-vt /verif/check.py <property> [--tier quick|thorough]

For one property: (1) compile /repo's current sources to LLVM IR and discharge the obligations of every function
under contract (proof units, each in its own process), (2) compile and run the native contract monitor against
the same sources (bounded; concrete inputs), (3) decide, print, write evidence/<id>.json.
"""
import os, sys, json, time, shutil, subprocess, tempfile, hashlib, multiprocessing, traceback, importlib, re, signal, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify)'


def tool(n):
    for c in (LLVM + n, n + '-18', n):
        p = shutil.which(c)
        if p: return p
    return n


class ExtractError(Exception):
    pass


class lock:
    def __init__(self, p): self.p = p + '.lock'
    def __enter__(self):
        import fcntl
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.dir = tempfile.mkdtemp(prefix='build-%s-' % pid, dir=os.path.join(VERIF, 'build'))
        self.cmds = []
        self._ll = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def inc(self):
        return ['-I' + REPO + '/src', '-I' + REPO + '/include', '-I' + self.gen(), '-I' + self.gen() + '/lightstep-tracer-common', '-I' + self.gen() + '/lightstep-tracer-configuration', '-I' + VERIF + '/harness', '-I' + VERIF + '/native', '-I' + REPO, '-I' + REPO + '/3rd_party/base64/include', '-I' + VERIF + '/harness/stubs']

    def gen(self):
        d = os.path.join(self.dir, 'generated')
        os.makedirs(d, exist_ok=True)
        return d

    def protos(self):
        """protobuf sources generated from /repo's .proto files (as the build does)"""
        d = self.gen()
        if os.path.exists(d + '/.done'): return d
        common = REPO + '/lightstep-tracer-common'; third = common + '/third_party/googleapis'
        jobs = [(common, common), (third, common), (REPO + '/lightstep-tracer-configuration', REPO + '/lightstep-tracer-configuration')]
        for base, owner in jobs:
            ps = [f for f in sorted(os.listdir(base)) if f.endswith('.proto')] if os.path.isdir(base) else []
            if base == third: ps = ['google/api/annotations.proto', 'google/api/http.proto']
            out = d + '/' + os.path.basename(owner)
            os.makedirs(out, exist_ok=True)
            for p in ps:
                cmd = ['protoc', '-I' + base] + (['-I' + third] if os.path.isdir(third) else []) + ['--cpp_out=' + out, base + '/' + p]
                subprocess.run(cmd, capture_output=True)
        open(d + '/.done', 'w').close()
        return d

    def ll(self, src, defs=(), std='gnu++11', passes=PASSES, opt=True, extra=()):
        """compile one file (absolute path) to optimised textual IR; returns path"""
        key = hashlib.sha1(repr((src, defs, std, passes, opt, extra)).encode()).hexdigest()[:10]
        base = os.path.join(self.dir, os.path.basename(src).replace('.', '_') + '_' + key)
        out = base + '.o.ll'
        with lock(base):
            if os.path.exists(out): return out
            return self._ll_build(src, defs, std, passes, opt, extra, base, out)

    def _ll_build(self, src, defs, std, passes, opt, extra, base, out):
        cmd = [tool('clang++'), '-std=' + std, '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-w'] + list(extra) + (['-fno-access-control'] if src.startswith(VERIF) else []) + \
              ['-D' + d for d in defs] + self.inc() + [src, '-o', base + '.ll']
        self.cmds.append(' '.join(cmd))
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise ExtractError('clang: ' + r.stderr[-1500:])
        if not opt: return base + '.ll'
        cmd = [tool('opt'), '-S', '-passes=' + passes, base + '.ll', '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise ExtractError('opt: ' + r.stderr[-1500:])
        return out

    def offsets(self, headers, members, sizes=None, prelude='', defs=(), extra=()):
        """byte offsets of data members, from the compiler: {key: (class, member)}, plus sizes {key: type}"""
        key = ('off', tuple(headers), tuple(sorted(members.items())), tuple(sorted((sizes or {}).items())))
        if key in self._ll: return self._ll[key]
        src = os.path.join(self.dir, 'off_%s.cpp' % hashlib.sha1(repr(key).encode()).hexdigest()[:8])
        with lock(src):
            with open(src, 'w') as f:
                f.write(''.join('#include "%s"\n' % h for h in headers) + prelude + '\n')
                for i, (k, (c, m)) in enumerate(sorted(members.items())):
                    f.write('extern "C" const unsigned long vf_off_%d = __builtin_offsetof(%s, %s);\n' % (i, c, m))
                for i, (k, t) in enumerate(sorted((sizes or {}).items())):
                    f.write('extern "C" const unsigned long vf_size_%d = sizeof(%s);\n' % (i, t))
        out = open(self.ll(src, tuple(defs), opt=False, extra=('-fno-access-control',) + tuple(extra))).read()
        r = {}
        for i, k in enumerate(sorted(members)): r[k] = int(re.search(r'@vf_off_%d = .*constant i64 (\d+)' % i, out).group(1))
        for i, k in enumerate(sorted(sizes or {})): r[k] = int(re.search(r'@vf_size_%d = .*constant i64 (\d+)' % i, out).group(1))
        self._ll[key] = r
        return r

    def link(self, lls, name='linked', passes=None):
        out = os.path.join(self.dir, name + '.ll')
        if len(lls) == 1: return lls[0]
        with lock(out):
            return self._link(out, lls)

    def _link(self, out, lls):
        if os.path.exists(out): return out
        r = subprocess.run([tool('llvm-link'), '-S'] + list(lls) + ['-o', out], capture_output=True, text=True)
        if r.returncode: raise ExtractError('llvm-link: ' + r.stderr[-1500:])
        return out

    def module(self, srcs, defs=(), std='gnu++11', passes=PASSES, extra=(), name='linked'):
        """parsed IR of the given files: relative paths are /repo files, 'harness/x.cpp' come from /verif"""
        from . import ir
        key = (tuple(srcs), tuple(defs), std, passes)
        if key in self._ll: return self._ll[key]
        paths = [s if s.startswith('/') else (VERIF + '/' + s if s.startswith('harness/') else REPO + '/' + s) for s in srcs]
        lls = [self.ll(p, tuple(defs), std, passes, True, tuple(extra)) for p in paths]
        m = ir.parse_module(open(self.link(lls, name + '_' + hashlib.sha1(repr(key).encode()).hexdigest()[:8])).read())
        self._ll[key] = m
        return m


class Unit:
    """one proof unit: f(ctx) -> engine or list of engines"""
    def __init__(self, name, f, functions, timeout=240):
        self.name = name; self.f = f; self.functions = functions; self.timeout = timeout


def collect(engs):
    if engs is None: engs = []
    if not isinstance(engs, (list, tuple)): engs = [engs]
    res = dict(obls=[], inlined=[], contracts=[], stats=dict(solver_s=0.0, z3=0, cvc5=0, loops=0), inv=[], assumptions=[], nsw=0, ranked=0, unranked=[])
    for e in engs:
        for o in e.obls:
            d = dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), where=o.where, unit_engine=e.name)
            if o.status != 'proved':
                d['formula'] = str(o.formula)[:1500] if not isinstance(o.formula, bool) else str(o.formula)
                d['model'] = str(o.model)[:3000] if o.model is not None else None
                d['trace'] = list(o.trace)
            res['obls'].append(d)
        for k in ('solver_s', 'z3', 'cvc5', 'loops'): res['stats'][k] += e.stats[k]
        res['inlined'] += sorted(e.stats['inlined']); res['contracts'] += sorted(e.stats['contracts_used'])
        res['inv'] += [(n, l) for n, l in e.stats['inv_kept']]
        res['assumptions'] += list(getattr(e, 'assumptions', []))
        res['ranked'] += len(e.stats['ranked']); res['unranked'] += e.stats['unranked']
        res['nsw'] += e.dom.nsw_assumed
    return res


def _child(unit, ctx, path):
    try:
        os.setpgrp()
        import io
        from .dom import Unsupported
        from .engine import Engine
        try:
            r = collect(unit.f(ctx))
            r['ok'] = True
            if not r['obls']:
                r = dict(ok=False, error='vacuous: the unit generated no obligation')
        except Unsupported as e:
            r = dict(ok=False, error='outside the verifier\'s reach: %s' % e)
        except ExtractError as e:
            r = dict(ok=False, error='extraction: %s' % e)
        except Exception as e:
            r = dict(ok=False, error='engine: %s' % (traceback.format_exc()[-1800:]))
        if not r['ok']:
            try: r['partial'] = [o for o in collect(Engine.ALL)['obls'] if o['status'] == 'refuted']
            except Exception: pass
        with open(path + '.t', 'w') as f: json.dump(r, f)
        os.rename(path + '.t', path)
    finally:
        os._exit(0)


def run_units(ctx, units, jobs=6):
    results = {}
    pend = list(units); running = []
    while pend or running:
        while pend and len(running) < jobs:
            u = pend.pop(0)
            path = os.path.join(ctx.dir, 'unit_%s.json' % re.sub(r'\W+', '_', u.name))
            p = multiprocessing.Process(target=_child, args=(u, ctx, path)); p.start()
            running.append((u, p, path, time.time()))
        time.sleep(0.05)
        for it in list(running):
            u, p, path, t0 = it
            if not p.is_alive():
                p.join()
                results[u.name] = json.load(open(path)) if os.path.exists(path) else dict(ok=False, error='unit process died')
                results[u.name]['secs'] = round(time.time() - t0, 2)
                running.remove(it)
            elif time.time() - t0 > u.timeout:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
                p.join()
                results[u.name] = dict(ok=False, error='time limit of %d s' % u.timeout, secs=u.timeout)
                running.remove(it)
    return results


# ---- native monitors ------------------------------------------------------------------------------------
class Native:
    def __init__(self, main, srcs=(), defs=(), libs=(), san='address,undefined', std='gnu++11', args=(), timeout=200, protos=False,
                 budget=(25, 180), flags=(), name=None, gensrcs=()):
        self.main = main; self.srcs = srcs; self.defs = defs; self.libs = libs; self.san = san; self.std = std; self.args = args
        self.timeout = timeout; self.protos = protos; self.budget = budget; self.flags = flags
        self.name = name or os.path.basename(main).replace('.cpp', ''); self.gensrcs = gensrcs


def build_native(ctx, n):
    if n.protos: ctx.protos()
    out = os.path.join(ctx.dir, 'native_' + n.name)
    srcs = [VERIF + '/' + n.main] + [REPO + '/' + s for s in n.srcs] + [ctx.gen() + '/' + s for s in n.gensrcs]
    flags = ['-std=' + n.std, '-O1', '-g', '-w', '-fno-omit-frame-pointer'] + (['-fsanitize=' + n.san, '-fno-sanitize-recover=all'] if n.san else []) + list(n.flags)
    flags += ['-D' + d for d in n.defs] + ctx.inc()
    if n.protos: flags += ['-I' + ctx.gen() + '/lightstep-tracer-common', '-I' + ctx.gen() + '/lightstep-tracer-configuration']
    procs = []; objs = []
    for s in srcs:
        o = out + '_' + hashlib.sha1(s.encode()).hexdigest()[:8] + '.o'
        objs.append(o)
        procs.append((s, subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    err = ''
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode: err += o[-1500:]
    if err: raise ExtractError('native monitor does not compile: ' + err)
    r = subprocess.run(['g++'] + flags + objs + ['-o', out] + list(n.libs) + ['-lpthread', '-ldl'], capture_output=True, text=True)
    if r.returncode: raise ExtractError('native monitor does not link: ' + r.stderr[-1500:])
    return out


def run_native(ctx, n, extra_args=()):
    exe = build_native(ctx, n)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=66'
    env['TSAN_OPTIONS'] = 'exitcode=66'
    budget = n.budget[1] if ctx.thorough else n.budget[0]
    cmd = [exe, str(ctx.seed), str(budget)] + list(n.args) + list(extra_args)
    t0 = time.time()
    of = open(exe + '.out', 'w+'); ef = open(exe + '.err', 'w+')
    p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=env, cwd=ctx.dir, preexec_fn=os.setpgrp)
    timed = False
    try:
        p.wait(timeout=budget + n.timeout)
    except subprocess.TimeoutExpired:
        timed = True
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    p.wait()
    of.seek(0); ef.seek(0)
    out = of.read(); err = ef.read()
    r = dict(rc=p.returncode, out=out[-20000:], err=err[-6000:], secs=round(time.time() - t0, 2), timed_out=timed, cmd=' '.join(cmd[:1] + [str(x) for x in cmd[1:]]))
    r['evals'] = sum(int(x) for x in re.findall(r'^EVAL (\d+)', out, re.M))
    r['distinct'] = sum(int(x) for x in re.findall(r'^DISTINCT (\d+)', out, re.M))
    r['samples'] = re.findall(r'^SAMPLE (.*)', out, re.M)[:6]
    r['rule'] = (re.findall(r'^RULE (.*)', out, re.M) or [''])[0]
    r['fail'] = re.findall(r'^FAIL (.*)', out, re.M)
    r['cur'] = (re.findall(r'^CASE (.*)', out, re.M) or [''])[-1]
    r['finished'] = 'DONE' in out
    return r


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l)
            if m: res.append((m.group(1), m.group(2), m.group(3)))
    return res


def main(argv):
    if argv[1] == '--setup':
        import z3
        for t in ('clang++', 'opt', 'llvm-link', 'g++', 'protoc', 'cvc5'):
            if not (shutil.which(t) or os.path.exists(tool(t))): print('missing', t); return 1
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        print('z3', z3.get_version_string()); return 0
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    t0 = time.time()
    only = argv[argv.index('--unit') + 1] if '--unit' in argv else None
    nonative = '--no-native' in argv
    mod = importlib.import_module('props.' + pid)
    ctx = Ctx(pid, tier, seed)
    try:
        return decide(ctx, mod, pid, tier, seed, t0, only, nonative, '-v' in argv)
    finally:
        if '--keep' not in argv: ctx.close()
        else: print('kept', ctx.dir)


def decide(ctx, mod, pid, tier, seed, t0, only, nonative, verbose):
    units = mod.units(ctx)
    if only: units = [u for u in units if only in u.name]
    prep = getattr(mod, 'prepare', None)
    if prep:
        try: prep(ctx)
        except ExtractError as e: pass       # every unit that needs it reports the error itself
    natives = [] if nonative else mod.natives(ctx)
    # native monitors run beside the proofs
    nres = {}
    q = multiprocessing.Queue()
    def nat(n):
        try: q.put((n.name, run_native(ctx, n)))
        except ExtractError as e: q.put((n.name, dict(error=str(e))))
        except Exception as e: q.put((n.name, dict(error=traceback.format_exc()[-1500:])))
    nps = [multiprocessing.Process(target=nat, args=(n,)) for n in natives]
    for p in nps: p.start()
    ures = run_units(ctx, units)
    for _ in nps:
        k, v = q.get(); nres[k] = v
    for p in nps: p.join()
    return report(ctx, mod, pid, tier, seed, t0, units, ures, nres, verbose)


def report(ctx, mod, pid, tier, seed, t0, units, ures, nres, verbose):
    obl = dis = 0; backends = {}; solver_s = 0.0
    failed = []; inconc = []; errors = []
    fuc = []; inl = set(); con = set(); assum = list(getattr(mod, 'ASSUMPTIONS', [])); invs = []; names = {}; ended = 0; endless = []
    for u in units:
        r = ures.get(u.name, dict(ok=False, error='not run'))
        if not r['ok']:
            errors.append((u.name, r['error']))
            failed += [(u.name, o) for o in r.get('partial', [])]
            obl += len(r.get('partial', []))
            continue
        fuc += [f for f in u.functions if f not in fuc]
        inl |= set(r['inlined']); con |= set(r['contracts']); solver_s += r['stats']['solver_s']
        for a in r['assumptions']:
            if a not in assum: assum.append(a)
        invs += r['inv']; ended += r.get('ranked', 0); endless += r.get('unranked', [])
        if r['nsw']:
            a = 'signed (nsw) arithmetic is taken not to overflow (undefined behaviour otherwise)'
            if a not in assum: assum.append(a)
        for o in r['obls']:
            obl += 1; names[o['name']] = names.get(o['name'], 0) + 1
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
            if o['status'] == 'proved': dis += 1
            elif o['status'] == 'unknown-timeout': inconc.append((u.name, o))
            else: failed.append((u.name, o))
    known = [k for k in load_known() if k[0] == pid]
    viol = None; notes = []
    nat_ok = True; evals = distinct = 0; samples = []; rules = []
    seen_known = set()
    for k, r in nres.items():
        if 'error' in r:
            errors.append(('native ' + k, r['error'])); nat_ok = False; continue
        evals += r['evals']; distinct += r['distinct']; samples += r['samples']; rules.append(r['rule'])
        bad = []
        for f in r['fail']:
            kf = [x for x in known if f.startswith('[' + x[1] + ']')]
            if kf: seen_known.add(kf[0]); continue
            bad.append(f)
        crashed = (r['rc'] not in (0, 1) or (not r['finished'] and not r['fail'])) and not r['timed_out']
        if bad or crashed or (r['timed_out'] and r['cur']):
            what = bad[0] if bad else ('hang in case ' + r['cur'] if r['timed_out'] else 'crash or sanitizer report in case: ' + r['cur'])
            if viol is None:
                viol = dict(kind='native', what=what, replay=dict(property=pid, monitor=k, failing=what, all=bad[:20], command=r['cmd'], seed=seed, stdout=r['out'][-4000:], stderr=r['err']))
        elif r['timed_out']:
            errors.append(('native ' + k, 'timed out without a current case'))
    for kk in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, kk[2]))
    if failed:
        u, o = failed[0]
        txt = dict(property=pid, failed_obligations=[dict(unit=u, **o) for u, o in failed[:20]], note='obligation not discharged by the verifier on the current source')
        if viol is None:
            viol = dict(kind='obligation', what='%s: %s' % (u, o['name']), replay=txt)
        else:
            viol['replay']['failed_obligations'] = txt['failed_obligations'][:5]
    proved_all = not failed and not inconc and not [e for e in errors if not e[0].startswith('native')]
    level = 'proof' if proved_all and obl else 'exploration'
    declared = getattr(mod, 'LEVEL', 'proof')
    if declared != 'proof': level = declared
    cov = dict(obligations=obl, discharged=dis, checker_cmd='cd /verif && VERIF_SEED=%d python3-vt check.py %s --tier %s' % (seed, pid, tier),
               trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
               functions_under_contract=fuc, functions_verified_inline=sorted(inl)[:80], contracts_assumed_at_calls=sorted(con)[:60],
               back_ends=backends, solver_seconds=round(solver_s, 2),
               loop_invariants=[dict(loop=n, invariants=l) for n, l in invs][:40],
               loops_proved_to_end=ended, loops_not_proved_to_end=sorted(set(endless)),
               obligation_names={k: v for k, v in sorted(names.items())[:120]},
               undischarged=[dict(unit=u, name=o['name'], status=o['status'], where=o['where']) for u, o in failed + inconc][:40],
               units_not_decided=[dict(unit=u, reason=e[:600]) for u, e in errors],
               evaluations=evals, distinct_nontrivial=distinct, rule=' | '.join(rules) or 'no native monitor ran',
               samples=(samples or [n for n in names][:3] or ['none'])[:8],
               bounded_monitor='the native contract monitor is bounded and never counted as proved; it runs the real code on concrete inputs and supplies replays')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged (%s), %.1f s solver; native %d evaluations; %.1f s' % (pid, obl, dis, backends, solver_s, evals, time.time() - t0))
    for u, e in errors: print('  not decided: %s: %s' % (u, e if verbose else e[:300]))
    for u, o in failed + inconc:
        print('  undischarged [%s] %s: %s  (%s)' % (o['status'], u, o['name'], o['where']))
        if verbose: print('      ', o.get('formula'), '\n      MODEL', o.get('model'), '\n      TRACE', o.get('trace'))
    if verbose:
        for u in units: print('  unit', u.name, ures[u.name].get('secs'), 's', len(ures[u.name].get('obls', [])))
        for n, l in invs: print('  inv', n, l)
        print('  loops that end:', ended, 'not shown:', sorted(set(endless)))
        for k, r in nres.items(): print('  native', k, {x: r[x] for x in r if x not in ('out', 'err')} if 'error' not in r else r['error'])
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        with open(rp, 'w') as f: json.dump(viol['replay'], f, indent=1)
        print('  ' + viol['what'][:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if viol['kind'] == 'native' else ' no-failing-input-found'))
        return 1
    return 0


TRUSTED = ['clang 18 front end and the opt passes sroa, early-cse, simplifycfg, loop-simplify (source -> verified IR)',
           'the verification-condition generator /verif/cvg', 'z3 (python API 5.x), cvc5 1.1.2']
