"""Common machinery of the checks: TLC runs, execution of scenarios on the real code, trace validation, evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from world import World, Died, Infra, write_config, VERIF, BUILD

SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(BUILD, 'replay')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ TLC
class TlcError(Exception):
    pass

def tlc(module, cfg=None, workers=1, env=None, heap='3g', timeout=800, extra=(), consts=None):
    """Runs TLC on spec/<module>.tla; returns (rc, stdout lines)."""
    cfg = cfg or module + '.cfg'
    meta = tempfile.mkdtemp(prefix='tlc-')
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-config', cfg, '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-deadlock', '-nowarning'] + list(extra) + [module + '.tla']
    outp = os.path.join(meta, 'out.txt')
    if consts:
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in consts.items():
            text, n = re.subn(r'\b%s *= *[^ \n]+' % k, '%s = %s' % (k, v), text)
            if n != 1:
                raise TlcError('constant %s not in %s' % (k, cfg))
        cmd[cmd.index('-config') + 1] = os.path.join(meta, 'c.cfg')
        with open(os.path.join(meta, 'c.cfg'), 'w') as f:
            f.write(text)
    try:
        with open(outp, 'wb') as f:
            try:
                rc = subprocess.call(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        with open(outp, encoding='utf-8', errors='replace') as f:
            lines = f.read().split('\n')
        return rc, lines
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def unquote(l):
    """A TLC-printed string value (PrintT(ToJson(x))) back to the JSON value."""
    return json.loads(json.loads(l))

def tlc_states(lines):
    for l in reversed(lines):
        m = re.match(r'(\d+) states generated, (\d+) distinct states found', l)
        if m:
            return int(m.group(1)), int(m.group(2))
    return 0, 0

# ------------------------------------------------------------------ the context of a check
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = []
        self.cov = {}
        self.violations = []
        self.known_hit = []
        self.generated = 0
        self.depths = []
        self.distinct = set()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    # exhaustive exploration of the specification, optionally with one behaviour printed per transition
    def model(self, module, cfg=None, gen=False, workers=None, timeout=800, heap='6g', env=None, limit=None, consts=None, prefixes=False):
        e = dict(env or {})
        rc, lines = tlc(module, cfg, workers=1 if gen else (workers or 4), heap=heap, timeout=timeout, env=e, consts=consts)
        g, d = tlc_states(lines)
        bad = [l for l in lines if 'is violated' in l or l.startswith('Error:') or 'Exception' in l]
        if rc != 0 or bad:
            if rc == 'timeout':
                raise TlcError('%s: timeout' % module)
            raise TlcError('%s: %s\n%s' % (module, rc, '\n'.join([l[:400] for l in lines if l and not l.startswith('"')][-60:])))
        if not d:
            raise TlcError('%s explored nothing' % module)
        self.states += d
        self.transitions += g
        self.notes.append('%s/%s%s: %d transitions, %d distinct states, invariants hold' % (module, cfg or module, ' %s' % consts if consts else '', g, d))
        log('  model %s: %d transitions, %d distinct states' % (cfg or module, g, d))
        if not gen:
            return []
        hs = []
        for l in lines:
            if l.startswith('"') and l.endswith('"'):
                try:
                    v = unquote(l)
                except ValueError:
                    continue
                if isinstance(v, list):
                    hs.append(v)
        # drop behaviours which are a prefix of another one
        keys = set()
        pref = set()
        for h in hs:
            k = [json.dumps(x, sort_keys=True) for x in h]
            keys.add(tuple(k))
            pref.add(tuple(k[:-1]))
        out = []
        for k in sorted(keys):
            if prefixes or k not in pref:
                out.append([json.loads(x) for x in k])
        self.generated += len(out)
        self.notes.append('%s: %d behaviours generated (one per transition%s)' % (cfg or module, len(out), '' if prefixes else ', prefixes removed'))
        if limit is not None and len(out) > limit:
            self.rng.shuffle(out)
            out = out[:limit]
        return out

    # run scenarios on the code and validate what was recorded
    def conform(self, trace_module, scenarios, execute, label='', cfg=None, binary=None, stop_after=8, wenv=None):
        """scenarios: list of JSON-able; execute(world, scenario) -> list of events (first one {"e":"reset",...})"""
        scenarios = list(scenarios)
        if not scenarios:
            return
        np = min(NPROC, max(1, len(scenarios) // 4))
        chunks = [[] for _ in range(np)]
        for i, s in enumerate(scenarios):
            chunks[i % np].append((i, s))
        _JOB['execute'] = execute      # inherited by the forked workers
        with mp.get_context('fork').Pool(np, initializer=_quiet) as pool:
            rs = [pool.apply_async(_work, (c, trace_module, cfg, None, binary, wenv)) for c in chunks]
            res = [r.get(850) for r in rs]
        rejects = []
        nev = 0
        for r in res:
            if r.get('error'):
                raise Infra(r['error'])
            nev += r['events']
            self.traces += r['scenarios']
            self.events += r['events']
            rejects += r['rejects']
            self.distinct.update(r['hashes'])
            for k, v in r['kinds'].items():
                self.cov[k] = self.cov.get(k, 0) + v
            self.depths += r['depths']
        log('  %s: %d scenarios, %d events validated against %s, %d rejected' % (label or trace_module, len(scenarios), nev, trace_module, len(rejects)))
        if len(self.samples) < 4:
            self.samples.append({'scenario': _short(scenarios[self.rng.randrange(len(scenarios))]), 'label': label or trace_module})
        rejects.sort(key=lambda x: x['scenario'])
        for rj in rejects[:stop_after]:
            self.confirm(trace_module, cfg, scenarios[rj['scenario']], rj, execute, binary, label, wenv)

    def confirm(self, module, cfg, sc, rj, execute, binary, label, wenv):
        """A rejected trace counts only if the same scenario is rejected again on its own, in a fresh process."""
        r = _work([(0, sc)], module, cfg, execute, binary, wenv)
        if r.get('error'):
            raise Infra(r['error'])
        if not r['rejects']:
            raise Infra('a rejected scenario was accepted when repeated: %s' % json.dumps(sc)[:2000])
        self.violation(label or module, sc, r['rejects'][0])

    def violation(self, label, sc, detail):
        os.makedirs(REPLAY, exist_ok=True)
        h = hashlib.sha1(json.dumps([label, sc], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(REPLAY, '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'label': label, 'scenario': sc, 'detail': detail}, f, indent=1)
        self.violations.append((path, detail))
        log('VIOLATION property=%s replay=%s' % (self.prop, path))
        log('   ' + json.dumps(detail)[:1500])

    # a listed defect of the code: still there?
    def probe_known(self, trace_module, scenario_of, execute, cfg=None, binary=None, wenv=None):
        for kf in known_findings():
            if kf.get('property') != self.prop or kf.get('status') != 'known':
                continue
            sc = scenario_of(kf)
            if sc is None:
                continue
            r = _work([(0, sc)], trace_module, cfg, execute, binary, wenv)
            if r.get('error'):
                raise Infra(r['error'])
            if r['rejects']:
                log('KNOWN-FINDING: property=%s %s' % (self.prop, kf['what']))
                self.known_hit.append(kf['id'])

def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']

def _short(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + '...'

def _quiet():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)

def _validate(evl, path, module, cfg, budget):
    """Rejections of the scenarios in a trace.  A scenario that makes TLC fail to evaluate the specification (values it has no
    place for) is found by halving the trace, and rejected."""
    with open(path, 'w') as f:
        f.write(''.join(x + '\n' for x in evl))
    first = {}
    for k, x in enumerate(evl):
        if x.startswith('{"e": "reset"'):
            first[json.loads(x)['sc']] = k
    rc, lines = tlc(module, cfg, env={'TRACE': path}, timeout=800)
    rejects = []
    done = None
    for l in lines:
        if l.startswith('"') and l.endswith('"'):
            try:
                v = unquote(l)
            except ValueError:
                continue
            if isinstance(v, dict) and 'reject' in v:
                rejects.append(v)
            elif isinstance(v, dict) and 'done' in v:
                done = v['done']
    if rc != 0 or done != len(evl):
        msg = [l[:600] for l in lines if l.startswith('Error') or 'ttempted' in l or 'exception' in l][:12]
        if rc in (75, 76, 77, 255) and msg and budget[0] > 0:
            starts = sorted(first.values())
            if len(starts) == 1:
                budget[0] -= 1
                tr = [json.loads(x) for x in evl]
                return [{'scenario': tr[0]['sc'], 'step': len(tr) - 1, 'event': tr[-1], 'expected': msg, 'why': 'nothing the specification has a place for',
                         'trace': tr[-60:]}], None
            m = starts[len(starts) // 2]
            out = []
            for part in (evl[:m], evl[m:]):
                if budget[0] > 0:
                    o, err = _validate(part, path, module, cfg, budget)
                    if err:
                        return [], err
                    out += o
            return out, None
        return [], 'trace validation by %s did not finish (rc %s, %s of %d lines)\n%s' % (
            module, rc, done, len(evl), '\n'.join(msg + [l[:600] for l in lines[-25:]]))
    out = []
    for v in rejects:
        sc = v['reject']
        k = v['at'] - 1          # index into the file
        out.append({'scenario': sc, 'step': k - first[sc], 'event': json.loads(evl[k]), 'expected': v.get('expected'), 'why': v.get('why'),
                    'trace': [json.loads(x) for x in evl[first[sc]:k + 1]][-60:]})
    return out, None

_JOB = {}
def _work(items, module, cfg, execute, binary, wenv):
    """Worker: execute the scenarios, write the trace, let TLC validate it."""
    execute = execute or _JOB['execute']
    w = None
    tmp = tempfile.mkdtemp(prefix='cpt-')
    try:
        path = os.path.join(tmp, 'trace.ndjson')
        n = 0
        kinds, depths, hashes = {}, [], set()
        first = {}
        with open(path, 'w') as f:
            for i, sc in items:
                if w is None:
                    w = World(binary=binary, log=wenv)
                try:
                    evs = execute(w, sc)
                except Died as d:
                    evs = list(getattr(w, 'partial', None) or [])
                    evs.append({'e': 'died', 'op': d.op[:300], 'status': str(d.status), 'err': d.stderr[:1500]})
                except Infra:
                    raise
                except (KeyError, TypeError, IndexError, ValueError, AttributeError, AssertionError):
                    # it did something that can't even be put into a trace
                    evs = list(getattr(w, 'partial', None) or [])
                    evs.append({'e': 'died', 'op': 'unreadable state', 'status': '', 'err': traceback.format_exc()[-1500:]})
                    w.close()
                    w = None
                if not evs or evs[0].get('e') != 'reset':
                    evs.insert(0, {'e': 'reset', 'chk': '', 'missing': 1})
                evs[0]['sc'] = i
                first[i] = n
                depths.append(len(evs) - 1)
                hashes.add(hashlib.sha1(json.dumps(evs, sort_keys=True).encode()).hexdigest()[:16])
                for e in evs:
                    n += 1
                    k = e.get('k') or e['e']
                    kinds[k] = kinds.get(k, 0) + 1
                    f.write(json.dumps(e) + '\n')
        if w is not None:
            w.close()
            w = None
        out, err = _validate(open(path).read().split('\n')[:-1], path, module, cfg, [8])
        if err:
            return {'error': err}
        return {'events': n, 'scenarios': len(items), 'rejects': out, 'kinds': kinds, 'depths': depths, 'hashes': list(hashes)}
    except Infra as ex:
        return {'error': 'infrastructure: %s' % ex}
    except Exception:
        return {'error': traceback.format_exc()}
    finally:
        if w is not None:
            w.close()
        shutil.rmtree(tmp, ignore_errors=True)

def build():
    r = subprocess.run(['bash', os.path.join(VERIF, 'harness', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        log(r.stdout.decode('latin-1')[-4000:])
        raise Infra('the harness does not build against /repo')

def run(prop, mod):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    log('check %s tier %s seed %d' % (prop, tier, seed))
    try:
        build()
        mod.run(ctx)
    except (Infra, TlcError) as ex:
        log('ERROR: %s' % ex)
        if ctx.violations:
            evidence(ctx)
            return 1
        return 2
    evidence(ctx)
    log('%s: %s in %.1f s (%d model states, %d traces, %d events)' % (
        prop, 'VIOLATED' if ctx.violations else 'held', ctx.elapsed(), ctx.states, ctx.traces, ctx.events))
    return 1 if ctx.violations else 0

def evidence(ctx):
    os.makedirs(EVID, exist_ok=True)
    d = sorted(ctx.depths)
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking',
        'coverage': {
            'states': ctx.states, 'transitions': ctx.transitions,
            'traces_validated_against_impl': ctx.traces,
            'samples': ctx.samples or [{'none': 1}],
            'events_validated': ctx.events,
            'distinct_traces': len(ctx.distinct),
            'behaviours_generated_by_tlc': ctx.generated,
            'trace_length_min_median_max': [d[0], d[len(d) // 2], d[-1]] if d else [0, 0, 0],
            'events_by_kind': ctx.cov,
            'notes': ctx.notes,
            'known_findings_hit': ctx.known_hit,
        },
        'wall_s': round(ctx.elapsed(), 2),
        'result': 'violation' if ctx.violations else 'held',
        'violations': len(ctx.violations),
    }
    with open(os.path.join(EVID, ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
