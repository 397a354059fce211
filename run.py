#!/usr/bin/env python3
"""Decide one property: run.py <PROPERTY> [--tier quick|thorough] | run.py --setup | run.py --replay FILE

1. model-check the property's TLA+ specification (TLC, exhaustive over small constants);
2. compile the conformance driver against /repo's current headers (ASAN build and race-detection build) under the
   controlled scheduler in shim/, run many client programs x schedules and collect the distinct recorded traces;
3. let TLC check that every recorded trace is a behaviour of the same specification.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: a recorded execution (confirmed by a second validation) is
not a behaviour of the specification. Exit 2: the machinery itself failed.
"""
import sys, os, json, hashlib, subprocess, time, shutil, random, re, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHIM, DRV, SPECS = (os.path.join(HERE, d) for d in ('shim', 'drivers', 'specs'))
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
from checks import CHECKS, DRIVERS  # noqa: E402

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = sorted(os.sched_getaffinity(0))
BAD = {'race', 'crash', 'hang', 'stuck', 'exc'}


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------------ build
FLAVOURS = {
    'a': dict(shim=['-fsanitize=address'], drv=['-fsanitize=address'], link=['-fsanitize=address']),
    't': dict(shim=['-DVS_TSAN'], drv=['-fsanitize=thread', '-DVS_TSAN'], link=[]),
    # another compiler, with optimisation
    'c': dict(shim=[], drv=['-O2'], link=[], cxx='clang++'),
    'o': dict(shim=[], drv=['-O2'], link=[]),
}


def tree_hash(paths):
    h = hashlib.sha1()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def gxx(args, cxx='g++'):
    r = subprocess.run([cxx, '-std=c++20', '-g', '-O1', '-w', '-I' + SHIM, '-I' + REPO + '/include'] + args,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


_lock = threading.Lock()
_locks = {}


def key_lock(k):
    with _lock:
        return _locks.setdefault(k, threading.Lock())


def publish(tmp, dst):
    os.replace(tmp, dst)


def build_shim(fl):
    key = tree_hash([SHIM])
    out = os.path.join(BUILD, f'vsched-{fl}-{key}.o')
    with key_lock(out):
        if not os.path.exists(out):
            tmp = out + f'.{os.getpid()}.tmp.o'
            rc, txt = gxx(FLAVOURS[fl]['shim'] + ['-c', SHIM + '/vsched.cpp', '-o', tmp])
            if rc:
                raise Broken('shim does not compile:\n' + txt[-3000:])
            publish(tmp, out)
    return out


def build_driver(drv, fl):
    d = DRIVERS[drv]
    srcs = [os.path.join(DRV, x) for x in [d['src']] + d.get('more', [])]
    key = tree_hash([SHIM, REPO + '/include'] + srcs + [os.path.join(DRV, x) for x in d.get('deps', [])])
    out = os.path.join(BUILD, f'{drv}-{fl}-{key}')
    with key_lock(out):
        if not os.path.exists(out):
            tmp = out + f'.{os.getpid()}.tmp'
            fut = build_shim(fl)
            objs = []
            for i, src in enumerate(srcs):
                objs.append(f'{tmp}.{i}.o')
                rc, txt = gxx(FLAVOURS[fl]['drv'] + d.get('flags', []) + ['-I' + DRV, '-c', src, '-o', objs[-1]], FLAVOURS[fl].get('cxx', 'g++'))
                if rc:
                    raise Broken(f'driver {drv} does not compile against {REPO}:\n' + txt[-4000:])
            rc, txt = gxx(FLAVOURS[fl]['link'] + objs + [fut, '-o', tmp, '-ldl', '-lpthread', '-rdynamic'])
            for o in objs:
                os.unlink(o)
            if rc:
                raise Broken('driver does not link:\n' + txt[-3000:])
            publish(tmp, out)
    return out


# ------------------------------------------------------------------------------------------------ run drivers
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:'
           'detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=64:symbolize=0:print_legend=0')


def run_worker(binary, variant, seed, seconds, outfile, cpu, extra=()):
    """Runs the driver until the time is used up, restarting it after abnormal ends. Returns (traces, stats)."""
    end = time.time() + seconds
    start, abnormal = 0, 0
    traces, stats = [], dict(runs=0, steps=0, events=0, switches=0, progs=0, restarts=0)
    while True:
        left = end - time.time()
        if left < 0.2:
            break
        if os.path.exists(outfile):
            os.unlink(outfile)
        p = subprocess.run([binary, '--variant', variant, '--seed', str(seed), '--start', str(start), '--seconds', f'{left:.1f}',
                            '--out', outfile, '--cpu', str(cpu)] + list(extra), env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           timeout=seconds + 300)
        st = None
        if os.path.exists(outfile):
            with open(outfile, errors='replace') as f:
                for line in f:
                    if line.startswith('{"stats"'):
                        st = json.loads(line)['stats']
                    elif line.endswith('"}\n') and '"notes":"' in line:  # complete
                        traces.append(line)
        if st is None:
            raise Broken(f'driver {binary} {variant} ended with {p.returncode} and no statistics: ' + p.stderr.decode(errors='replace')[-1500:])
        for k in ('runs', 'steps', 'events', 'switches', 'progs'):
            stats[k] += st[k]
        if st['status'] == 'ok':
            break
        stats['restarts'] += 1
        abnormal += st['status'] != 'terminated'  # std::terminate where the specification may allow it
        if abnormal >= 6:
            break
        start = int(st['idx'].split(':')[1]) + 1
    return traces, stats


# ------------------------------------------------------------------------------------------------ TLC
def tlc(module, cfg, workdir, workers='1', heap='2g', env=None, deque=False, extra=(), timeout=800):
    md = tempfile.mkdtemp(prefix='md', dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC' if workers != '1' else '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss16m']
    if deque:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-Djava.io.tmpdir=' + md, '-cp', JAR, 'tlc2.TLC', '-config', cfg, '-workers', workers, '-metadir', md, '-noTE'] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})), timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), -9
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    return rc, out, gen, dist


def model_check(mc, workdir):
    module, cfg = mc['module'], mc.get('cfg', mc['module'] + '.cfg')
    t = time.time()
    rc, out, gen, dist = tlc(module + '.tla', cfg, workdir, workers=str(mc.get('workers', 4)), heap=mc.get('heap', '4g'), extra=mc.get('extra', []))
    if rc != 0 or 'No error has been found' not in out:
        raise Broken(f'model checking {module}/{cfg} failed (rc {rc}):\n' + out[-3500:])
    return dict(module=module, cfg=cfg, generated=gen, distinct=dist, seconds=round(time.time() - t, 1))


def validate(module, cfg, traces, workdir, tag):
    """traces: list of dicts. Returns (list of (index, matched), generated, distinct)."""
    f = os.path.join(workdir, f'tr-{tag}.json')
    with open(f, 'w') as fh:
        json.dump([dict(cfg=t['cfg'], ev=t['ev']) for t in traces], fh)
    rc, out, gen, dist = tlc(module + '.tla', cfg, workdir, env={'TRACES': f}, deque=True)
    os.unlink(f)
    if rc != 0 or 'No error has been found' not in out:
        raise Broken(f'trace validation with {module} failed (rc {rc}):\n' + out[-3500:])
    rej = [(int(a) - 1, int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)]
    return rej, gen, dist


def shards(n, k):
    k = max(1, min(k, n))
    return [(i * n // k, (i + 1) * n // k) for i in range(k)]


# ------------------------------------------------------------------------------------------------ one check
def symbolize(binary, notes):
    def sub(m):
        try:
            r = subprocess.run(['addr2line', '-e', binary, '-f', '-C', '-p', '-i', m.group(1)], stdout=subprocess.PIPE, text=True, timeout=20)
            return 'at ' + ' / '.join(x.strip() for x in r.stdout.strip().splitlines()[:3])
        except Exception:
            return m.group(0)
    return re.sub(r'at \+([0-9a-f]+)', sub, notes)


def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def event_str(e):
    return e['e'] + '(' + ', '.join(f'{k}={v}' for k, v in e.items() if k != 'e') + ')'


def run_check(prop, tier, seed):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    c = CHECKS[prop]
    T = c['tiers'][tier]
    work = tempfile.mkdtemp(prefix=f'run-{prop}-', dir=BUILD)
    try:
        return _run_check(prop, tier, seed, c, T, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run_check(prop, tier, seed, c, T, work, t0):
    pool = ThreadPoolExecutor(16)
    mcs = [m for m in c.get('mc', []) if tier in m.get('tiers', ('quick', 'thorough'))]
    mc_f = [pool.submit(model_check, m, work) for m in mcs]
    jobs = c['jobs']
    bins = {}
    for j in jobs:
        for fl in j.get('flavours', 'at'):
            bins[(j['driver'], fl)] = None
    bf = {k: pool.submit(build_driver, *k) for k in bins}
    for k, f in bf.items():
        bins[k] = f.result()
    t_build = time.time() - t0
    # --- run
    slots = []
    for j in jobs:
        fls = j.get('flavours', 'at')
        n = max(len(fls), round(len(CPUS) * j.get('share', 1.0 / len(jobs))))
        for i in range(n):
            slots.append((j, fls[i % len(fls)], i))
    seconds = T['seconds']
    futs = []
    for i, (j, fl, k) in enumerate(slots):
        sd = (seed * 7919 + 1000 * (k // len(j.get('flavours', 'at'))) + (500 if fl == 't' else 0) + 17 * jobs.index(j)) % 1000000007
        out = os.path.join(work, f'out-{i}')
        extra = list(j.get('args', []))
        futs.append(pool.submit(run_worker, bins[(j['driver'], fl)], j.get('variant', ''), sd, seconds, out, CPUS[i % len(CPUS)], extra))
    results = [f.result() for f in futs]
    stats = dict(runs=0, steps=0, events=0, switches=0, progs=0, restarts=0)
    seen, good, bad = set(), {}, []
    for (j, fl, k), (lines, st) in zip(slots, results):
        for key in stats:
            stats[key] += st[key]
        for line in lines:
            h = hash(line[:line.rfind(',"idx":')])
            if h in seen:
                continue
            seen.add(h)
            meta = (j, fl)
            tail = line[-4000:] if len(line) > 4000 else line
            if any(f'"e":"{b}"' in line for b in BAD):
                bad.append((line, meta))
            else:
                good.setdefault((j['driver'], j.get('variant', ''), j.get('spec', c.get('spec'))), []).append((line, meta))
    t_run = time.time() - t0
    # --- choose traces for validation
    rnd = random.Random(seed)
    cap = T['traces']
    total_good = sum(len(v) for v in good.values())
    chosen = []
    for k in sorted(good):
        v = good[k]
        want = max(200, cap * len(v) // max(1, total_good)) if len(good) > 1 else cap
        if len(v) > want:
            v = rnd.sample(v, want)
        chosen += v
    rnd.shuffle(bad)
    chosen = bad[:60] + chosen
    by_spec = {}
    for line, meta in chosen:
        try:
            t = json.loads(line)
        except ValueError:
            raise Broken('unreadable trace: ' + line[:300])
        if len(t['ev']) > T.get('maxlen', 400):
            continue
        t['meta'] = meta
        by_spec.setdefault(meta[0].get('spec', c.get('spec')), []).append(t)
    # --- model checking must be done before the trace JVMs start
    mc_r = [f.result() for f in mc_f]
    t_mc = time.time() - t0
    vf = []
    for spec, trs in by_spec.items():
        trs.sort(key=lambda t: len(t['ev']))
        nsh = min(len(CPUS), max(1, len(trs) // 100))
        for i in range(nsh):
            part = trs[i::nsh]
            vf.append((spec, part, pool.submit(validate, spec, spec + '.cfg', part, work, f'{spec}-{i}')))
    rejected, vgen, vdist, nval = [], 0, 0, 0
    for spec, part, f in vf:
        rej, g, d = f.result()
        vgen += g
        vdist += d
        nval += len(part)
        rejected += [(spec, part[i], m) for i, m in rej]
    # --- confirm, match against known findings
    findings = [f for f in load_findings() if f['property'] == prop]
    violations, known = [], {}
    rejected.sort(key=lambda r: len(r[1]['ev']))
    seen_sig = set()
    for spec, t, m in rejected:
        if len(violations) >= 3:
            break
        ev = t['ev'][m] if m < len(t['ev']) else {'e': 'end'}
        sig = (spec, t['meta'][0]['driver'], t['meta'][0].get('variant'), json.dumps({k: v for k, v in ev.items() if k in ('e', 'op')}), json.dumps(t['cfg'])[:40])
        kf = match_finding(findings, t, m)
        if kf:
            known.setdefault(kf['id'], kf)
            continue
        if sig in seen_sig:
            continue
        rej2, _, _ = validate(spec, spec + '.cfg', [t], work, 'confirm')
        if not rej2:
            raise Broken('a rejection was not repeated by a second validation')
        seen_sig.add(sig)
        violations.append((spec, t, rej2[0][1]))
    # known findings that did not show up in this run are still listed
    for f in findings:
        if f.get('status') == 'known':
            log(f"KNOWN-FINDING: property={prop} {f['what']}")
    wall = time.time() - t0
    ops = {}
    for spec, part, f in vf:
        for t in part:
            for e in t['ev']:
                k = e['e'] + (':' + str(e['op']) if 'op' in e else '')
                ops[k] = ops.get(k, 0) + 1
    samples = []
    allv = [t for trs in by_spec.values() for t in trs]
    for t in rnd.sample(allv, min(3, len(allv))):
        samples.append(dict(driver=t['meta'][0]['driver'], variant=t['meta'][0].get('variant', ''), cfg=t['cfg'], program=t['program'], schedule=t['idx'],
                            trace=[event_str(e) for e in t['ev']][:60]))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 1), violations=len(violations),
              coverage=dict(states=sum(m['distinct'] for m in mc_r) + vdist, transitions=sum(m['generated'] for m in mc_r) + vgen,
                            traces_validated_against_impl=nval, samples=samples,
                            model_checking_runs=mc_r, trace_validation=dict(distinct_states=vdist, states_generated=vgen),
                            executions=stats['runs'], client_programs=stats['progs'], scheduling_points=stats['steps'], context_switches=stats['switches'],
                            distinct_traces_recorded=len(seen), abnormal_traces_recorded=len(bad), validated_events=dict(sorted(ops.items())),
                            seconds=dict(build=round(t_build, 1), run=round(t_run - t_build, 1), modelcheck_done=round(t_mc, 1), total=round(wall, 1))),
              assumptions=c.get('assumptions', []) + [
                  'interleavings are sequentially consistent; weaker orders are judged through happens-before (vector clocks), not by exploring weak-memory reads',
                  'programs and schedules are sampled (random walk, PCT, preemption-bounded depth-first), the specification is explored exhaustively within the constants of its cfg'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log(f'{prop} {tier}: {stats["runs"]} executions of {stats["progs"]} programs, {len(seen)} distinct traces, {nval} validated by TLC '
        f'({vdist} states); model checking {sum(m["distinct"] for m in mc_r)} states; build {t_build:.0f}s, total {wall:.0f}s')
    if violations:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for spec, t, m in violations:
            j, fl = t['meta']
            e = t['ev'][m] if m < len(t['ev']) else {'e': 'end'}
            r = dict(property=prop, spec=spec, driver=j['driver'], flavour=fl, variant=j.get('variant', ''), args=j.get('args', []), schedule=t['idx'], cfg=t['cfg'], program=t['program'],
                     matched=m, rejected_event=e, notes=symbolize(bins[(j['driver'], fl)], t['notes']), trace=t['ev'])
            p = os.path.join(HERE, 'replays', f'{prop}-{hashlib.sha1(json.dumps(t["ev"]).encode()).hexdigest()[:10]}.json')
            with open(p, 'w') as f:
                json.dump(r, f, indent=1)
            log(f'-- not a behaviour of {spec}: program [{t["program"]}] cfg {t["cfg"]}, schedule {t["idx"]} ({j["driver"]}/{j.get("variant", "")}/{fl})')
            for i, x in enumerate(t['ev'][:m + 1][-25:]):
                log('     ' + event_str(x) + ('    <== rejected' if i == min(m, 24) else ''))
            if r['notes']:
                log('   ' + r['notes'][:900])
            log(f'VIOLATION property={prop} replay={p}')
        return 1
    return 0


def match_finding(findings, t, m):
    for f in findings:
        if f.get('status') != 'known':
            continue
        ok = True
        for k, v in f['match'].items():
            if k == 'cfg':
                ok = ok and all(t['cfg'].get(a) == b for a, b in v.items())
            elif k == 'event':
                e = t['ev'][m] if m < len(t['ev']) else {'e': 'end'}
                ok = ok and all(e.get(a) == b for a, b in v.items())
            elif k == 'program_re':
                ok = ok and re.search(v, t['program']) is not None
            elif k == 'notes_re':
                ok = ok and re.search(v, t['notes']) is not None
        if ok:
            return f
    return None


def replay(path):
    r = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    b = build_driver(r['driver'], r['flavour'])
    seed, p, mode = r['schedule'].split(':')
    work = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
    out = os.path.join(work, 'out')
    subprocess.run([b, '--variant', r['variant'], '--seed', seed, '--start', p, '--count', '1', '--seconds', '60', '--out', out, '--cpu', str(CPUS[0])] + r['args'], env=ENV)
    same = [json.loads(x) for x in open(out) if not x.startswith('{"stats"')]
    hit = [t for t in same if t['ev'] == r['trace']]
    log(f'{len(same)} distinct traces from program {p}; recorded trace reproduced: {bool(hit)}')
    rej, _, _ = validate(r['spec'], r['spec'] + '.cfg', [dict(cfg=r['cfg'], ev=r['trace'])], work, 'replay')
    log('recorded trace is ' + ('REJECTED after %d events' % rej[0][1] if rej else 'accepted'))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if rej else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        with ThreadPoolExecutor(8) as pool:
            for f in [pool.submit(build_shim, fl) for fl in FLAVOURS]:
                f.result()
        return 0
    if a and a[0] == '--replay':
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return run_check(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        log('CHECK FAILED (no verdict): ' + str(e))
        sys.exit(2)
    except Exception:
        import traceback
        log('CHECK FAILED (no verdict): ' + traceback.format_exc())
        sys.exit(2)
