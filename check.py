#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property
   check.py replay <file>                 validate a recorded episode again

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the
check itself could not be carried out (compile error, TLC failure)."""
import concurrent.futures as cf
import fcntl, json, random, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, time
from pathlib import Path

V = Path('/verif')
SPEC = V / 'spec'
TARGET = V / 'target'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ASPECTS = ['SEM', 'CUR', 'SIZE', 'CMP', 'CHECK', 'CLONE', 'LIVE', 'FAULT']
JOBS = 8
sys.path.insert(0, str(V / 'tools'))
import plan  # noqa: E402
import tours
import cases as casescript  # noqa: E402


class Broken(Exception):
    """the check could not be carried out"""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- driver
def build(binary='driver'):
    TARGET.mkdir(exist_ok=True)
    with open(V / 'target' / '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', binary], cwd=V / 'driver',
                           env=dict(os.environ, CARGO_TARGET_DIR=str(TARGET)), capture_output=True, text=True)
        if r.returncode:
            if binary == 'threads':
                # the other driver, with the same types, has been built: is it
                # only that handles may no longer cross threads?
                e = [x for x in re.findall(r'^error.*$', r.stderr, re.M) if 'could not compile' not in x]
                if e and all(re.search(r'cannot be (sent|shared) between threads safely', x) for x in e):
                    raise Violation('the collections cannot be sent or shared between threads: ' + e[0],
                                    {'kind': 'compile', 'what': r.stderr[:6000]})
            raise Broken(f'{binary} does not build:\n' + r.stderr[-4000:])


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def drive(args, out, timeout, binary='driver'):
    """Run the driver; a crash or a hang of the code under test is a violation."""
    cmd = [str(TARGET / 'debug' / binary)] + [str(a) for a in args] + ['--out', str(out)]
    what = None
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, preexec_fn=limits(6 << 30))
        if r.returncode == 0:
            return json.loads(r.stdout.strip().splitlines()[-1])
        if 'driver:' in r.stderr:
            raise Broken(f'{" ".join(cmd)}: {r.stderr[-2000:]}')
        what = f'the driver process ended with status {r.returncode}: {r.stderr[-600:]}'
    except subprocess.TimeoutExpired:
        what = f'no progress within {timeout} s'
    # once more with every event flushed, to see how far it got
    try:
        subprocess.run(cmd, capture_output=True, timeout=timeout, preexec_fn=limits(6 << 30),
                       env=dict(os.environ, VERIF_FLUSH='1'))
    except subprocess.TimeoutExpired:
        pass
    tail = []
    if Path(out).exists():
        lines = Path(out).read_text(errors='replace').splitlines()
        k = max((i for i, l in enumerate(lines) if '"o":"reset"' in l), default=0)
        tail = lines[k:]
    raise Violation(what, {'kind': 'process', 'command': cmd, 'what': what, 'events_before': tail[-400:]})


# ------------------------------------------------------------------- TLC
def tlc(module, cfg, meta, env=None, timeout=600, heap='3g', workers=1, stack='512m', extra=()):
    meta = Path(meta)
    shutil.rmtree(meta, ignore_errors=True)
    meta.mkdir(parents=True)
    cmd = ['java', f'-Xss{stack}', f'-Xmx{heap}', f'-Djava.io.tmpdir={meta}', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', str(meta), '-noTE', *extra,
           '-config', cfg, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f'TLC on {module}/{cfg}: no result within {timeout} s')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if 'OutOfMemory' in r.stdout + r.stderr or r.returncode < 0 or r.returncode == 137:
        raise Broken(f'TLC on {module}/{cfg} ran out of memory')
    return r.stdout


def validate(trace, aspects, meta, spec='Trace'):
    """-> (events matched, events, TLC's message if it stopped with an error)"""
    env = {'A_' + a: '1' if a in aspects else '0' for a in ASPECTS}
    env['TRACE'] = str(trace)
    out = tlc(spec + '.tla', spec + '.cfg', meta, env, timeout=800)
    m = re.search(r'"MATCHED", (\d+), (\d+)', out)
    if m:
        return int(m[1]), int(m[2]), ''
    i = out.find('Error')
    msg = out[i:i + 1500] if i >= 0 else out[-1500:]
    if 'Parsing or semantic' in out or 'NoSuchFile' in out or i < 0:
        raise Broken(spec + '.tla: ' + out[-3000:])
    # an evaluation error while matching an event: the event is not a behaviour
    s = re.findall(r'^/\\ at = (\d+)$', out, re.M)
    n = int(s[-1]) - 1 if s else 0
    return n, sum(1 for _ in open(trace)), msg


def explain(pid, trace, n, aspects, meta, msg, how, spec='Trace'):
    lines = Path(trace).read_text().splitlines()
    s = min(n, len(lines) - 1)
    while s > 0 and '"o":"reset"' not in lines[s]:
        s -= 1
    ep = lines[s:n + 1]
    f = Path(str(trace) + '.episode')
    f.write_text('\n'.join(ep) + '\n')
    bad = []
    for a in aspects if spec == 'Trace' else []:
        try:
            k, _, _ = validate(f, [a], meta)
            if k < len(ep):
                bad.append(a)
        except Broken:
            pass
    if not bad and spec == 'Trace':
        k, _, _ = validate(f, [], meta)
        bad = ['FRAME (an effect the operation must not have)'] if k < len(ep) else ['?']
    return {'kind': 'trace', 'spec': spec, 'property': pid, 'aspects': aspects, 'violated': bad, 'rejected_event': lines[n][:3000] if n < len(lines) else None,
            'reproduce': how, 'tlc': msg, 'events': ep}


# ----------------------------------------------------------------- parts
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = V / 'work' / 'run' / f'{pid}-{tier}'
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir.mkdir(parents=True)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.models = []
        self.sources = []
        self.events = 0

    def size(self, q, t):
        return q if self.tier == 'quick' else t


def check_traces(ctx, jobs, aspects, spec='Trace', binary='driver'):
    """jobs: [(name, driver args, description)] -> drive and validate all of them"""
    def one(j):
        name, args = j
        out = ctx.dir / f'{name}.ndjson'
        info = drive(args, out, 240 if ctx.tier == 'quick' else 600, binary)
        n, total, msg = validate(out, aspects, ctx.dir / f'md_{name}', spec)
        if total != info['events']:
            raise Broken(f'{name}: {total} events read, {info["events"]} written')
        if n < total:
            how = ' '.join(['target/debug/' + binary] + [str(a) for a in args] + ['--out', 'FILE'])
            rep = explain(ctx.pid, out, n, aspects, ctx.dir / f'md_{name}', msg, how, spec)
            raise Violation(f'event {n + 1} of {name} is not a behaviour of the specification; violated: {rep["violated"]}', rep)
        lines = open(out)
        sample = None
        for i, l in enumerate(lines):
            if i >= min(12, total - 1):
                sample = l.strip()[:400]
                break
        lines.close()
        out.unlink()
        return name, info, sample

    err = None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in cf.as_completed(futs):
            try:
                name, info, sample = f.result()
            except cf.CancelledError:
                continue
            except (Violation, Broken) as e:
                if err is None or (isinstance(err, Broken) and isinstance(e, Violation)):
                    err = e
                for g in futs:
                    g.cancel()
                continue
            ctx.cov['traces_validated_against_impl'] += info['episodes']
            ctx.events += info['events']
            for k in ('injected', 'schedules', 'points', 'maxlen', 'predicted', 'agreed'):
                if k in info:
                    ctx.cov[k] = max(ctx.cov.get(k, 0), info[k]) if k == 'maxlen' else ctx.cov.get(k, 0) + info[k]
            if len(ctx.cov['samples']) < 4 and sample:
                ctx.cov['samples'].append({'source': name, 'event': sample})
    if err:
        raise err


def run_models(ctx, models):
    """models: [Model]; exhaustive TLC runs of the specification itself"""
    def one(m):
        t0 = time.time()
        w = m.get('workers', 1)
        out = tlc(m['module'], m['cfg'], ctx.dir / ('mc_' + m['name']), m.get('env'), timeout=850,
                  heap=m.get('heap', '3g'), workers=w, extra=m.get('extra', ()))
        g = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if 'No error has been found' not in out or not g:
            i = out.find('Error')
            raise Broken(f'model {m["name"]} fails on its own:\n' + out[i if i >= 0 else -3000:][:3000])
        r = {'name': m['name'], 'module': m['module'], 'config': m['cfg'], 'transitions': int(g[1].replace(',', '')),
             'states': int(g[2].replace(',', '')), 'wall_s': round(time.time() - t0, 1)}
        if m.get('scripts'):
            p = ctx.dir / (m['name'] + '.scripts')
            sc = [x.group(1) for x in re.finditer(r'^"?<<?"?SCRIPT"?, "(.*)">>$', out, re.M)]
            p.write_text('\n'.join(sc) + '\n')
            r['scripts'] = len(sc)
            m['out'] = p
        return r

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, models):
            ctx.models.append(r)
            ctx.cov['states'] += r['states']
            ctx.cov['transitions'] += r['transitions']


# ----------------------------------------------------------------- tours
def make_graphs(ctx, graphs, emit=True):
    """graphs: {name: (module, constants)} -> {name: transition graph}.  TLC checks
    the structural specification on the way: its invariant must hold.  (emit
    False: no more than that.)"""
    def one(it):
        name, (module, consts) = it
        cfg = ctx.dir / f'{name}.cfg'
        cfg.write_text('INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\nCONSTANTS ' +
                       ' '.join(f'{k}={v}' for k, v in consts.items()) + f' Emit={str(emit).upper()}\n')
        t0 = time.time()
        out = tlc(module + '.tla', str(cfg), ctx.dir / ('mc_' + name), timeout=850, heap='6g', workers=2 if len(graphs) > 1 else JOBS)
        g = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if 'No error has been found' not in out or not g:
            i = out.find('Error')
            raise Broken(f'structural model {name} fails on its own:\n' + out[i if i >= 0 else -3000:][:3000])
        r = {'name': name, 'module': module, 'constants': consts, 'transitions': int(g[1].replace(',', '')),
             'states': int(g[2].replace(',', '')), 'wall_s': round(time.time() - t0, 1)}
        return name, r, tours.Graph(out).reorder() if emit else None

    res = {}
    with cf.ThreadPoolExecutor(4) as ex:
        for name, r, g in ex.map(one, graphs.items()):
            ctx.models.append(r)
            ctx.cov['states'] += r['states']
            ctx.cov['transitions'] += r['transitions']
            res[name] = g
    return res


def _script(a):
    g, ty, kind, shape, pid, seed, shard, shards, sample, hooks = a
    return tours.script(GRAPH[g], ty, kind, shape, pid, seed, shard, shards, sample, hook_rate=hooks)


GRAPH = {}


CASES = {}


def make_cases(ctx, name, consts):
    """the cases of Cases.tla, whose laws TLC checks on the way"""
    if name not in CASES:
        cfg = ctx.dir / f'{name}.cfg'
        cfg.write_text('INIT Init\nNEXT Next\nINVARIANT Good\nCHECK_DEADLOCK FALSE\nCONSTANTS ' + ' '.join(f'{k}={v}' for k, v in consts.items()) + ' Emit=TRUE\n')
        t0 = time.time()
        out = tlc('Cases.tla', str(cfg), ctx.dir / ('mc_' + name), timeout=850, heap='6g', workers=2)
        if 'No error has been found' not in out:
            i = out.find('Error')
            raise Broken(f'case model {name} fails on its own:\n' + out[i if i >= 0 else -3000:][:3000])
        CASES[name] = casescript.parse(out)
        n = len(CASES[name])
        ctx.models.append({'name': name, 'module': 'Cases', 'constants': consts, 'transitions': n, 'states': n, 'wall_s': round(time.time() - t0, 1)})
        ctx.cov['states'] += n
        ctx.cov['transitions'] += n
    return CASES[name]


def make_threads(ctx, models, plans):
    """Threads: check the protocol at its smallest steps, and have the
    specification produce schedules with the copies they must cause."""
    todo = [(dict(c, Fine='TRUE', Emit='FALSE'), 0) for c in models] + [(dict(c, Fine='FALSE', Emit='TRUE'), n) for c, n in plans]

    def one(it):
        i, (consts, n) = it
        cfg = ctx.dir / f'threads{i}.cfg'
        cfg.write_text('INIT Init\nNEXT Next\nVIEW View\nINVARIANT Good\nCHECK_DEADLOCK FALSE\nCONSTANTS ' + ' '.join(f'{k}={v}' for k, v in consts.items()) + '\n')
        t0 = time.time()
        out = tlc('CowThreads.tla', str(cfg), ctx.dir / f'mc_threads{i}', timeout=850, heap='4g', workers=1 if n or ctx.tier == 'quick' else 3)
        g = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if 'No error has been found' not in out or not g:
            k = out.find('Error')
            raise Broken(f'thread model {consts} fails on its own:\n' + out[k if k >= 0 else -3000:][:3000])
        r = {'name': f'threads{i}', 'module': 'CowThreads', 'constants': consts, 'transitions': int(g[1].replace(',', '')),
             'states': int(g[2].replace(',', '')), 'wall_s': round(time.time() - t0, 1)}
        l = sorted(set(re.findall(r'"PLAN (.*)"', out)))
        random.Random(f'{ctx.seed}/{i}').shuffle(l)
        return r, l, n

    lines, cov = [], []
    with cf.ThreadPoolExecutor(4 if ctx.tier == 'thorough' else JOBS) as ex:
        for r, l, n in ex.map(one, enumerate(todo)):
            ctx.models.append(r)
            ctx.cov['states'] += r['states']
            ctx.cov['transitions'] += r['transitions']
            if n:
                cov.append({'constants': r['constants'], 'schedules_in_model': len(l), 'replayed': min(n, len(l))})
                lines += l[:n]
    ctx.cov['schedules_from_model'] = cov
    jobs = []
    for i in range(JOBS):
        f = ctx.dir / f'plans{i}.txt'
        f.write_text('\n'.join(lines[i::JOBS]) + '\n')
        jobs.append((f'plans{i}', ['--plans', str(f)]))
    return jobs


def make_tours(ctx, todo, specs, cases=()):
    """todo: [(graph, type, kind, sample or 0, hook rate)] -> jobs for check_traces"""
    names = {t[0] for t in todo}
    GRAPH.update(make_graphs(ctx, {n: specs[n] for n in sorted(names)}))
    parts = []
    for g, ty, kind, sample, hooks in todo:
        shape = specs[g][1].get('Shape') == 'TRUE'
        n = sample or GRAPH[g].transitions
        shards = JOBS if ctx.tier == 'quick' else JOBS * max(1, n // 120000)
        parts += [(g, ty, kind, shape, ctx.pid, ctx.seed, i, shards, sample, hooks) for i in range(shards)]
    with mp.get_context('fork').Pool(JOBS) as pool:
        res = pool.map(_script, parts, chunksize=1)
    cov, files = {}, {}
    for p, (text, aimed, taken, looked) in zip(parts, res):
        c = cov.setdefault((p[0], p[2]), {'graph': p[0], 'kind': p[2], 'transitions_in_graph': GRAPH[p[0]].transitions,
                                          'states_in_graph': len(GRAPH[p[0]].adj), 'transitions_aimed_at': 0, 'states_looked_at': 0})
        c['transitions_aimed_at'] += aimed
        c['states_looked_at'] += looked
        # quick: one script per shard with all the tours
        f = ctx.dir / (f'tour{p[6]}' if ctx.tier == 'quick' else f'tour_{p[0]}_{p[2]}_{p[6]}')
        files[f] = files.get(f, '') + text
    ctx.cov['tours'] = list(cov.values())
    GRAPH.clear()
    for name, consts, ty, kind, sample in cases:
        cs = make_cases(ctx, name, consts)
        n = 0
        for i in range(JOBS):
            text, k = casescript.script(cs, ty, kind, consts['Kind'].strip('"'), f'{ctx.seed}/{ctx.pid}', i, JOBS, sample)
            n += k
            f = ctx.dir / (f'tour{i}' if ctx.tier == 'quick' else f'case_{name}_{kind}_{i}')
            files[f] = files.get(f, '') + text
        ctx.cov.setdefault('cases', []).append({'cases': name, 'constants': consts, 'kind': kind, 'in_model': len(cs), 'replayed': n})
    jobs = []
    for f, text in files.items():
        if text:
            f.with_suffix('.script').write_text(text)
            jobs.append((f.name, ['script', '--in', str(f.with_suffix('.script'))]))
    return jobs


# ------------------------------------------------------------------ main
def run(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    p = plan.PLAN[pid]
    viol = None
    try:
        build()
        plan.execute(sys.modules[__name__], ctx, p)
    except Violation as e:
        viol = e
    wall = time.time() - t0
    cov = ctx.cov
    cov['events_validated'] = ctx.events
    cov['aspects'] = p['aspects']
    cov['models'] = ctx.models
    if not cov['samples']:
        cov['samples'] = [{'note': 'stopped before a trace was validated'}]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': plan.ASSUMPTIONS + p.get('assumptions', []), 'wall_s': round(wall, 1), 'violations': 1 if viol else 0}
    (V / 'evidence').mkdir(exist_ok=True)
    (V / 'evidence' / f'{pid}.json').write_text(json.dumps(ev, indent=1) + '\n')
    if viol:
        rp = V / 'work' / 'replay' / pid
        rp.mkdir(parents=True, exist_ok=True)
        f = rp / f'{tier}-{seed}.json'
        f.write_text(json.dumps(viol.replay, indent=1) + '\n')
        log(viol.what)
        log(f'VIOLATION property={pid} replay={f}')
        return 1
    log(f'{pid} {tier}: {cov["traces_validated_against_impl"]} traces ({ctx.events} events) accepted, '
        f'{cov["states"]} model states, {wall:.1f} s')
    shutil.rmtree(ctx.dir, ignore_errors=True)
    return 0


def replay(path):
    r = json.loads(Path(path).read_text())
    if r['kind'] == 'compile':
        log(r['what'])
        return 1
    if r['kind'] == 'process':
        build()
        log('command:', ' '.join(r['command']))
        x = subprocess.run(r['command'])
        log('exit', x.returncode)
        return 1 if x.returncode else 0
    d = V / 'work' / 'run' / 'replay'
    d.mkdir(parents=True, exist_ok=True)
    f = d / 'episode.ndjson'
    f.write_text('\n'.join(r['events']) + '\n')
    n, t, msg = validate(f, r['aspects'], d / 'md', r.get('spec', 'Trace'))
    log(f'{n} of {t} events accepted', msg)
    log('record the history again with:', r['reproduce'])
    return 0 if n == t else 1


if __name__ == '__main__':
    try:
        if sys.argv[1] == 'replay':
            sys.exit(replay(sys.argv[2]))
        sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except Broken as e:
        log('CHECK BROKEN:', e)
        sys.exit(2)
