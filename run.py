#!/usr/bin/env python3
"""run.py PROP [quick|thorough]: decide one property on /repo's working tree.

1. builds the property's driver(s) from /repo's current sources (in a scratch folder),
2. model checks the property's TLA+ specification(s) with TLC (exhaustive, small constants),
3. runs the driver: it exercises the real code and records ndjson traces,
4. validates every trace against the specification with TLC,
5. writes evidence/<PROP>.json; exit 0 / exit 1 + VIOLATION line / exit 2 (error of the check).
"""
import sys, os, json, heapq, subprocess, tempfile, shutil, time, glob, re, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8
sys.path.insert(0, VERIF)
from registry import PROPS

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def sh(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ''
    return p.returncode, o.decode('utf-8', 'replace')

# ---------------------------------------------------------------- build
def build(run, work, pool):
    """The registered sources; should they not build any more (say a file was added or another
    language level is needed), all sources of their folders and a newer standard are tried."""
    err = None
    for std, wide in (('c++11', False), ('c++17', False), ('c++11', True), ('c++17', True)):
        try:
            return build_as(run, work, pool, std, wide)
        except CheckError as e:
            err = err or e
    raise err

def build_as(run, work, pool, std, wide):
    srcs = [os.path.join(VERIF, 'harness', run['driver'] + '.cpp')]
    inc = run.get('include', [])
    for s in run.get('srcs', []):
        srcs += sorted(glob.glob(os.path.join(REPO, s)))
    if wide:
        more = [f for s in run.get('srcs', ['templates/*.cpp']) for f in sorted(glob.glob(os.path.join(REPO, os.path.dirname(s), '*.cpp')))]
        srcs += [f for f in sorted(set(more)) if f not in srcs]
    srcs += [os.path.join(VERIF, 'harness', s) for s in run.get('hsrcs', [])]
    cxx = ['g++', '-m64', '-std=' + std, '-g1', '-O1', '-w', '-pthread', '-ftrivial-auto-var-init=pattern', '-I', REPO, '-I', os.path.join(VERIF, 'harness'), '-DVH_SCRATCH="%s"' % work]
    if run.get('asan', True):
        cxx += ['-fsanitize=address', '-fno-omit-frame-pointer']
    objs = []
    cmds = []
    for n, s in enumerate(srcs):
        o = os.path.join(work, '%s_%d.o' % (run['driver'], n))
        objs.append(o)
        cmd = list(cxx)
        if n > 0 and run.get('rflags') is not None:   # repository sources with their own instrumentation
            cmd = [c for c in cmd if c != '-fsanitize=address'] + run['rflags']
        if n > 0:   # repository sources
            for i in inc:
                cmd += ['-include', os.path.join(VERIF, 'harness', i)]
        cmd += run.get('flags', []) + ['-c', s, '-o', o]
        cmds.append(cmd)
    res = list(pool.map(lambda c: sh(c, 300), cmds))
    for (rc, o), c in zip(res, cmds):
        if rc != 0:
            raise CheckError('compile failed: %s\n%s' % (' '.join(c), o[-3000:]))
    exe = os.path.join(work, run['driver'])
    for extra in run.get('libs', []):     # extra shared objects built from harness files
        src, name = extra
        rc, o = sh(['g++', '-m64', '-std=c++11', '-fPIC', '-shared', '-w', os.path.join(VERIF, 'harness', src), '-o', os.path.join(work, name)], 120)
        if rc != 0:
            raise CheckError('compile failed: ' + o[-2000:])
    rc, o = sh(cxx + objs + ['-o', exe] + run.get('ldflags', []) + ['-ldl', '-lrt'], 300)
    if rc != 0:
        raise CheckError('link failed: ' + o[-3000:])
    return exe

# ---------------------------------------------------------------- TLC
def tlc(cfg, mod, work, tag, workers=1, env=None, dfs=False, heap='2600m', timeout=600, extra=()):
    md = os.path.join(work, 'tlc_' + tag)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC'] if workers > 1 else ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC']
    if dfs:
        cmd += ['-Dtlc2.tool.queue.IStateQueue=StateDeque']
    cmd += ['-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md, '-fp', '1', '-config', cfg] + list(extra) + [mod]
    for again in range(3):
        rc, o = sh(cmd, timeout, env=env, cwd=os.path.join(VERIF, 'specs'))
        shutil.rmtree(md, ignore_errors=True)
        if rc not in (-9, 137):
            break
        time.sleep(5 + 10 * again)      # ended from outside, for example for want of memory: once more
    return rc, o

def stats(o):
    m = None
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', o):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))

def model_check(mc, tier, work):
    name = mc
    cfg = 'MC%s.cfg' % name
    if tier == 'thorough' and os.path.exists(os.path.join(VERIF, 'specs', 'MC%s_thorough.cfg' % name)):
        cfg = 'MC%s_thorough.cfg' % name
    mod = 'MC%s.tla' % name
    rc, o = tlc(cfg, mod, work, 'mc' + name, workers=NPROC, heap='12g', timeout=700 if tier == 'quick' else 6000)
    if rc != 0 or 'Model checking completed. No error' not in o:
        raise CheckError('TLC on %s did not complete cleanly (rc %s):\n%s' % (cfg, rc, o[-4000:]))
    g, d = stats(o)
    log('  model %-14s %s: %d states generated, %d distinct, no error' % (name, cfg, g, d))
    return g, d

def short(x):
    if isinstance(x, list):
        return [short(y) for y in x[:40]] + (['... %d in all' % len(x)] if len(x) > 40 else [])
    if isinstance(x, dict):
        return {k: short(v) for k, v in x.items()}
    return x if not isinstance(x, str) or len(x) < 300 else x[:300] + '...'

def why(o):
    i = o.find('Error:')
    return (o[max(0, i):i + 1500] + ' ... ' if i >= 0 else '') + o[-1000:]

def validate(run, tracefile, work, tag):
    """-> (states, distinct, [(line index, first unmatched event)])"""
    spec = run['spec']
    n = sum(1 for _ in open(tracefile))
    if n == 0:
        return 0, 0, []
    rc, o = tlc(run.get('cfg', spec + 'Trace.cfg'), spec + 'Trace.tla', work, tag, env={'TRACES': tracefile}, dfs=run.get('dfs', False), timeout=800 if run.get('tier') != 'thorough' else 6000)
    if rc == 0 and 'Model checking completed. No error' in o:
        g, d = stats(o)
        bad = [(int(a) - 1, int(b)) for a, b in re.findall(r'<<"BAD", (\d+), (\d+)>>', o)]
        return g, d, bad
    # TLC could not evaluate the specification on some trace (an observation outside the
    # specification's domain), or an invariant is violated by a recorded execution, or TLC failed.
    if rc is None:
        raise CheckError('TLC timed out on %s' % tag)
    if n == 1:
        if re.search(r'Parsing or semantic analysis failed|OutOfMemory|StackOverflow|read the configuration file', o):
            raise CheckError('TLC failed: ' + why(o))
        m = re.findall(r'/\\ l = (\d+)|^l = (\d+)', o, re.M)
        at = max([int(a or b) for a, b in m] or [1])
        return 0, 0, [(0, at)]
    if re.search(r'Parsing or semantic analysis failed|OutOfMemory|read the configuration file', o):
        raise CheckError('TLC failed: ' + why(o))
    lines = open(tracefile).read().splitlines()
    out, G, D = [], 0, 0
    k = max(1, (n + 3) // 4)
    for c in range(0, n, k):
        sub = '%s.%d' % (tracefile, c)
        with open(sub, 'w') as f:
            f.write('\n'.join(lines[c:c + k]) + '\n')
        g, d, b = validate(run, sub, work, '%s_%d' % (tag, c))
        os.unlink(sub)
        G += g
        D += d
        out += [(c + x, y) for x, y in b]
        if out:       # enough: one rejected trace decides
            break
    return G, D, out

# ---------------------------------------------------------------- main
def drive(exe, out, seed, tier, run, part=0, parts=1):
    env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:detect_stack_use_after_return=0', 'VH_EXE': exe}
    env.update(run.get('env', {}))
    rc, o = sh([exe, out, str(seed), tier, str(part), str(parts)], 800 if tier == 'quick' else 7000, env=env)
    if rc != 0:
        raise CheckError('driver %s failed (rc %s): %s' % (run['driver'], rc, o[-2000:]))
    return o

def reshard(files, work, r):
    """Merge the driver's part files and cut them into TLC-sized shards."""
    lines = []
    for f in files:
        lines += open(f).read().splitlines()
        os.unlink(f)
    lines.sort(key=lambda x: (int(re.match(r'{"case":(\d+)', x).group(1))))
    size = sum(map(len, lines))
    n = max(1, min(NPROC if r.get('tier') != 'thorough' else 8 * NPROC, len(lines), 1 + size // r.get('shard_bytes', 1200000)))
    out = []
    # the long ones first, each to the shard with the least so far
    heap = [(0, k) for k in range(n)]
    lot = [[] for k in range(n)]
    for x in sorted(lines, key=len, reverse=True):
        w, k = heapq.heappop(heap)
        lot[k].append(x)
        heapq.heappush(heap, (w + len(x) + 200, k))
    for k in range(n):
        p = os.path.join(work, '%s_%s_shard%d.nd' % (r['driver'], r.get('name', ''), k))
        with open(p, 'w') as f:
            f.write(''.join(x + '\n' for x in lot[k]))
        out.append(p)
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
    os.chmod(work, 0o755)     # drivers that drop their privileges keep their files in it
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'assumptions': P.get('assumptions', []), 'violations': 0}
    rcode = 0
    try:
        pool = ThreadPoolExecutor(NPROC)
        states = trans = ntr = nev = 0
        ops, samples, models, distinct = {}, [], {}, set()
        violations = []
        exes = [build(r, work, pool) for r in P['runs']]
        log('built in %.1fs' % (time.time() - t0))
        for mc in ([] if os.environ.get('VERIF_NOMC') else P.get('mc', [])):   # VERIF_NOMC: development only
            g, d = model_check(mc, tier, work)
            models[mc] = {'generated': g, 'distinct': d}
            states += d
            trans += g
        for r, exe in zip(P['runs'], exes):
            parts = r.get('parts', NPROC)
            t1 = time.time()
            files = [os.path.join(work, '%s_%s.%d.nd' % (r['driver'], r.get('name', ''), p)) for p in range(parts)]
            r = dict(r, tier=tier)
            outs = list(pool.map(lambda p: drive(exe, files[p], seed, tier, r, p, parts), range(parts)))
            t2 = time.time()
            files = reshard(files, work, r)
            parts = len(files)
            vals = list(pool.map(lambda p: validate(r, files[p], work, '%s%d' % (r['driver'], p)), range(parts)))
            for p in range(parts):
                g, d, bad = vals[p]
                states += d
                trans += g
                with open(files[p]) as f:
                    for k, line in enumerate(f):
                        ntr += 1
                        t = json.loads(line)
                        for e in t['ev']:
                            ops[e['op']] = ops.get(e['op'], 0) + 1
                            nev += 1
                        distinct.add(hashlib.md5(line.split('"ev"', 1)[1].encode()).digest())
                        if len(samples) < 2 and k == 1:
                            samples.append({'driver': r['driver'], 'case': t['case'], 'ev': short(t['ev'][:4])})
                        for (b, at) in bad:
                            if b == k:
                                violations.append((r, exe, t, at))
            log('  driver %-14s ran in %.1fs, traces validated in %.1fs%s' % (r['driver'], t2 - t1, time.time() - t2, '; %d rejected' % len(violations) if violations else ''))
        # confirm rejections on a fresh execution of the same case
        confirmed = []
        for (r, exe, t, at) in violations[:3]:
            got = None
            for attempt in range(2):
                f = os.path.join(work, 'confirm.nd')
                r2 = dict(r)
                r2['env'] = dict(r.get('env', {}), VH_ONLY=str(t['case']))
                drive(exe, f, seed, tier, r2)
                _, _, bad = validate(r2, f, work, 'confirm')
                if bad:
                    lines = open(f).read().splitlines()
                    got = (json.loads(lines[bad[0][0]]), bad[0][1])
                    break
            if got:
                confirmed.append((r, got[0], got[1], True))
            elif not any(e['op'] == 'crash' and e.get('why') == 'timeout' for e in t['ev']):
                # the recorded execution itself is evidence: re-validate it alone
                f = os.path.join(work, 'confirm.nd')
                with open(f, 'w') as h:
                    h.write(json.dumps(t) + '\n')
                _, _, bad = validate(r, f, work, 'confirm')
                if bad:
                    confirmed.append((r, t, bad[0][1], False))
        rep = os.path.join(VERIF, 'evidence', 'replay')
        for k, (r, t, at, again) in enumerate(confirmed):
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, '%s_%s_%s.json' % (prop, r['driver'], t['case']))
            bad = t['ev'][at - 1] if 0 < at <= len(t['ev']) else None
            with open(path, 'w') as f:
                json.dump({'property': prop, 'driver': r['driver'], 'spec': r['spec'] + 'Trace.tla', 'seed': seed, 'tier': tier, 'case': t['case'], 'reproduced': again,
                           'first_event_the_specification_rejects': at, 'event': bad, 'trace': t}, f)
            if k == 0:
                log('rejected event %d of case %s: %s' % (at, t['case'], json.dumps(bad)[:1500]))
            log('VIOLATION property=%s replay=%s' % (prop, path))
            rcode = 1
        ev['violations'] = len(confirmed)
        ev['coverage'] = {'states': states, 'transitions': trans, 'traces_validated_against_impl': ntr, 'samples': samples, 'events': nev, 'distinct_traces': len(distinct),
                          'events_by_operation': ops, 'models': models}
        missing = [o for o in P.get('must_ops', []) if not ops.get(o)]
        if missing and rcode == 0:
            raise CheckError('vacuous run: operations never exercised: %s' % missing)
        if ntr == 0:
            raise CheckError('no traces')
        ev['wall_s'] = round(time.time() - t0, 2)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for line in known_findings(prop):
            log(line)
        log('%s %s: %s; %d traces (%d events, %d distinct), %d states, %.1fs' % (prop, tier, 'VIOLATED' if rcode else 'held', ntr, nev, len(distinct), states, ev['wall_s']))
    except CheckError as e:
        log('CHECK ERROR: %s' % e)
        rcode = 2
    finally:
        subprocess.call(['chmod', '-R', 'u+rwX', work], stderr=subprocess.DEVNULL)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rcode)

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return []
    return [x.strip() for x in open(p) if x.startswith('KNOWN-FINDING: property=%s ' % prop)]

if __name__ == '__main__':
    main()
