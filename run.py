#!/usr/bin/env python3
"""Driver: run.py <ID> [--tier quick|thorough] [--replay FILE] [--bins a,b] [--units u,v]

Compiles the harnesses of one property from /repo's working tree, explores them in parallel shards,
merges what they covered into evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored; 1 violation; 2 error of the check itself."""
import sys, os, json, subprocess, time, hashlib, array, shutil, signal, struct
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'checks'))
REPO = os.environ.get('MC_REPO', '/repo')
import specs

INC = ['-I' + HERE + '/common/include', '-I' + HERE + '/common', '-I' + REPO,
       '-isystem', '/opt/dune/prefix/include', '-isystem', '/usr/include/superlu', '-isystem', '/usr/include/suitesparse',
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/include/arpack++']
DEFS = ['-DENABLE_MPI=1', '-DHAVE_MPI=1', '-DMPICH_SKIP_MPICXX=1', '-DMPI_NO_CPPBIND=1', '-DOMPI_SKIP_MPICXX=1']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1']
DUNELIB = ['/opt/dune/prefix/lib/libdunecommon.a']
LIBDIR = ['-L/usr/lib/x86_64-linux-gnu']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=99', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def filehash(path, cache={}):
    if path not in cache:
        try:
            cache[path] = hashlib.sha256(open(path, 'rb').read()).hexdigest()
        except OSError:
            cache[path] = 'missing'
    return cache[path]

def compile_one(pid, b, bdir):
    """one binary = one or more sources; objects are cached by the content of everything they include"""
    objs = []
    for src in b['src'] if isinstance(b['src'], list) else [b['src']]:
        s = os.path.join(HERE, 'checks', src)
        flags = ['-std=gnu++20', b.get('opt', '-O1'), '-w'] + DEFS + ['-D' + d for d in b.get('defs', [])] + list(b.get('pre', [])) + INC
        if b.get('san', True): flags += SAN
        flags += b.get('flags', [])
        o = os.path.join(bdir, b['name'] + '-' + os.path.basename(src) + '.o')
        stamp = o + '.stamp'
        key = hashlib.sha256(('\0'.join(flags) + s).encode()).hexdigest()
        ok = False
        if os.path.exists(o) and os.path.exists(stamp):
            try:
                st = json.load(open(stamp))
                ok = st['key'] == key and all(filehash(f) == h for f, h in st['deps'].items())
            except Exception:
                ok = False
        if not ok:
            for f in (o, stamp):
                if os.path.exists(f): os.remove(f)
            r = sh([b.get('cxx', 'g++')] + flags + ['-MD', '-MF', o + '.d', '-c', s, '-o', o])
            if r.returncode != 0:
                return (None, r.stdout)
            dep = open(o + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
            json.dump({'key': key, 'deps': {f: filehash(f) for f in dep}}, open(stamp, 'w'))
        objs.append(o)
    exe = os.path.join(bdir, b['name'])
    r = sh([b.get('cxx', 'g++')] + (SAN if b.get('san', True) else []) + b.get('ldflags', []) + objs + b.get('objs', []) + ['-o', exe] + DUNELIB + LIBDIR + ['-l' + l for l in b.get('libs', ['mpi'])])
    if r.returncode != 0:
        return (None, r.stdout)
    return (exe, '')

def read_journal(jf):
    try:
        d = open(jf, 'rb').read()
        unit = d[:64].split(b'\0')[0].decode()
        cases, n = struct.unpack('QI', d[64:76])
        n = min(n, 4000)
        ch = struct.unpack('%dH' % n, d[80:80 + 2 * n])
        return unit, cases, ','.join(map(str, ch))
    except Exception:
        return '', 0, ''

def run_shard(job):
    exe, b, i, n, bdir, units, knownf, tier, deadline = job
    tag = os.path.join(bdir, '%s.%s.%d' % (b['name'], units[0] if units else 'all', i))
    jf, of, ef = tag + '.journal', tag + '.json', tag + '.err'
    for f in (jf, of, of + '.states'):
        if os.path.exists(f): os.remove(f)
    cmd = [exe, '--shard', '%d/%d' % (i, n), '--journal', jf, '--out', of, '--known', knownf]
    if units: cmd += ['--units', ','.join(units)]
    if b.get('budget'): cmd += ['--budget', str(b['budget'][0 if tier == 'quick' else 1])]
    env = dict(ENV, MC_TIER=tier)
    env.update(b.get('env', {}))
    with open(ef, 'w') as e:
        p = subprocess.Popen(cmd, stdout=e, stderr=e, env=env, cwd=bdir, start_new_session=True)
        last, lastt, hang = (-1, ''), time.time(), False
        caselimit = b.get('caselimit', 60)
        while True:
            try:
                rc = p.wait(timeout=0.5); break
            except subprocess.TimeoutExpired:
                u, c, ch = read_journal(jf)
                if (u, c) != last: last, lastt = (u, c), time.time()
                elif time.time() - lastt > caselimit:
                    hang = True
                    os.killpg(p.pid, signal.SIGKILL); rc = p.wait(); break
                if time.time() > deadline:
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    return dict(rc=-99, job=job, tag=tag, hang=False, timeout=True)
    return dict(rc=rc, job=job, tag=tag, hang=hang, timeout=False)

def replay_once(exe, b, unit, choices, tier, limit, bdir):
    env = dict(ENV, MC_TIER=tier); env.update(b.get('env', {}))
    try:
        r = subprocess.run([exe, '--replay', unit + ':' + choices], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=limit, text=True, errors='replace', cwd=bdir)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick'); rep = None; onlyb = None; onlyu = None
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--replay': rep = a.pop(0)
        elif x == '--bins': onlyb = a.pop(0).split(',')
        elif x == '--units': onlyu = a.pop(0).split(',')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = specs.CHECKS[pid]
    bdir = os.path.join(HERE, 'build', pid); os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    bins = [b for b in spec['bins'] if (not onlyb or b['name'] in onlyb) and (tier == 'thorough' or not b.get('thorough_only'))]
    if rep:
        r = json.load(open(rep))
        b = [x for x in spec['bins'] if x['name'] == r['bin']][0]
        exe, err = compile_one(pid, b, bdir)
        if not exe: print(err); return 2
        rc, out = replay_once(exe, b, r['unit'], r['choices'], r['tier'], 300, bdir)
        print(out); print('replay ended with', rc)
        return 0 if rc == 0 else 1
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda b: compile_one(pid, b, bdir), bins))
    for b, (exe, err) in zip(bins, res):
        if not exe:
            print('ERROR: harness %s does not compile against %s' % (b['name'], REPO)); print("\n".join(l[:400] for l in err.split("\n") if "error:" in l or "required from" in l or "undefined reference" in l)[:4000])
            return 2
    tc = time.time() - t0
    kfs = json.load(open(os.path.join(HERE, 'known_findings.json')))
    known = [k for k in kfs['findings'] if k['property'] == pid]
    jobs = []
    deadline = t0 + (780 if tier == 'quick' else spec.get('thorough_limit', 7200))
    for b, (exe, _) in zip(bins, res):
        kf = os.path.join(bdir, b['name'] + '.known')
        open(kf, 'w').write(''.join('%s:%s\n' % (k['unit'], k['key']) for k in known if k.get('bin', b['name']) == b['name']))
        n = b.get('shards', 8)
        for i in range(n): jobs.append((exe, b, i, n, bdir, onlyu, kf, tier, deadline))
    with ThreadPoolExecutor(int(os.environ.get('MC_JOBS', '8'))) as ex:
        outs = list(ex.map(run_shard, jobs))
    tot = dict(execs=0, transitions=0, checks=0); states = set(); samples = []; outcomes = {}; perunit = {}; capped = False; scap = False
    viol = []; khit = {}; errors = []
    for o in outs:
        exe, b, i, n = o['job'][:4]
        if o['timeout']:
            errors.append('%s shard %d/%d exceeded the time limit of the whole check' % (b['name'], i, n)); continue
        if o['rc'] in (0, 1) and os.path.exists(o['tag'] + '.json'):
            try: d = json.load(open(o['tag'] + '.json'))
            except Exception as e: errors.append('bad output of %s: %s' % (o['tag'], e)); continue
            for k in tot: tot[k] += d[k]
            capped |= d['capped']; scap |= d['statesCapped']
            try:
                ar = array.array('Q'); ar.frombytes(open(o['tag'] + '.json.states', 'rb').read()); states.update(ar)
            except Exception: pass
            for s in d['samples']: samples.append(b['name'] + ': ' + s)
            for k, v in d['outcomes'].items(): outcomes[k] = outcomes.get(k, 0) + v
            for k, v in d['units'].items():
                q = perunit.setdefault(b['name'] + '.' + k, [0, 0.0]); q[0] += v[0]; q[1] = round(q[1] + v[1], 2)
            for f in d['known']: khit[(f['unit'], f['key'])] = f
            for f in d['fails']: viol.append((b, f))
        elif o['rc'] == 77:
            errors.append('%s: nondeterministic harness: %s' % (o['tag'], open(o['tag'] + '.err').read()[-500:]))
        else:
            unit, cases, ch = read_journal(o['tag'] + '.journal')
            err = open(o['tag'] + '.err', errors='replace').read()
            rc, out = replay_once(exe, b, unit, ch, tier, max(180, 3 * b.get('caselimit', 60)) if o['hang'] else 300, bdir)
            what = 'does not terminate' if o['hang'] else 'crash (exit %s)' % o['rc']
            if rc == 0:
                # not attributable to the one case: run the shard again
                o2 = run_shard(o['job'])
                if o2['rc'] in (0, 1): errors.append('%s: %s did not repeat' % (o['tag'], what)); continue
                viol.append((b, dict(unit=unit, key='', choices=ch, msg=what + ' of the whole shard %d/%d, twice; not of the single case.\n' % (i, n) + err[-3000:], notes='')))
            else:
                if rc == 'timeout': what = 'does not terminate (also alone, with a longer limit)'
                viol.append((b, dict(unit=unit, key='', choices=ch, msg=what + '\n' + (out[-6000:] if out else err[-6000:]), notes='')))
    rd = os.path.join(HERE, 'replays'); os.makedirs(rd, exist_ok=True)
    seen = set(); nv = 0
    for b, f in viol:
        k = (b['name'], f['unit'])
        if k in seen: continue
        seen.add(k); nv += 1
        path = os.path.join(rd, '%s-%s-%s.json' % (pid, b['name'], f['unit']))
        json.dump(dict(property=pid, bin=b['name'], unit=f['unit'], choices=f['choices'], tier=tier, msg=f['msg'], notes=f['notes'].split('\n'),
                       how='python3 run.py %s --replay %s' % (pid, path)), open(path, 'w'), indent=1)
        print('--- %s %s.%s [%s]\n%s\n%s' % (pid, b['name'], f['unit'], f['choices'], f['notes'][-1500:], f['msg'][:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for (u, k), f in sorted(khit.items()):
        w = [x for x in known if x['unit'] == u and x['key'] == k]
        print('KNOWN-FINDING: property=%s %s' % (pid, w[0]['what'] if w else k))
    distinct_outcomes = len(outcomes)
    oc = dict(sorted(outcomes.items(), key=lambda x: -x[1])[:60])
    units = {k: v[0] for k, v in perunit.items()}
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'model_checking'),
              coverage=dict(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['execs'],
                            oracle_comparisons=tot['checks'], distinct_observed_outcomes=distinct_outcomes, outcomes=oc, executions_per_unit=units,
                            samples=samples[:12], bounds=spec.get('bounds', ''), exhaustive=not (capped or errors or nv),
                            known_findings_seen=len(khit)),
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nv)
    if capped: ev['coverage']['cap'] = 'a time budget stopped at least one shard before its tree was complete'
    if scap: ev['coverage']['states_note'] = 'the set of state fingerprints was full; the number of states is a lower bound'
    if not onlyb and not onlyu:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: executions=%d transitions=%d states=%d comparisons=%d outcomes=%d compile=%.1fs wall=%.1fs%s' % (pid, tier, tot['execs'], tot['transitions'], len(states), tot['checks'], distinct_outcomes, tc, time.time() - t0, ' CAPPED' if capped else ''))
    if os.environ.get('MC_UNITS'): print(json.dumps(perunit, indent=1))
    if nv: return 1
    for e in errors: print('ERROR:', e)
    if errors: return 2
    if tot['execs'] == 0: print('ERROR: nothing explored'); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
