#!/usr/bin/env python3
"""Driver: python3 vc.py check <ID> [--thorough] | replay <file> | closure | setup
Builds the harnesses of a property from /repo's working tree, explores every scenario, writes
evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, hashlib, subprocess, time, re, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
NCPU = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
CXX = 'clang++'
COMMON = ['-std=c++11', '-include', 'exception', '-g1', '-fno-omit-frame-pointer', '-fno-delete-null-pointer-checks',
          '-DDEBUG', '-D_DEBUG', '-w']
MC_FLAGS = COMMON + ['-O1', '-fsanitize=thread', '-femulated-tls', '-fno-pie']
SQ_FLAGS = COMMON + ['-O1', '-fsanitize=address', '-fsanitize=bounds,return,unreachable,integer-divide-by-zero',
                     '-fno-sanitize-recover=all', '-fno-pie', '-fno-optimize-sibling-calls', '-ftrivial-auto-var-init=pattern']
RT_FLAGS = ['-std=c++17', '-O2', '-g1', '-fno-omit-frame-pointer', '-fno-pie', '-w']

sys.path.insert(0, VERIF)
from checks import CHECKS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

def die(msg):
    print('ERROR ' + msg)
    sys.stdout.flush()
    sys.exit(2)

_src = None
def src_root():
    """directory to use as include root / source root (overlay when the generated platform.h is missing)"""
    global _src
    if _src: return _src
    root = os.path.join(REPO, 'src')
    if os.path.exists(os.path.join(root, 'lightspeed', 'platform.h')):
        _src = root
        return _src
    ov = os.path.join(BUILD, 'overlay', 'src')
    shutil.rmtree(os.path.join(BUILD, 'overlay'), ignore_errors=True)
    shutil.copytree(root, ov, symlinks=True)
    with open(os.path.join(ov, 'lightspeed', 'platform.h'), 'w') as f:
        f.write('#define HAVE_PIPE2 1\n#define HAVE_VFORK 1\n#define HAVE_DECL___ATOMIC_COMPARE_EXCHANGE 1\n')
    _src = ov
    return _src

_hh = None
def headers_hash():
    global _hh
    if _hh: return _hh
    h = hashlib.sha1()
    for d, dn, fn in sorted(os.walk(os.path.join(src_root(), 'lightspeed'))):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(('.h', '.tcc', '.hpp', '.inc')):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in sorted(glob.glob(os.path.join(VERIF, 'engine', '*.h')) + glob.glob(os.path.join(VERIF, 'harness', '*.h'))):
        h.update(open(p, 'rb').read())
    _hh = h.hexdigest()
    return _hh

def lib_sources():
    out = []
    root = src_root()
    for d, dn, fn in os.walk(os.path.join(root, 'lightspeed')):
        if 'windows' in d.split(os.sep): continue
        for f in fn:
            if f.endswith(('.cpp', '.c', '.cc')): out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)

def compile_one(src, flags, usehdr=True):
    key = hashlib.sha1((' '.join(flags) + '\0' + src + '\0' + (headers_hash() if usehdr else '')).encode() + open(src, 'rb').read()).hexdigest()
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(obj): return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid() + hashlib.md5(src.encode()).hexdigest()[:6]
    cmd = [CXX] + flags + ['-I' + src_root(), '-I' + os.path.join(VERIF, 'engine'), '-I' + os.path.join(VERIF, 'harness'), '-c', src, '-o', tmp]
    r = sh(cmd)
    if r.returncode != 0: return None, ' '.join(cmd) + '\n' + r.stderr[-3000:]
    os.rename(tmp, obj)
    return obj, None

def compile_many(items):
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda it: compile_one(*it), items))
    for o, e in res:
        if e: die('compile failed: ' + e)
    return [o for o, e in res]

def closure_file(): return os.path.join(VERIF, 'engine', 'closure.json')

def build(kind, harness, record=False):
    """returns path to the executable"""
    flags = MC_FLAGS if kind == 'mc' else SQ_FLAGS
    hsrc = os.path.join(VERIF, 'harness', harness + '.cpp')
    root = src_root()
    allsrc = lib_sources()
    clos = {}
    if os.path.exists(closure_file()): clos = json.load(open(closure_file()))
    want = clos.get(harness)
    use = [s for s in (want or allsrc) if os.path.exists(os.path.join(root, s))]
    if record: use = allsrc
    eng = ['rt.cpp'] if kind == 'mc' else ['seq.cpp', 'seq_main.cpp']
    def attempt(use):
        items = [(os.path.join(VERIF, 'engine', e), RT_FLAGS if kind == 'mc' else (['-std=c++17', '-O1', '-g1', '-w', '-fno-pie']), True) for e in eng]
        items += [(hsrc, flags, True)] + [(os.path.join(root, s), flags + (['-Dmain=lightspeed_main'] if s.endswith('/linux/main.cpp') else []), True) for s in use]
        objs = compile_many(items)
        key = hashlib.sha1('\n'.join(objs).encode()).hexdigest()
        exe = os.path.join(BUILD, 'bin', harness + '-' + key[:16])
        if os.path.exists(exe) and not record: return exe, None
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        ne = len(eng) + 1
        ar = exe + '.a'
        if os.path.exists(ar): os.unlink(ar)
        sh(['ar', 'crs', ar] + objs[ne:])
        mapf = exe + '.map'
        cmd = [CXX, '-no-pie'] + (['-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero'] if kind == 'sq' else []) + objs[:ne] + [ar, '-o', exe + '.tmp', '-Wl,-z,now', '-Wl,-Map=' + mapf, '-lpthread']
        r = sh(cmd)
        os.unlink(ar)
        if r.returncode != 0: return None, r.stderr[-4000:]
        os.rename(exe + '.tmp', exe)
        if record:
            names = {os.path.basename(o): s for o, s in zip(objs[ne:], use)}
            used = set(re.findall(r'\(([0-9a-f]{40}\.o)\)', open(mapf).read()))
            clos[harness] = sorted(names[u] for u in used if u in names)
            json.dump(clos, open(closure_file(), 'w'), indent=0, sort_keys=True)
        os.unlink(mapf)
        return exe, None
    exe, err = attempt(use)
    if not exe and want:
        exe, err = attempt(allsrc)
    if not exe: die('link failed for ' + harness + ': ' + err)
    return exe

def symbolize(exe, text):
    addrs = sorted(set(re.findall(r'\b(?:pc=)?([0-9a-f]{6,8})\b', text)))
    if not addrs: return text
    r = sh(['addr2line', '-Cfe', exe] + ['0x' + a for a in addrs])
    lines = r.stdout.split('\n')
    m = {}
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(lines):
            fn = lines[2 * i]; loc = lines[2 * i + 1]
            loc = re.sub(r'^.*/lightspeed/', 'lightspeed/', loc)
            m[a] = '%s(%s)' % (fn.split('(')[0][-60:], loc)
    return re.sub(r'\b(pc=)?([0-9a-f]{6,8})\b', lambda x: m.get(x.group(2), x.group(0)) if not m.get(x.group(2), '??').startswith('??') else x.group(0), text)

def run_scn(exe, scn, thorough, tlimit, extra=()):
    cmd = [exe, '--scenario', scn, '--time', str(tlimit)] + (['--thorough'] if thorough else []) + list(extra)
    tmpd = tempfile.mkdtemp(prefix='lsv', dir=os.environ.get('TMPDIR', '/tmp'))
    env = dict(os.environ, SQ_TMP=tmpd)
    try:
        r = sh(cmd, timeout=tlimit * 4 + 120, env=env)
    except subprocess.TimeoutExpired:
        return dict(scenario=scn, engine_error='timeout', violation=None)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    line = None
    for l in r.stdout.split('\n'):
        if l.startswith('{"scenario"'): line = l
    if line is None and ('ERROR: AddressSanitizer' in r.stderr or r.returncode in (-11, -6, -7, -4, -8)):
        # the program under test died in a way the engine could not catch: reproduced by exploring the scenario again
        m = re.search(r'ERROR: AddressSanitizer: [^\n]*', r.stderr)
        return dict(scenario=scn, violation=dict(msg='the program crashed: ' + (m.group(0)[7:] if m else 'signal %d' % -r.returncode), choices='*'), stderr=r.stderr[-3000:])
    if line is None:
        return dict(scenario=scn, engine_error='exit %d: %s %s' % (r.returncode, r.stdout[-500:], r.stderr[-1500:]), violation=None)
    try:
        d = json.loads(line)
    except Exception as e:
        return dict(scenario=scn, engine_error='bad output %r' % line[:300], violation=None)
    d['stderr'] = r.stderr[-3000:]
    return d

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known:'): continue
            m = re.match(r'known: property=(\S+) scenario=(\S+) msg="([^"]*)" ?(.*)', l)
            if m and m.group(1) == prop: out.append(m.groups())
    return out

def check(prop, thorough):
    t0 = time.time()
    c = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if thorough else 'quick'
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evf = os.path.join(VERIF, 'evidence', prop + '.json')
    if os.path.exists(evf): os.unlink(evf)
    jobs = []
    results = []
    tq = c.get('tq', 150) if not thorough else c.get('tt', 500)
    for kind, harness in c['harness']:
        exe = build(kind, harness)
        r = sh([exe, '--list'])
        names = [l.split()[0] for l in r.stdout.split('\n') if l.strip()]
        pat = c.get('match', {}).get(harness)
        for n in names:
            if pat and not re.search(pat, n): continue
            extra = []
            shards = c.get('shards', {}).get(n, 1) if kind == 'sq' else 1
            for s in range(shards):
                jobs.append((kind, harness, exe, n, ['--shard', '%d/%d' % (s, shards)] if shards > 1 else []))
            if kind == 'mc' and c.get('fill2', True):
                jobs.append((kind, harness, exe, n, ['--fill', '0', '--bound', '1']))
    prio = c.get('prio', [])
    jobs.sort(key=lambda j: prio.index(j[3]) if j[3] in prio else 999)
    tb = time.time() - t0
    budget = (780 if not thorough else 3000) - tb
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: run_scn(j[2], j[3], thorough, tq, j[4]), jobs))
    known = known_findings(prop)
    viol = []; errors = []; knownhit = []
    for j, r in zip(jobs, res):
        r['harness'] = j[1]; r['kind'] = j[0]; r['extra'] = j[4]
        if r.get('engine_error'): errors.append('%s/%s: %s' % (j[1], j[3], r['engine_error'])); continue
        v = r.get('violation')
        if v:
            k = [x for x in known if x[1] == j[3] and x[2] in v['msg']]
            if k: knownhit.append((k[0], r)); continue
            # confirm by replay in a fresh process
            args = [j[2], '--scenario', j[3], '--choices', v['choices']] + (['--thorough'] if thorough else [])
            if '--fill' in j[4]: args += j[4][:2]
            try:
                if v['choices'] == '*':
                    r2 = run_scn(j[2], j[3], thorough, tq, j[4]); out = str(r2.get('stderr')); ok = bool(r2.get('violation'))
                else: rr = sh(args, timeout=120)
                if v['choices'] != '*': out = rr.stdout; ok = any(l.startswith('RESULT ') and l[7:].strip() not in ('ok', 'DIVERGED', '') for l in out.split('\n'))
            except subprocess.TimeoutExpired:
                out = 'replay timed out'; ok = False
            if not ok and j[0] == 'sq' and 'does not terminate' in v['msg']:
                ok = 'does not terminate' in out
            if not ok:
                errors.append('%s/%s: violation "%s" did not replay: %s' % (j[1], j[3], v['msg'], out[-300:])); continue
            rd = os.path.join(VERIF, 'replays'); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%s-%s.txt' % (prop, j[1], j[3]))
            with open(rp, 'w') as f:
                f.write('property %s\nkind %s\nharness %s\nscenario %s\nextra %s\nthorough %d\nchoices %s\nmessage %s\n\n' % (prop, j[0], j[1], j[3], ' '.join(j[4]), thorough, v['choices'], symbolize(j[2], v['msg'])))
                f.write('# reproduce: python3 %s/vc.py replay %s\n' % (VERIF, rp))
                f.write(symbolize(j[2], out[-200000:]))
                if r.get('stderr'): f.write('\nSTDERR of the exploring run:\n' + symbolize(j[2], r['stderr']))
            viol.append((rp, j, v))
    good = [r for r in res if not r.get('engine_error')]
    S = lambda k: sum(int(r.get(k) or 0) for r in good)
    ismc = all(k == 'mc' for k, h in c['harness'])
    samples = []
    for r in good:
        if r['kind'] == 'mc':
            if r.get('sample'): samples.append('%s/%s: schedule choices at branching points %s' % (r['harness'], r['scenario'], r['sample'][:60]))
        elif r.get('sample'): samples.append('%s/%s: %s' % (r['harness'], r['scenario'], r['sample'][:600]))
    if not samples: samples = ['%s/%s: default schedule only (no branching point within the bound)' % (r['harness'], r['scenario']) for r in good[:3]]
    scn = [dict((k, r.get(k)) for k in ('harness', 'scenario', 'bound', 'completed_bound', 'capped', 'states', 'transitions', 'executions', 'pruned', 'outcomes', 'racy_sites', 'wall', 'extra') if r.get(k) is not None) for r in good]
    capped = [r['scenario'] for r in good if r.get('capped')]
    level = c.get('level', 'model_checking')
    states = sum(int(r.get('states') or 0) or int(r.get('tree_nodes') or 0) for r in good)
    cov = dict(
        states=states, transitions=S('transitions'), traces_validated_against_impl=S('executions'),
        executions_completed=S('executions') - S('pruned'), executions_pruned_at_visited_state=S('pruned'),
        distinct_outcomes=S('outcomes'), scenarios=scn, capped_scenarios=capped, exhaustive=not capped and not viol,
        samples=samples[:12],
        rule=('every schedule of every scenario with at most `bound` preemptions/early timeouts, on the real code under a controlled scheduler; states = distinct happens-before fingerprints at branching points, transitions = scheduling steps, traces = executions of the implementation (every trace runs the implementation itself)' if ismc else
              'every operation sequence / input / environment answer of every scenario up to its bound, executed on the real code and compared with a reference model; states = distinct canonical states (or nodes of the choice tree), transitions = operations executed, traces = executions of the implementation'))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=c.get('assumptions', []) + (['sequentially consistent memory', 'library code compiled at -O1 with clang TSan instrumentation'] if any(k == 'mc' for k, h in c['harness']) else []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if level in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = S('executions'); cov['distinct_nontrivial'] = max(S('outcomes'), 1)
    json.dump(ev, open(evf, 'w'), indent=1)
    for e in errors: print('ERROR ' + e[:3000])
    for (k, r) in knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, k[3] or k[2]))
    for rp, j, v in viol:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  scenario %s/%s: %s' % (j[1], j[3], symbolize(j[2], v['msg'])))
    print('%s %s: %d scenarios, %d executions, %d states, %d transitions, %d outcomes%s, build %.1fs, total %.1fs' % (prop, tier, len(jobs), S('executions'), states, S('transitions'), S('outcomes'), (', CAPPED: ' + ','.join(capped)) if capped else '', tb, time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for r in res: print('   ', r.get('scenario'), ' '.join(r.get('extra', [])), {k: r.get(k) for k in ('completed_bound', 'capped', 'states', 'tree_nodes', 'executions', 'pruned', 'outcomes', 'racy_sites', 'wall', 'engine_error')})
    if viol: return 1
    if errors: return 2
    return 0

def replay(path):
    d = {}
    for l in open(path):
        l = l.rstrip('\n')
        if not l: break
        k, _, v = l.partition(' '); d[k] = v
    exe = build(d['kind'], d['harness'])
    cmd = [exe, '--scenario', d['scenario']] + (['--choices', d['choices']] if d['choices'] != '*' else []) + (['--thorough'] if d.get('thorough') == '1' else [])
    ex = d.get('extra', '').split()
    if '--fill' in ex: cmd += ex[:2]
    r = sh(cmd)
    print(symbolize(exe, r.stdout))
    print(symbolize(exe, r.stderr[-3000:]))
    return r.returncode

def main():
    a = sys.argv[1:]
    if a[0] == 'check':
        thorough = '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'
        sys.exit(check(a[1], thorough))
    if a[0] == 'replay': sys.exit(replay(a[1]))
    if a[0] == 'closure':
        hs = sorted(set((k, h) for c in CHECKS.values() for k, h in c['harness']))
        for k, h in hs:
            if len(a) > 1 and h not in a[1:]: continue
            print(h); build(k, h, record=True)
        return
    if a[0] == 'build':
        for k, h in sorted(set((k, h) for c in CHECKS.values() for k, h in c['harness'])): print(build(k, h))
        return
    if a[0] == 'setup':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for t in (CXX, 'ar', 'addr2line'):
            if not shutil.which(t): die('missing tool ' + t)
        print('ok')
        return
    die('usage')
main()
