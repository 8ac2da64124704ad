#!/usr/bin/env python3
"""Build one property's harness from /repo's working tree, run it under the sanitizers, decide, write evidence.

exit 0  : every monitor quiet (listed known findings are printed, not counted)
exit 1  : at least one violation that known_findings.jsonl does not list; VIOLATION line printed
exit 2+ : the check itself could not give an answer
"""
import argparse, collections, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))

COMMON = ['-std=c++17', '-g1', '-w', '-fno-omit-frame-pointer', '-include', 'cstdint',
          '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS',
          '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(REPO, 'include'), '-pthread']
VARIANTS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
    'fast': ['-O2'],
}
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('abort_on_error=0:exitcode=86:halt_on_error=1:detect_leaks=0:max_malloc_fill_size=67108864:'
                       'malloc_fill_byte=190:hard_rss_limit_mb=6000:allocator_may_return_null=0:'
                       'detect_stack_use_after_return=0:strict_string_checks=0')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=86:second_deadlock_stack=1'
ENV['LC_ALL'] = 'C'


def die(msg, code=2):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(code)


def compile_one(src, variant, flags, obj):
    cmd = ['g++'] + COMMON + VARIANTS[variant] + flags + ['-c', src, '-o', obj]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout, ' '.join(cmd)


def build(spec, bdir):
    """every (unit) is an executable: name, sources, variant, flags, libs"""
    jobs = []
    for u in spec['units']:
        objs = []
        for k, s in enumerate(u['sources']):
            src = s.replace('{REPO}', REPO)
            if not os.path.isabs(src):
                src = os.path.join(VERIF, src)
            obj = os.path.join(bdir, '%s_%d.o' % (u['name'], k))
            objs.append(obj)
            jobs.append((src, u['variant'], [f.replace('{REPO}', REPO) for f in u.get('flags', [])], obj))
        u['_objs'] = objs
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    for rc, out, cmd in res:
        if rc != 0:
            die('harness does not compile against the working tree\n%s\n%s' % (cmd, out[-6000:]))
    for u in spec['units']:
        exe = os.path.join(bdir, u['name'])
        cmd = ['g++'] + VARIANTS[u['variant']] + u['_objs'] + ['-o', exe, '-pthread', '-Wl,--gc-sections'] + u.get('libs', [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode != 0:
            die('link failed\n%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
        u['_exe'] = exe


def clean_func(s):
    s = re.sub(r'\(.*$', '', s.strip())
    s = re.sub(r'<.*$', '', s)
    return s.split('::')[-1].strip()


def classify(text, rc):
    """stable description of an abnormal end: kind @ first library function on the stack"""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)', text)
    if m:
        kind = 'asan:' + m.group(1)
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\(\n]+)', text)
        if m:
            kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
    if not kind:
        m = re.search(r'runtime error: ([^\n]+)', text)
        if m:
            t = re.sub(r'0x[0-9a-f]+', 'P', m.group(1))
            t = re.sub(r'-?\d[\d\.e\+-]*', 'N', t)
            kind = 'ubsan:' + re.sub(r"[^A-Za-z]+", '-', t)[:60].strip('-')
    if not kind and 'hard rss limit exhausted' in text:
        kind = 'oom'
    if not kind:
        m = re.search(r'Assertion [`\'](.*?)\' failed', text)
        if m:
            f = re.search(r"([\w./+-]+):\d+: (.*?): Assertion", text)
            fn = clean_func(f.group(2)[f.group(2).rfind(' ', 0, (f.group(2) + '(').find('(')) + 1:]) if f else ''
            return 'assert@' + fn
    if not kind:
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
        if m:
            kind = 'uncaught:' + m.group(1)
    if not kind and 'VH-HANG' in text:
        kind = 'hang'
    if not kind:
        kind = 'exit:%d' % rc
    fn = ''
    for l in text.splitlines():
        m = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(.*?) (\S+/include/delfem2/\S+?)(?::\d+)*$', l)
        if m:
            fn = clean_func(m.group(1))
            break
    return kind + ('@' + fn if fn else '')


def run_proc(u, args, prefix, wall):
    err = prefix + '.err'
    with open(err, 'wb') as fe:
        p = subprocess.Popen([u['_exe']] + args, stdout=fe, stderr=subprocess.STDOUT, env=u['_env'],
                             start_new_session=True, cwd=u['_dir'])
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = -9999
    with open(err, 'rb') as f:
        data = f.read()
    return rc, data[:200000].decode('utf-8', 'replace')


def read_prog(prefix):
    try:
        with open(prefix + '.prog', 'rb') as f:
            b = f.read()
        fam = b[:120].split(b'\0')[0].decode()
        icase, = struct.unpack('q', b[120:128])
        return fam, icase
    except Exception:
        return '', -1


def run_shard(u, k, n, seed, thorough, rdir, wall, t_end):
    """run one shard; after a crash go on with the following case"""
    viols, sums, sigs, inconc = [], [], [], []
    start = None
    crashed_fams = collections.Counter()
    for attempt in range(12):
        prefix = os.path.join(rdir, '%s.%d.%d' % (u['name'], k, attempt))
        args = ['--seed', str(seed), '--shard', '%d/%d' % (k, n), '--out', prefix, '--dir', u['_dir']]
        if thorough:
            args.append('--thorough')
        if start:
            args += ['--start-family', start[0], '--start-case', str(start[1])]
        w = min(wall, max(20, t_end - time.time()))
        rc, text = run_proc(u, args, prefix, w)
        if os.path.exists(prefix + '.viol'):
            with open(prefix + '.viol') as f:
                for l in f:
                    try:
                        v = json.loads(l)
                        v['unit'] = u['name']
                        viols.append(v)
                    except ValueError:
                        pass
        try:
            with open(prefix + '.sum') as f:
                sums.append(json.load(f))
            with open(prefix + '.sig', 'rb') as f:
                sigs.append(f.read())
        except Exception:
            pass
        if rc == 0:
            break
        fam, icase = read_prog(prefix)
        if rc == -9999:
            inconc.append('unit %s shard %d: wall limit at %s#%d' % (u['name'], k, fam, icase))
            break
        if rc in (90, 91) or not fam:
            die('harness failed to start: rc=%d\n%s' % (rc, text[-2000:]))
        if fam == '(end)':
            inconc.append('unit %s shard %d ended with rc=%d after its last case\n%s' % (u['name'], k, rc, text[-1500:]))
            break
        what = classify(text, rc)
        if rc in (-9, -15) and what.startswith('exit:'):
            inconc.append('unit %s shard %d killed from outside (rc=%d) at %s#%d' % (u['name'], k, rc, fam, icase))
            break
        if what.startswith('hang'):
            # run the case once more on its own before calling it a hang
            p2 = prefix + '.again'
            rc2, text2 = run_proc(u, ['--seed', str(seed), '--family', fam, '--case', str(icase), '--out', p2,
                                      '--dir', u['_dir']] + (['--thorough'] if thorough else []), p2, 300)
            if 'VH-HANG' not in text2:
                inconc.append('case %s#%d timed out once and ended on the second run' % (fam, icase))
                crashed_fams[fam] += 1
                start = (fam, icase + 1)
                continue
        viols.append({'key': '%s/%s' % (fam, what), 'family': fam, 'case': icase, 'unit': u['name'],
                      'detail': text[-3500:]})
        crashed_fams[fam] += 1
        start = (fam, icase + 1)
    return viols, sums, sigs, inconc


def load_known(pid):
    known = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#'):
                continue
            d = json.loads(l)
            if d.get('status') == 'known' and d['property'] == pid:
                known.append(d)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid
    if pid not in CHECKS:
        die('unknown property ' + pid)
    spec = CHECKS[pid]
    thorough = a.tier == 'thorough'
    bdir = tempfile.mkdtemp(prefix='vfb_%s_' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    rdir = os.path.join(bdir, 'run')
    os.makedirs(rdir)
    try:
        for u in spec['units']:
            u.setdefault('name', 'main')
            u.setdefault('variant', 'asan')
        build(spec, bdir)
        t_build = time.time() - t0
        budget = spec.get('wall_thorough', 3000) if thorough else spec.get('wall_quick', 600)
        t_end = time.time() + budget
        tasks = []
        for u in spec['units']:
            if u.get('thorough_only') and not thorough:
                continue
            n = u.get('shards', NPROC)
            u['_env'] = dict(ENV)
            u['_env'].update(u.get('env', {}))
            u['_dir'] = os.path.join(rdir, 'scratch_' + u['name'])
            os.makedirs(u['_dir'], exist_ok=True)
            for k in range(n):
                tasks.append((u, k, n))
        viols, sums, sigs, inconc = [], [], set(), []
        with ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(run_shard, u, k, n, a.seed, thorough, rdir, budget, t_end) for u, k, n in tasks]
            for f in futs:
                v, s, g, i = f.result()
                viols += v
                sums += s
                for b in g:
                    sigs.update(struct.unpack('%dQ' % (len(b) // 8), b))
                inconc += i
        counts = collections.Counter()
        samples, evals = [], 0
        for s in sums:
            evals += s['evaluations']
            counts.update(s['counts'])
            samples += s['samples']
        seenf = collections.Counter()
        ss = []
        for x in samples:
            f = x.split('#')[0]
            if seenf[f] < 2:
                seenf[f] += 1
                ss.append(x)
        known = load_known(pid)
        unlisted, listed = [], collections.OrderedDict()
        for v in viols:
            hit = None
            for kf in known:
                if v['key'] == kf['key'] and ('match' not in kf or re.search(kf['match'], v['detail'])):
                    hit = kf
                    break
            if hit:
                listed.setdefault(hit['key'], (hit, v))
            else:
                unlisted.append(v)
        for key, (kf, v) in listed.items():
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kf['what'], key))
        ev = {
            'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': a.seed, 'level': spec['level'],
            'coverage': {
                'evaluations': evals,
                'distinct_nontrivial': len(sigs),
                'rule': spec['rule'],
                'samples': ss[:40],
                'observed': dict(sorted(counts.items())),
                'builds': ['%s: g++ %s' % (u['name'], ' '.join(VARIANTS[u['variant']])) for u in spec['units']],
                'known_findings_seen': list(listed.keys()),
                'inconclusive': inconc,
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(unlisted),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s tier=%s seed=%d: evaluations=%d distinct=%d monitor_checks=%d build=%.1fs wall=%.1fs' % (
            pid, ev['tier'], a.seed, evals, len(sigs), counts.get('monitor_checks', 0), t_build, time.time() - t0))
        if a.verbose:
            for k, v in sorted(counts.items()):
                print('   %s = %d' % (k, v))
            for s in ss:
                print('   ' + s)
        if unlisted:
            odir = os.path.join(VERIF, 'out')
            os.makedirs(odir, exist_ok=True)
            bykey = collections.OrderedDict()
            for v in unlisted:
                bykey.setdefault(v['key'], []).append(v)
            path = os.path.join(odir, 'replay_%s_seed%d_%s.json' % (pid, a.seed, ev['tier']))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': a.seed, 'tier': ev['tier'],
                           'how': 'tools/replay.sh %s <unit> <family> <case> <seed>' % pid,
                           'violations': {k: v[:5] for k, v in bykey.items()}}, f, indent=1)
            for k, v in bykey.items():
                print('VIOLATION-DETAIL %s (x%d) %s#%d: %s' % (k, len(v), v[0]['family'], v[0]['case'],
                                                             v[0]['detail'][:1500 if a.verbose else 300].replace('\n', ' | ')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            sys.stdout.flush()
            return 1
        if inconc:
            for i in inconc:
                print('INCONCLUSIVE: ' + i)
            if evals < spec.get('min_evaluations', 1):
                return 3
        if evals == 0 or counts.get('monitor_checks', 0) == 0 or len(sigs) == 0:
            print('CHECK-ERROR: the monitors observed nothing')
            return 3
        for name, least in spec.get('require', {}).items():
            if counts.get(name, 0) < least and not inconc:
                print('CHECK-ERROR: monitor %s observed only %d events (at least %d expected)' % (
                    name, counts.get(name, 0), least))
                return 3
        return 0
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print('kept ' + bdir)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception as e:  # no answer
        import traceback
        traceback.print_exc()
        print('CHECK-ERROR: %s' % e)
        sys.exit(2)
