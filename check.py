#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo by symbolic execution of its compiled code (see DESIGN.md).
Exit 0: held on everything explored. Exit 1: VIOLATION. Anything else: the check gave no answer.
"""
import collections, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
T = os.path.join(V, 'target')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
           RUSTFLAGS='-A bindings_with_variant_name -A warnings')
for k in ('CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)
sys.path.insert(0, V)
import props  # noqa: E402


# Functions and methods written in the crate under check.
OWN = re.compile(r'^(<protofish::(decode|context)::[\w:]+>|<.* as protofish::decode::\w+>|protofish::(decode|context)(::[a-z]\w*)*)::[a-z]\w*$')


class NoAnswer(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)
    if r.returncode:
        raise NoAnswer('%s failed:\n%s' % (' '.join(map(str, cmd))[:200], (r.stdout + r.stderr)[-3000:]))
    return r.stdout


# ---------------------------------------------------------------- building

def build_engine():
    run(['cargo', 'build', '--release', '--offline', '-q'], cwd=V + '/engine', env=dict(ENV, CARGO_TARGET_DIR=T + '/engine'))
    return T + '/engine/release/symx'


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    out = r.stdout.split('\n') if r.returncode == 0 else names
    return {n: re.sub(r'::h[0-9a-f]{16}$|\[[0-9a-f]{10,16}\]', '', d) for n, d in zip(names, out)}


def build_ir(variant='debug'):
    """Compiles /repo with the harnesses; returns (IR file, native executable, demangled names).

    The variant 'release' is without debug assertions and overflow checks."""
    d = T + ('/harness' if variant == 'debug' else '/harness-' + variant)
    config = [] if variant == 'debug' else ['--config', 'profile.dev.debug-assertions=false', '--config', 'profile.dev.overflow-checks=false']
    lock = V + '/harness/Cargo.lock'
    before = open(lock).read()
    for f in glob.glob(d + '/debug/deps/harness-*'):
        os.unlink(f)
    try:
        run(['cargo', 'rustc', '-q', '--offline', '--bin', 'harness'] + config + ['--', '--emit=llvm-ir,link'],
            cwd=V + '/harness', env=dict(ENV, CARGO_TARGET_DIR=d))
    finally:
        if open(lock).read() != before:
            open(lock, 'w').write(before)
    ll = glob.glob(d + '/debug/deps/harness-*.ll')
    if len(ll) != 1:
        raise NoAnswer('expected one .ll file, found %s' % ll)
    names = []
    with open(ll[0]) as f:
        for line in f:
            if line.startswith('define'):
                m = re.search(r'@"?([^"( ]+)"?\(', line)
                if m:
                    names.append(m.group(1))
    dm = demangle(names)
    # Function boundaries of the crate under check are kept, so that the evidence can name them.
    keep = [n for n in names if 'hash_one' in n or OWN.match(dm[n])]
    sysroot = run(['rustc', '--print', 'sysroot'], env=ENV).strip()
    opt = glob.glob(sysroot + '/lib/rustlib/*/bin/opt')
    if not opt:
        raise NoAnswer('no opt in the toolchain')
    s = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)'
    out = T + '/h-%s.ll' % variant
    run([opt[0], '-S', '-strip-debug'] + ['-force-attribute=%s:noinline' % n for n in keep] +
        ['-passes=forceattrs,globaldce,%s,cgscc(inline),globaldce,%s' % (s, s), ll[0], '-o', out])
    return out, d + '/debug/harness', dm


# ---------------------------------------------------------------- native replay

def native(exe, job, hexin, timeout=60, env=None):
    """Runs one input on the compiled code. Returns (outcome, emitted values)."""
    try:
        r = subprocess.run([exe, job.name, str(job.param), hexin], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', timeout=timeout, env=env,
                           preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (8 << 30, 8 << 30)))
    except subprocess.TimeoutExpired:
        return 'hang', []
    em = [l[2:] for l in r.stdout.split('\n') if l.startswith('E ')]
    m = re.search(r'^ASSERT (\d+)', r.stdout, re.M)
    if m:
        return 'assert ' + m.group(1), em
    if re.search(r'^ASSUME', r.stdout, re.M):
        return 'assume', em
    if r.returncode == 0 and re.search(r'^OK', r.stdout, re.M):
        return 'ok', em
    if 'overflowed its stack' in r.stderr:
        return 'stack overflow', em
    if 'panicked at' in r.stderr:
        return 'panic ' + ' '.join(r.stderr.split('panicked at', 1)[1].split())[:200], em
    return 'crash %d %s' % (r.returncode, r.stderr[-200:].strip()), em


def memcheck(exe, job, hexin):
    """Runs one input under valgrind: an access that does no harm by itself is still an error."""
    try:
        r = subprocess.run(['valgrind', '-q', '--error-exitcode=66', exe, job.name, str(job.param), hexin],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
    except (subprocess.TimeoutExpired, OSError):
        return None
    return 'memory error ' + ' '.join(r.stderr.split())[:200] if r.returncode == 66 else None


class Job:
    def __init__(self, spec, variant='debug'):
        self.spec = spec
        self.variant = variant
        self.exe = None
        self.name, _, ps = spec.partition(':')
        self.args = [int(x) for x in ps.split(',')] if ps else []
        self.param = sum(v * 1000 ** i for i, v in enumerate(self.args))


def main():
    t0 = time.time()
    if sys.argv[1] == '--setup':
        os.makedirs(T, exist_ok=True)
        build_engine()
        for v in ('debug', 'release'):
            build_ir(v)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    jobs = [Job(x) for x in P['quick'] + (P.get('thorough', []) if tier == 'thorough' else [])]
    # Also without debug assertions and overflow checks: a sample of the jobs, or all of the quick ones.
    step = 1 if tier == 'thorough' else 8
    jobs += [Job(x, 'release') for x in P['quick'][seed % step::step]]
    os.makedirs(T, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    ev_path = V + '/evidence/%s.json' % pid
    if os.path.exists(ev_path):
        os.unlink(ev_path)

    with concurrent.futures.ThreadPoolExecutor() as ex:
        fe = ex.submit(build_engine)
        fi = {v: ex.submit(build_ir, v) for v in ('debug', 'release')}
        symx, built = fe.result(), {v: f.result() for v, f in fi.items()}
    dm = {}
    for v in built:
        dm.update(built[v][2])
    for j in jobs:
        j.exe = built[j.variant][1]
    t_build = time.time() - t0

    out = T + '/out-' + pid
    shutil.rmtree(out, ignore_errors=True)
    deadline = 420 if tier == 'quick' else P.get('thorough_s', 780) - int(t_build)
    t1 = time.time()
    results = []
    for v in ('debug', 'release'):
        todo = [k for k, j in enumerate(jobs) if j.variant == v]
        o = out + '/' + v
        os.makedirs(o)
        with open(o + '/jobs', 'w') as f:
            f.write(''.join('%s %d\n' % (jobs[k].name, jobs[k].param) for k in todo))
        left = deadline - (time.time() - t1) - (60 if v == 'debug' and tier == 'thorough' else 0)
        run([symx, built[v][0], o + '/jobs', o, '--procs', str(min(16, os.cpu_count() or 4)), '--deadline', str(max(20, int(left))),
             '--samples', '3', '--z3-timeout', '20000'])
        results += [(todo[int(os.path.basename(f)[1:].split('.')[0])], f) for f in glob.glob(o + '/r*.json')]
    t_sym = time.time() - t1

    # ---- collect
    tot = collections.Counter()
    per = [dict(c=collections.Counter(), covers=collections.Counter(), viol=[], err=[], unsup=[], samples=[], to=False) for _ in jobs]
    funcs = set()
    NUM = ('paths', 'infeasible', 'decisions', 'forks', 'steps', 'asserts_folded', 'asserts_solved', 'domain_decisions',
           'cache_hits', 'z3_queries', 'z3_sat', 'z3_unsat', 'z3_unknown', 'z3_s')
    maxes = collections.Counter()
    for k, f in results:
        d = json.load(open(f))
        e = per[k]
        for k in NUM:
            e['c'][k] += d.get(k, 0)
            tot[k] += d.get(k, 0)
        for k in ('max_depth', 'max_path_steps', 'max_sym'):
            maxes[k] = max(maxes[k], d.get(k, 0))
        e['covers'].update({k: v for k, v in d.get('covers', {}).items()})
        e['viol'] += d.get('violations', [])
        # What ends an exploration early leaves the job incomplete; an inconsistency is a problem.
        e['err'] += [x for x in d['errors'] if x.startswith('internal')]
        e['unsup'] += [dict(msg=x, input='') for x in d['errors'] if not x.startswith('internal')] + d.get('unsupported', [])
        e['samples'] += d.get('samples', [])
        e['to'] |= d.get('timed_out', True)
        funcs |= set(d.get('funcs', []))
    shutil.rmtree(out, ignore_errors=True)

    # ---- known findings: confirmed natively, by their exact input
    findings = [k for k in json.load(open(V + '/known_findings.json')) if k['property'] == pid and k['status'] == 'open']
    lines, problems = [], []
    for k in findings:
        got, _ = native(built['debug'][1], Job(k['job']), k['input'], timeout=120)
        if got.split()[0] == k['outcome'].split()[0]:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            lines.append('NOTE: known finding no longer reproduces (%s): %s' % (got, k['what']))

    # ---- violations: replayed on the compiled code
    violations, seen, unconfirmed = [], collections.Counter(), set()
    for j, e in zip(jobs, per):
        for v in sorted(e['viol'], key=lambda v: (len(v['input']), v['input'])):
            sig = (j.name, v['kind'], v['msg'][:60])
            seen[sig] += 1
            if seen[sig] > 3 or len(violations) >= 20:
                continue
            cost = pid == 'C24' and v['kind'] == 'assert'  # measured on larger inputs
            for _ in range(5 if cost else 16):  # what depends on the order of hash maps fails in some of the runs
                got, _ = native(j.exe, j, v['input'], env=dict(os.environ, VERIF_COST='1') if cost else None)
                if got not in ('ok', 'assume'):
                    break
            if got in ('ok', 'assume') and v['kind'] == 'memory':
                got = memcheck(j.exe, j, v['input']) or got
            if any(k['job'] == j.spec and k['input'] == v['input'] for k in findings):
                continue
            if got in ('ok', 'assume') and cost:
                # The instructions executed grow faster than allowed, the time measured does not.
                lines.append('NOTE: %s: cost assertion (%s) on input %s is not confirmed by measurement' % (j.spec, v['msg'][:80], v['input']))
                unconfirmed.add(j.spec)
            elif got in ('ok', 'assume'):
                problems.append('%s: symbolic %s (%s) on input %s does not reproduce: %s' % (j.spec, v['kind'], v['msg'][:80], v['input'], got))
            else:
                violations.append(dict(job=j.spec, input=v['input'], symbolic='%s %s' % (v['kind'], v['msg'][:300]), native=got,
                                       reproduce='%s%s %s %d %s' % ('VERIF_COST=1 ' if cost else '', j.exe, j.name, j.param, v['input'])))


    # ---- paths that could not be followed to their end: their inputs are at least run
    unsupported = collections.Counter()
    for j, e in zip(jobs, per):
        for u in e['unsup']:
            unsupported[u['msg']] += 1
        for u in e['unsup'][:8]:
            got, _ = native(j.exe, j, u['input'])
            if got not in ('ok', 'assume') and not any(k['job'] == j.spec and k['input'] == u['input'] for k in findings) and len(violations) < 20:
                violations.append(dict(job=j.spec, input=u['input'], symbolic='not followed: %s' % u['msg'][:300], native=got,
                                       reproduce='%s %s %d %s' % (j.exe, j.name, j.param, u['input'])))

    # ---- cross-validation: sampled paths give the same observable values natively
    validated = 0
    shown = []
    for j, e in zip(jobs, per):
        for s in e['samples'][:12]:
            got, em = native(j.exe, j, s['input'])
            if got != 'ok' or em != [x for x in s['emits']]:
                problems.append('%s: path with input %s: native run gives %s %s, symbolic %s' % (j.spec, s['input'], got, em[:8], s['emits'][:8]))
            else:
                validated += 1
                if len(shown) < 12 and len(s['input']) > 4 and (not shown or shown[-1]['job'] != j.spec):
                    shown.append(dict(job=j.spec, input=s['input'], observed=s['emits'][:12]))

    # ---- completeness and vacuity
    incomplete = []
    for j, e in zip(jobs, per):
        if e['err']:
            problems.append('%s: %s' % (j.spec, e['err'][0]))
        if e['to'] or e['c']['z3_unknown'] or e['unsup'] or j.spec in unconfirmed:
            incomplete.append(j.spec)
        if not e['c']['paths'] and not e['viol'] and not e['to'] and not e['unsup']:
            problems.append('%s: no path was explored' % j.spec)
        if not e['covers'] and not e['viol'] and not e['to'] and not e['unsup']:
            problems.append('%s: never reached its assertions' % j.spec)
    if 2 * sum(1 for e in per if not e['c']['paths'] and e['unsup']) > len(jobs):
        problems.append('most jobs could not be explored at all')

    fn = sorted({dm.get(f, f) for f in funcs if re.search(r'^<?protofish::|<.* as protofish::', dm.get(f, f))})
    cov = {
        'states': int(tot['paths']),
        'transitions': int(tot['decisions']),
        'traces_validated_against_impl': validated,
        'samples': shown or [dict(job=j.spec) for j in jobs[:3]],
        'exhaustive': not incomplete and not problems,
        'explanation': 'states: feasible paths of the compiled code explored to their end; transitions: branch decisions taken '
                       'on symbolic conditions along them; traces_validated: paths whose model was run on the native '
                       'executable with identical observed values.',
        'bounds': P['bounds'],
        'jobs': [dict(job=j.spec, build=j.variant, paths=e['c']['paths'], steps=e['c']['steps'], asserts=e['c']['asserts_folded'] + e['c']['asserts_solved'],
                      covers=dict(e['covers'])) for j, e in zip(jobs, per)],
        'functions_encoded': len(funcs),
        'protofish_functions': fn,
        'instructions_executed': int(tot['steps']),
        'asserts_decided_by_rewriting': int(tot['asserts_folded']),
        'asserts_decided_by_solver': int(tot['asserts_solved']),
        'branches_decided_by_byte_domains': int(tot['domain_decisions']),
        'solver': 'z3 ' + run(['z3', '--version']).split()[2],
        'solver_queries': int(tot['z3_queries']),
        'solver_unsat': int(tot['z3_unsat']),
        'solver_sat': int(tot['z3_sat']),
        'solver_unknown': int(tot['z3_unknown']),
        'solver_s': round(tot['z3_s'], 2),
        'infeasible_paths': int(tot['infeasible']),
        'max_symbolic_bytes': maxes['max_sym'],
        'max_branch_depth': maxes['max_depth'],
        'max_path_instructions': maxes['max_path_steps'],
        'incomplete_jobs': incomplete,
        'unsupported': dict(unsupported.most_common(20)),
        'problems': problems[:20],
        'build_s': round(t_build, 1),
        'exploration_s': round(t_sym, 1),
        'known_findings': [k['what'] for k in findings],
    }
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=P.get('assumptions', []) + props.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(violations))
    tmp = ev_path + '.tmp'
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, ev_path)

    for l in lines:
        print(l)
    print('%s: %d jobs, %d paths, %d decisions, %d instructions, %d solver queries (%.1f s), %d native replays, build %.0f s, exploration %.0f s'
          % (pid, len(jobs), tot['paths'], tot['decisions'], tot['steps'], tot['z3_queries'], tot['z3_s'], validated, t_build, t_sym))
    if os.environ.get('SHOW'):
        for j, e in sorted(zip(jobs, per), key=lambda x: -x[1]['c']['steps'])[:int(os.environ['SHOW'])]:
            print('   %-28s paths %d steps %.1fM z3 %d (%.1f s)' % (j.spec, e['c']['paths'], e['c']['steps'] / 1e6, e['c']['z3_queries'], e['c']['z3_s']))
    if incomplete:
        print('INCOMPLETE (deadline, solver limit or unsupported code): ' + ' '.join(incomplete[:10]))
        for m, n in unsupported.most_common(5):
            print('UNSUPPORTED (%d paths): %s' % (n, m[:300]))
    if violations:
        for i, v in enumerate(violations):
            rp = V + '/evidence/%s.violation%d.json' % (pid, i)
            json.dump(v, open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s input=%s: %s | native: %s' % (v['job'], v['input'], v['symbolic'], v['native']))
        return 1
    if problems:
        for p in problems[:int(os.environ.get('SHOW', 20))]:
            print('PROBLEM: ' + p)
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        rc = 2
    sys.exit(rc)
