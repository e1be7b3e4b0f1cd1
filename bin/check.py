#!/usr/bin/env python3
"""Contract checker for bsc-pm/dlb.

usage: check.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep]

Every run extracts the functions under contract from /repo's working tree,
compiles them together with the contracts in /verif/h, and has CBMC discharge
every obligation.  A refuted obligation is replayed natively against the same
code before it is reported.
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, concurrent.futures, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import jobs as J

NPROC = int(os.environ.get('VERIF_JOBS', '8'))

def sh(cmd, timeout=None, cwd=None, stdin=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, input=stdin)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return -999, e.stdout or b'', e.stderr or b'', time.time() - t

# ---------------------------------------------------------------- extraction
def rule_flex(n):
    return (re.compile(r'(\b\w+\s*)\[\s*\]\s*;'), r'\1[%s];' % n)
def rule_flexptr(n):
    return (re.compile(r'(\b\w+\s+)(%s)\s*\[\s*\]\s*;' % n), r'\1*\2;')
# for (int c = mu_get_first_cpu(M); c >= 0 && G; c = mu_get_next_cpu(M, c)) {   visits the set bits of M in
# increasing order; rewritten to visit every index and skip the clear ones (same visits, same order, same G).
def rule_maskloop():
    return (re.compile(r'for\s*\(\s*int\s+(\w+)\s*=\s*mu_get_first_cpu\(([^();]+)\)\s*;\s*\1\s*>=\s*0\s*((?:&&[^;]*)?);\s*\1\s*=\s*mu_get_next_cpu\(\2\s*,\s*\1\)\s*\)\s*\{'),
            r'for (int \1 = 0; \1 < MASKLIM \3; ++\1) if (CPU_ISSET(\1, \2)) {')
def rule_queue(old, new):
    return (re.compile(r'(#\s*define\s+QUEUE_SIZE\s+)%s\b' % old), r'\g<1>%s' % new)
def rule_token(old, new):
    return (re.compile(r'\b%s\b' % re.escape(old)), new)

def extract(job, bdir):
    """Copy the sources named by the job, textually unchanged except for the job's rules."""
    notes = []
    xd = os.path.join(bdir, 'x')
    os.makedirs(xd, exist_ok=True)
    for rel, rules in job.extract:
        src = os.path.join(REPO, 'src', rel)
        text = open(src, encoding='utf-8', errors='surrogateescape').read()
        for kind, *a in rules:
            if kind == 'flex':
                rx, rep = rule_flex(*a)
            elif kind == 'maskloop':
                rx, rep = rule_maskloop()
            elif kind == 'flexptr':
                rx, rep = rule_flexptr(*a)
            elif kind == 'queue':
                rx, rep = rule_queue(*a)
            elif kind == 'token':
                rx, rep = rule_token(*a)
            elif kind == 'sub':
                rx, rep = re.compile(a[0], re.S | re.M), a[1]
            text, n = rx.subn(rep, text)
            notes.append('%s: rule %s %s applied %d time(s)' % (rel, kind, a, n))
        out = os.path.join(xd, os.path.basename(rel)) if not rel.endswith('.in') else os.path.join(xd, rel[:-3])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write('#line 1 "%s"\n' % src)
            f.write(text)
    return notes

def defines(job):
    d = []
    for k, v in job.defs.items():
        d.append('-D%s' % k if v is None else '-D%s=%s' % (k, v))
    return d

def incs(job, bdir):
    return (['-I' + os.path.join(VERIF, 'lib', 'smallset')] if job.smallset else []) + ['-I' + (os.path.join(REPO, i[6:]) if i.startswith('/repo/') else os.path.join(VERIF, i)) for i in job.inc] + ['-I' + os.path.join(bdir, 'x'), '-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'h'),
            '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'lib', 'gen')]

class Err(Exception):
    pass

def sources(job):
    return [os.path.join(VERIF, s) if not s.startswith('/repo/') else os.path.join(REPO, s[6:]) for s in job.src]

def build_goto(job, bdir):
    objs = []
    for i, s in enumerate(sources(job)):
        o = os.path.join(bdir, 'o%d.gb' % i)
        rc, so, se, _ = sh(['goto-cc', '-DVERIF_CBMC', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE'] + defines(job) + incs(job, bdir) + ['-c', s, '-o', o], 120)
        if rc != 0:
            raise Err('goto-cc %s: %s' % (s, se.decode(errors='replace')[-1500:]))
        objs.append(o)
    gb = os.path.join(bdir, 'all.gb')
    rc, so, se, _ = sh(['goto-cc'] + objs + ['-o', gb], 120)
    if rc != 0:
        raise Err('goto-cc link: ' + se.decode(errors='replace')[-1500:])
    if job.dfcc:
        gb2 = os.path.join(bdir, 'all2.gb')
        cmd = ['goto-instrument', '--dfcc', 'main']
        for f in job.dfcc:
            cmd += ['--enforce-contract', f]
        for f in job.replace:
            cmd += ['--replace-call-with-contract', f]
        if job.loop_contracts:
            cmd += ['--apply-loop-contracts']
        rc, so, se, _ = sh(cmd + [gb, gb2], 300)
        if rc != 0:
            raise Err('goto-instrument: ' + (so + se).decode(errors='replace')[-1500:])
        gb = gb2
    return gb

def cbmc_cmd(job, gb, unwind, trace=False):
    c = ['cbmc', gb, '--json-ui', '--unwind', str(unwind), '--unwinding-assertions',
         '--max-field-sensitivity-array-size', str(job.fs), '--object-bits', str(job.object_bits), '--verbosity', '8', '--no-malloc-may-fail']
    if job.slice and not trace:
        c.append('--slice-formula')
    c += job.opts
    if job.hloops:
        c += ['--unwindset', ','.join('%s:%d' % (l, job.hunwind) for l in job.hloops)]
    if job.solver:
        c.append('--' + job.solver)
    return c

def harness_loops(gb):
    rc, so, se, _ = sh(['cbmc', gb, '--show-loops', '--json-ui'], 120)
    out = []
    try:
        for d in json.loads(so.decode(errors='replace')):
            for l in d.get('loops', []):
                f = l.get('sourceLocation', {}).get('file', '')
                f = os.path.join(l.get('sourceLocation', {}).get('workingDirectory', ''), f)
                if f.startswith(VERIF + '/h/') or f.startswith(VERIF + '/lib/'):
                    out.append(l['name'])
    except Exception:
        pass
    return out

def parse_results(out):
    try:
        data = json.loads(out.decode(errors='replace'))
    except Exception:
        return None, None, 'unparsable cbmc output: ' + out[-800:].decode(errors='replace')
    res = None
    msgs = []
    for d in data:
        if 'result' in d:
            res = d['result']
        if d.get('messageType') in ('ERROR',):
            msgs.append(d.get('messageText', ''))
    txt = '\n'.join(d.get('messageText', '') for d in data if 'messageText' in d)
    st = sum(float(x) for x in re.findall(r'Runtime Solver: ([\d.e+-]+)s', txt))
    return res, st, ' '.join(msgs)

def trace_values(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'assignment' and s.get('lhs', '').startswith('nd_rec_') and s.get('sourceLocation', {}).get('function', '').startswith('nd_'):
            v = s['value']
            if v.get('name') == 'float' or (v.get('type', '') in ('double', 'float')):
                b = v.get('binary')
                vals.append('f%x' % int(b, 2))
            else:
                b = v.get('binary')
                if b is None:
                    vals.append(str(int(float(v.get('data', '0')))))
                else:
                    n = int(b, 2)
                    t = v.get('type', '')
                    if not ('unsigned' in t) and len(b) > 0 and b[0] == '1' and len(b) > 1:
                        n -= 1 << len(b)
                    vals.append(str(n))
    return vals

def build_native(job, bdir):
    exe = os.path.join(bdir, 'replay')
    cmd = ['gcc', '-g', '-O0', '-w', '-fno-builtin', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
           '-DVERIF_REPLAY', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE'] + defines(job) + incs(job, bdir) + sources(job) + \
          [os.path.join(VERIF, 'lib', 'replay.c'), '-o', exe, '-lm', '-lpthread', '-ldl']
    rc, so, se, _ = sh(cmd, 120)
    if rc != 0:
        return None, se.decode(errors='replace')[-1500:]
    return exe, ' '.join(cmd)

def run_native(exe, vals, bdir):
    f = os.path.join(bdir, 'replay.in')
    with open(f, 'w') as fh:
        fh.write('\n'.join(vals) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=5:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=5:print_stacktrace=1')
    try:
        p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, cwd=bdir, env=env)
        return p.returncode, p.stdout.decode(errors='replace')[-3000:]
    except subprocess.TimeoutExpired:
        return 'timeout', 'replay did not terminate in 20 s'

def is_cover(r):
    return 'COVER: ' in r.get('description', '')
def is_prop(r):
    return r.get('description', '').startswith('P: ') or 'contract' in r['property'] or 'postcondition' in r['property'] or 'assigns' in r['property'] or 'precondition' in r['property'] and 'verif' in r['property']
def is_unwind(r):
    return '.unwind' in r['property'] or 'recursion' in r['property']

def run_job(job, bdir, tier):
    os.makedirs(bdir, exist_ok=True)
    R = dict(job=job.name, kind=job.kind, bound=job.bound, functions=job.functions, status='ok', obligations=0, discharged=0,
             covers=0, solver_s=0.0, wall_s=0.0, violations=[], notes=[], failed=[])
    t0 = time.time()
    try:
        R['notes'] += extract(job, bdir)
        gb = build_goto(job, bdir)
    except FileNotFoundError as e:
        R['status'] = 'error'; R['notes'].append(str(e)); return R
    except Err as e:
        R['status'] = 'error'; R['notes'].append(str(e)); return R
    job.hloops = harness_loops(gb) if job.hunwind else []
    unwind = job.unwind
    unw_fail = False
    for attempt in range(3):
        cmd = cbmc_cmd(job, gb, unwind)
        rc, so, se, dt = sh(cmd, job.timeout)
        R['cmd'] = ' '.join(cmd).replace(bdir, '$BUILD')
        if rc == -999:
            R['status'] = 'timeout'; R['notes'].append('cbmc exceeded %d s' % job.timeout)
            R['wall_s'] = time.time() - t0
            return R
        res, st, msg = parse_results(so)
        if res is None:
            R['status'] = 'error'; R['notes'].append('cbmc: ' + (msg or '') + se.decode(errors='replace')[-500:])
            R['wall_s'] = time.time() - t0
            return R
        R['solver_s'] += st
        unw = [r for r in res if is_unwind(r) and r['status'] == 'FAILURE']
        others = [r for r in res if not is_unwind(r) and not is_cover(r) and r['status'] == 'FAILURE' and 'no-body' not in r['property']]
        if unw and not others and attempt < 2:
            unwind *= 2
            R['notes'].append('unwinding assertion failed at %s; retrying with --unwind %d' % (unw[0]['property'], unwind))
            continue
        unw_fail = bool(unw)
        break
    if job.only: res = [r for r in res if not r.get('description', '').startswith('P: ') or re.search(job.only, r['description'])]
    if job.skip: res = [r for r in res if not r.get('description', '').startswith('P: ') or not re.search(job.skip, r['description'])]
    obl = [r for r in res if not is_cover(r)]
    cov = [r for r in res if is_cover(r)]
    R['obligations'] = len(obl)
    R['discharged'] = sum(1 for r in obl if r['status'] == 'SUCCESS')
    R['covers'] = len(cov)
    unreached = [r for r in cov if r['status'] != 'FAILURE']
    failed = [r for r in obl if r['status'] == 'FAILURE']
    nobody = [r for r in failed if 'no-body' in r['property']]
    if nobody:
        R['notes'].append('no body (treated as arbitrary): ' + ', '.join(r['property'] for r in nobody))
    failed = [r for r in failed if r not in nobody]
    if unw_fail and not [r for r in failed if not is_unwind(r)]:
        # undecided beyond the bound, unless the real code does not terminate either
        R['notes'].append('loop bound exceeded: ' + ', '.join(r['property'] for r in failed))
        R['status'] = 'bound-exceeded'
    props = [r for r in failed if is_prop(r)]
    aux = [r for r in failed if not is_prop(r) and not is_unwind(r)]
    unw = [r for r in failed if is_unwind(r)]
    R['failed'] = ['%s: %s (%s:%s)' % (r['property'], r.get('description'), r.get('sourceLocation', {}).get('function'), r.get('sourceLocation', {}).get('line')) for r in props + aux + unw]
    confirmed = None
    exe = None
    attempts = []
    if props or aux or unw:
        exe, ncmd = build_native(job, bdir)
        if exe is None:
            R['notes'].append('native build failed: ' + ncmd)
        cand = props[:3] + aux[:2] + unw[:1]
        for r in cand:
            cmd = cbmc_cmd(job, gb, unwind, True) + ['--trace', '--property', r['property']]
            rc, so, se, dt = sh(cmd, job.timeout)
            res2, st2, msg2 = parse_results(so)
            tr = None
            for x in res2 or []:
                if x['property'] == r['property'] and x['status'] == 'FAILURE':
                    tr = x.get('trace')
            if tr is None:
                attempts.append(dict(obligation=r['property'], description=r.get('description'), replay='no trace'))
                continue
            vals = trace_values(tr)
            a = dict(obligation=r['property'], description=r.get('description'), location=r.get('sourceLocation'), inputs=vals)
            if exe:
                code, log = run_native(exe, vals, bdir)
                a['replay_exit'] = code; a['replay_log'] = log
                ok = (code == 4) or (code == 'timeout') or (isinstance(code, int) and (code < 0 or code == 5) )
                if r in aux and code == 4:
                    ok = True
                if ok:
                    confirmed = a
            attempts.append(a)
            if confirmed:
                break
    if props or aux:
        R['violations'].append(dict(confirmed=bool(confirmed), first=(props + aux)[0]['property'],
                                    description=(confirmed or attempts[0]).get('description') if attempts else (props + aux)[0].get('description'),
                                    attempts=attempts, native_cmd=ncmd if exe else None))
    elif unw and confirmed:
        R['violations'].append(dict(confirmed=True, first=unw[0]['property'], description='non-termination', attempts=attempts, native_cmd=ncmd))
    if unreached and not R['violations']:
        R['violations'].append(dict(confirmed=False, first=unreached[0]['property'],
                                    description='vacuous: ' + unreached[0]['description'] + ' is no longer reachable', attempts=[], native_cmd=None))
    if R['obligations'] == 0:
        R['status'] = 'error'; R['notes'].append('no obligations generated')
    if job.covers_min and len(cov) < job.covers_min:
        R['status'] = 'error'; R['notes'].append('cover points missing')
    R['wall_s'] = time.time() - t0
    return R

def scan_assumes(job):
    out = []
    for s in sources(job):
        if s.startswith(REPO): continue
        try:
            for i, l in enumerate(open(s, errors='replace'), 1):
                if 'ASSUME(' in l and '#define' not in l:
                    out.append('%s:%d: %s' % (os.path.relpath(s, VERIF), i, l.strip()[:160]))
        except OSError:
            pass
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = J.PROPS[a.prop]
    js = [j for j in prop.jobs if (a.tier == 'thorough' or j.tier == 'quick') and (not a.job or re.search(a.job, j.name))]
    js.sort(key=lambda j: -j.weight)
    base = os.path.join(VERIF, '.build')
    os.makedirs(base, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=a.prop + '-', dir=base)
    known = load_known(a.prop)
    results = []
    try:
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(run_job, j, os.path.join(bdir, j.name), a.tier): j for j in js}
            for f in concurrent.futures.as_completed(futs):
                r = f.result(); results.append(r)
                if a.v or r['status'] != 'ok' or r['violations']:
                    print('[%s] %-40s %s obligations=%d discharged=%d covers=%d %.1fs (solver %.1fs) %s' % (a.prop, r['job'], r['status'], r['obligations'], r['discharged'], r['covers'], r['wall_s'], r['solver_s'], '; '.join(r['failed'][:4])), flush=True)
                if r['status'] in ('error', 'timeout', 'bound-exceeded'):
                    print('   ' + '\n   '.join(r['notes'][-2:]), flush=True)
        code = finish(a, prop, js, results, known, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(code)

def load_known(p):
    f = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == p and d.get('status') == 'known':
                    out.append(d)
    return out

def finish(a, prop, js, results, known, t0):
    results.sort(key=lambda r: r['job'])
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    lines = []
    for r in results:
        for v in r['violations']:
            k = [d for d in known if d.get('job') == r['job'] and d.get('obligation_text') and all(d['obligation_text'] in x for x in r['failed'])]
            if k:
                lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, k[0]['what']))
                continue
            nviol += 1
            path = os.path.join(rdir, '%s-%s.json' % (a.prop, r['job']))
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, job=r['job'], failed_obligations=r['failed'], verifier_cmd=r.get('cmd'), **v), f, indent=1)
            suffix = '' if v['confirmed'] else ' no-failing-input-found'
            print('   refuted obligation %s: %s' % (v['first'], v['description']))
            lines.append('VIOLATION property=%s replay=%s%s' % (a.prop, path, suffix))
    # an obligation that could not be generated or decided on this tree is an obligation that is not discharged
    for r in results:
        if r['status'] in ('error', 'timeout', 'bound-exceeded') and not r['violations']:
            nviol += 1
            path = os.path.join(rdir, '%s-%s.json' % (a.prop, r['job']))
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, job=r['job'], status=r['status'], failed_obligations=r['failed'] or ['all obligations of this group: ' + r['status']], verifier_cmd=r.get('cmd'), verifier_output=r['notes']), f, indent=1)
            print('   undischarged obligations of %s: %s' % (r['job'], r['status']))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, path))
    for d in known:
        if d.get('always_print') and not any(d['what'] in l for l in lines):
            pass
    proved = [r for r in results if r['kind'] == 'proved']
    bounded = [r for r in results if r['kind'] != 'proved']
    undecided = [r for r in results if r['status'] != 'ok']
    amap = {}
    for j in js:
        for s in scan_assumes(j):
            amap[s] = 1
    def fl(rs):
        out = []
        for r in rs:
            out += r['functions']
        return sorted(set(out))
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=prop.level,
              coverage=dict(
                  obligations=sum(r['obligations'] for r in proved), discharged=sum(r['discharged'] for r in proved),
                  checker_cmd='cbmc 6.11.0 (SAT back end: minisat2 unless the job names another); one command per job below',
                  trusted_base=prop.trusted,
                  functions_under_contract_proved=fl(proved),
                  functions_under_contract_bounded=fl(bounded),
                  bounded_obligations=sum(r['obligations'] for r in bounded), bounded_discharged=sum(r['discharged'] for r in bounded),
                  bounds=sorted(set(r['bound'] for r in bounded if r['bound'])),
                  cover_points_reached=sum(r['covers'] for r in results),
                  solver_seconds=round(sum(r['solver_s'] for r in results), 2),
                  explanation=prop.explanation,
                  undecided=['%s: %s %s' % (r['job'], r['status'], (r['notes'] or [''])[-1][:300]) for r in undecided],
                  jobs=[dict(name=r['job'], kind=r['kind'], bound=r['bound'], functions=r['functions'], status=r['status'], obligations=r['obligations'],
                             discharged=r['discharged'], covers=r['covers'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2),
                             cmd=r.get('cmd'), notes=r['notes']) for r in results]),
              assumptions=prop.assumptions + ['scanned: ' + s for s in sorted(amap)],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    evp = os.path.join(VERIF, 'evidence', a.prop + '.json')
    if not a.job:
        with open(evp, 'w') as f:
            json.dump(ev, f, indent=1)
    if len(lines) > 12:
        lines = [l for l in lines if not l.endswith('no-failing-input-found')][:12] or lines[:12]
    for l in lines:
        print(l)
    ok = sum(1 for r in results if r['status'] == 'ok')
    print('%s: %d jobs, %d decided, %d obligations, %d discharged, %d violations, %.1f s' % (a.prop, len(results), ok, sum(r['obligations'] for r in results), sum(r['discharged'] for r in results), nviol, time.time() - t0))
    return 1 if nviol else 0

if __name__ == '__main__':
    main()
