#!/usr/bin/env python3
"""Discharge the proof obligations of one property against /repo's current working tree.

usage: vp/run.py <property-id> [--tier quick|thorough] [--only JOB] [-v]

Every job compiles a harness in /verif/props together with the real sources of /repo (goto-cc),
optionally instruments function/loop contracts (goto-instrument --dfcc) and hands the program to
CBMC.  A job is discharged when every obligation is SUCCESS, every vacuity witness is reachable
and every loop was fully unwound (or is covered by a loop contract).
"""
import sys, os, json, subprocess, time, re, tempfile, shutil, importlib.util, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
NPROC = os.cpu_count() or 8

BASE_CHECKS = ['--bounds-check', '--pointer-check', '--div-by-zero-check']
CFLAGS = ['-std=c11', '-D_DEFAULT_SOURCE']


# Once this many violations were found (or reproduced) the remaining jobs are skipped: the check's
# answer is settled, and a failing run must stay within its time limit.
STOP_REPRODUCED, STOP_FOUND = 2, 6
T_START = time.time()
DEADLINE = float(os.environ.get('VP_DEADLINE', '0')) or None
_lock = threading.Lock()
_found = {'viol': 0, 'repro': 0}


def remaining():
    return 1e9 if DEADLINE is None else max(5.0, DEADLINE - (time.time() - T_START))


def settled():
    return _found['repro'] >= STOP_REPRODUCED or _found['viol'] >= STOP_FOUND or \
        (_found['viol'] >= 1 and DEADLINE is not None and time.time() - T_START > DEADLINE)


class Job:
    def __init__(self, name, harness, entry='harness', defs=(), incs=(), srcs=(), unwind=20,
                 unwindset=(), checks=None, solver=(), timeout=300, functions=(), bounded=None,
                 assumptions=(), enforce=None, replace=(), loops=False, tier='quick', known=None,
                 max_unwind=None, cbmc_args=(), native=True, weight=1, fallback=None, extra_files=(),
                 spec='', cdefs=(), annotate=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Res:
    def __init__(self, job):
        self.job = job
        self.status = 'error'      # ok | violation | error
        self.obligations = 0
        self.discharged = 0
        self.witnesses = 0
        self.failed = []           # obligation descriptions
        self.msg = ''
        self.wall = 0.0
        self.solver_s = 0.0
        self.cmd = ''
        self.replay = None
        self.reproduced = False
        self.backend = 'cbmc-sat'
        self.unwind = 0
        self.note = ''


def sh(cmd, timeout, cwd=None, env=None, mem_gb=12):
    def lim():
        import resource
        b = mem_gb << 30
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        os.setsid()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return None, '', 'timeout'


def repo_path(p):
    return p if os.path.isabs(p) else os.path.join(REPO, p)


def harness_path(job, moddir):
    return job.harness if os.path.isabs(job.harness) else os.path.join(moddir, job.harness)


def annotate_source(rel, clauses, wd):
    """Copy one source of /repo into wd/ann and put loop contracts behind its loop headers.

    clauses: list of (n, text): text is inserted behind the n-th for/while header (counted in the file).
    Nothing is dropped or changed; lines of the original stay as they are."""
    src = open(repo_path(rel)).read()
    blank = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'',
                   lambda m: re.sub(r'[^\n]', ' ', m.group(0)), src, flags=re.S)
    heads = [m.end() for m in re.finditer(r'\b(?:for|while)\s*(?=\()', blank)]
    ins = []
    for n, text in clauses:
        if n >= len(heads):
            raise RuntimeError('%s: loop %d not found' % (rel, n))
        i, depth = heads[n], 0
        while True:
            if i >= len(blank):
                raise RuntimeError('%s: loop %d not understood' % (rel, n))
            depth += {'(': 1, ')': -1}.get(blank[i], 0)
            i += 1
            if depth == 0:
                break
        ins.append((i, text))
    for i, text in sorted(ins, reverse=True):
        src = src[:i] + '\n' + text + '\n' + src[i:]
    out = os.path.join(wd, 'ann', rel)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out, 'w') as fp:
        fp.write(src)


def compile_goto(job, moddir, wd):
    gb = os.path.join(wd, 'a.gb')
    for rel, clauses in job.annotate:
        annotate_source(rel, clauses, wd)
    cmd = ['goto-cc'] + CFLAGS + ['-D__CPROVER_VP', '-I' + os.path.join(VERIF, 'vp', 'stubs'),
                                  '-I' + os.path.join(VERIF, 'vp'), '-I' + moddir]
    if job.annotate:
        cmd += ['-I' + os.path.join(wd, 'ann')]
    cmd += ['-I' + repo_path(i) for i in job.incs] + ['-D' + d for d in list(job.defs) + list(job.cdefs)]
    cmd += ['--function', job.entry, '-o', gb, harness_path(job, moddir)]
    cmd += [repo_path(s) for s in job.srcs]
    rc, out, err = sh(cmd, 120, cwd=wd)
    if rc != 0:
        raise RuntimeError('goto-cc failed: %s\n%s' % (' '.join(cmd), (out + err)[-3000:]))
    return gb


def instrument(job, gb, wd):
    if job.loops == 'simple':
        b = os.path.join(wd, 'b.gb')
        rc, out, err = sh(['goto-instrument', '--apply-loop-contracts', gb, b], 120, cwd=wd)
        if rc != 0:
            raise RuntimeError('goto-instrument failed:\n%s' % (out + err)[-3000:])
        return b
    cmd = ['goto-instrument', '--dfcc', job.entry]
    if job.enforce:
        cmd += ['--enforce-contract', job.enforce]
    for r in job.replace:
        cmd += ['--replace-call-with-contract', r]
    if job.loops:
        cmd += ['--apply-loop-contracts']
    b = os.path.join(wd, 'b.gb')
    cmd += [gb, b]
    rc, out, err = sh(cmd, 120, cwd=wd)
    if rc != 0:
        raise RuntimeError('goto-instrument failed: %s\n%s' % (' '.join(cmd), (out + err)[-3000:]))
    return b


def cbmc_cmd(job, gb, unwind):
    cmd = ['cbmc', gb, '--no-standard-checks', '--json-ui', '--unwind', str(unwind),
           '--unwinding-assertions', '--no-malloc-may-fail', '--drop-unused-functions']
    cmd += list(job.checks if job.checks is not None else BASE_CHECKS)
    for u in job.unwindset:
        cmd += ['--unwindset', u]
    cmd += list(job.solver) + list(job.cbmc_args)
    return cmd


def parse_cbmc(out):
    """-> (list of property dicts, list of messages)"""
    data = json.loads(out)
    props, msgs = None, []
    for el in data:
        if 'result' in el:
            props = el['result']
        if 'messageText' in el:
            msgs.append(el['messageText'])
    return props, msgs


def solver_time(msgs):
    t = 0.0
    for m in msgs:
        mm = re.search(r'Runtime (?:Solver|decision procedure): ([0-9.e+-]+)s', m, re.I)
        if mm and 'Solver' in m:
            t += float(mm.group(1))
    return t


def collect_inputs(trace):
    res = []
    for st in trace:
        if st.get('stepType') == 'input':
            vals = st.get('values') or []
            if not vals:
                continue
            v = vals[0]
            b = v.get('binary')
            if b is not None:
                n = int(b, 2)
            else:
                d = v.get('data', '0')
                if d in ('TRUE', 'true'):
                    n = 1
                elif d in ('FALSE', 'false'):
                    n = 0
                else:
                    try:
                        n = int(re.match(r'-?\d+', d).group(0)) & ((1 << 64) - 1)
                    except Exception:
                        n = 0
            res.append((st['inputID'], n))
    return res


def is_unwind(p):
    return '.unwind.' in p.get('property', '') or 'unwinding assertion' in p.get('description', '') \
        or 'recursion' in p.get('property', '')


def native_replay(job, moddir, wd, inputs, replay_dir):
    """Compile the same harness with gcc and run it on the counterexample."""
    exe = os.path.join(wd, 'native')
    inp = os.path.join(replay_dir, 'inputs.txt')
    with open(inp, 'w') as fp:
        for n, v in inputs:
            fp.write('%s %d\n' % (n, v))
    cmd = ['gcc', '-g', '-O0', '-w', '-DVP_NATIVE', '-fsanitize=address', '-no-pie', '-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'] + CFLAGS
    cmd += ['-I' + os.path.join(VERIF, 'vp', 'stubs'), '-I' + os.path.join(VERIF, 'vp'), '-I' + moddir]
    cmd += ['-I' + repo_path(i) for i in job.incs] + ['-D' + d for d in job.defs]
    cmd += ['-DVP_ENTRY=' + job.entry, '-o', exe, harness_path(job, moddir)] + [repo_path(s) for s in job.srcs] + ['-lm']
    rc, out, err = sh(cmd, 120, cwd=wd, mem_gb=1 << 20)
    if rc != 0:
        return False, 'native build failed:\n' + err[-2000:], cmd
    env = dict(os.environ, VP_INPUTS=inp, ASAN_OPTIONS='detect_leaks=0')
    rc, out, err = sh([exe], 20, cwd=wd, env=env, mem_gb=1 << 20)
    txt = 'native exit=%s\n%s%s' % (rc, out[-2000:], err[-3000:])
    if rc is None:
        return True, txt, cmd      # does not terminate on a valid input
    if rc == 3 or rc < 0 or (rc == 1 and 'AddressSanitizer' in err):
        return True, txt, cmd
    return False, txt, cmd


def run_job(pid, job, moddir, verbose):
    r = Res(job)
    t0 = time.time()
    if settled():
        r.status, r.msg = 'skipped', 'not run: violations already found'
        return r
    wd = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        _run_job(pid, job, moddir, wd, r)
    except RuntimeError as e:
        r.status, r.msg = 'error', str(e)
    except Exception as e:
        import traceback
        r.status, r.msg = 'error', traceback.format_exc()
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if r.status == 'violation' and not r.reproduced and job.fallback is not None:
        # The proof of the changed text failed without a counterexample: the bounded check decides.
        r.status, r.msg = 'error', 'proof obligation failed: ' + '; '.join(r.failed[:3])
    if r.status == 'error' and job.fallback is not None:
        note = 'fallback %s used because: %s' % (job.fallback.name, r.msg.splitlines()[0][:200] if r.msg else '?')
        r2 = run_job(pid, job.fallback, moddir, verbose)
        r2.note = note
        return r2
    r.wall = time.time() - t0
    if r.status == 'violation' and not job.known:
        with _lock:
            _found['viol'] += 1
            _found['repro'] += 1 if r.reproduced else 0
    if verbose or r.status != 'ok':
        sys.stderr.write('[%s] %-10s %-40s %d/%d wit=%d %.1fs %s\n' % (
            pid, r.status, job.name, r.discharged, r.obligations, r.witnesses, r.wall, r.failed[:6]))
        if r.status == 'error':
            sys.stderr.write(r.msg[-3000:] + '\n')
    return r


def _run_job(pid, job, moddir, wd, r):
    gb = compile_goto(job, moddir, wd)
    if job.enforce or job.replace or job.loops:
        gb = instrument(job, gb, wd)
    unwind = job.unwind
    maxu = job.max_unwind or unwind * 5
    while True:
        r.unwind = unwind
        cmd = cbmc_cmd(job, gb, unwind)
        r.cmd = ' '.join(cmd)
        if '--cvc5' in cmd:
            r.backend = 'cbmc-smt2-cvc5'
        elif '--z3' in cmd:
            r.backend = 'cbmc-smt2-z3'
        rc, out, err = sh(cmd, min(job.timeout, remaining()), cwd=wd)
        if rc is None:
            raise RuntimeError('cbmc timed out after %ds' % job.timeout)
        try:
            props, msgs = parse_cbmc(out)
        except Exception:
            raise RuntimeError('cbmc gave no result (rc=%s): %s %s' % (rc, out[-1500:], err[-1500:]))
        if props is None:
            raise RuntimeError('cbmc gave no result (rc=%s): %s' % (rc, '\n'.join(msgs[-8:])))
        for m in msgs:
            if 'no body for function' in m or 'no body for callee' in m:
                r.note += m + '; '
        r.solver_s += solver_time(msgs)
        wit = [p for p in props if p['description'].startswith('WITNESS')]
        obl = [p for p in props if not p['description'].startswith('WITNESS')]
        bad = [p for p in obl if p['status'] != 'SUCCESS']
        unw = [p for p in bad if is_unwind(p)]
        real = [p for p in bad if not is_unwind(p)]
        if unw and unwind < maxu:
            unwind = min(maxu, unwind * 2)
            continue
        break
    r.obligations = len(obl)
    r.discharged = len([p for p in obl if p['status'] == 'SUCCESS'])
    r.witnesses = len(wit)
    if unw and not real:
        raise RuntimeError('loops not fully unwound at %d: %s' % (unwind, [p['property'] for p in unw][:5]))
    if not real:
        if not obl:
            raise RuntimeError('no obligations generated')
        dead = [p for p in wit if p['status'] != 'FAILURE']
        if dead:
            # The postcondition was never reached: on the unchanged tree that is a broken harness;
            # on a changed one it means that no admissible input gets through the code any more.
            real = dead
        else:
            r.status = 'ok'
            return
    unknown = [p for p in real if p['status'] not in ('FAILURE', 'SUCCESS')]
    if unknown and len(unknown) == len(real):
        raise RuntimeError('solver undecided: %s' % [p['property'] for p in unknown][:5])
    # Violation: counterexample, replay
    r.failed = sorted(set(p['description'] for p in real))
    rd = os.path.join(VERIF, 'replay', pid, re.sub(r'[^A-Za-z0-9_.-]', '_', job.name))
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(rd)
    log = ['property: %s' % pid, 'job: %s' % job.name, 'functions: %s' % ', '.join(job.functions), 'cbmc: %s' % r.cmd,
           'failed obligations:'] + ['  %s  %s  [%s:%s]' % (
               p['property'], p['description'], p.get('sourceLocation', {}).get('file', '?'),
               p.get('sourceLocation', {}).get('line', '?')) for p in real]
    reproduced = False
    if job.native:
        tried = 0
        for p in real:
            if p['status'] != 'FAILURE' or p['description'].startswith('WITNESS'):
                continue
            if tried >= 3 or (tried >= 1 and settled()):
                break
            tried += 1
            c2 = cbmc_cmd(job, gb, r.unwind) + ['--trace', '--property', p['property']]
            rc, out, err = sh(c2, min(job.timeout, remaining()), cwd=wd)
            if rc is None:
                log.append('trace timed out for ' + p['property'])
                continue
            try:
                pr, _ = parse_cbmc(out)
            except Exception:
                continue
            tr = [q for q in (pr or []) if 'trace' in q]
            if not tr:
                continue
            inputs = collect_inputs(tr[0]['trace'])
            log.append('counterexample for %s (%s):' % (p['property'], p['description']))
            log += ['  %s = %d (0x%x)' % (n, v, v) for n, v in inputs]
            ok, txt, ncmd = native_replay(job, moddir, wd, inputs, rd)
            log += ['native replay: ' + ('REPRODUCED' if ok else 'not reproduced'), ' '.join(ncmd), txt]
            if ok:
                reproduced = True
                break
    if not reproduced and unw:
        raise RuntimeError('loops not fully unwound and counterexample not reproduced')
    rf = os.path.join(rd, 'replay.txt')
    with open(rf, 'w') as fp:
        fp.write('\n'.join(log) + '\n')
    r.replay = rf
    r.reproduced = reproduced
    r.status = 'violation'


def load(pid):
    d = os.path.join(VERIF, 'props', pid)
    spec = importlib.util.spec_from_file_location('jobs_' + pid, os.path.join(d, 'jobs.py'))
    m = importlib.util.module_from_spec(spec)
    m.Job = Job
    m.REPO = REPO
    sys.modules.setdefault('vprun', sys.modules[__name__])
    spec.loader.exec_module(m)
    return m, d


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=NPROC)
    a = ap.parse_args()
    pid = a.pid
    global DEADLINE
    if DEADLINE is None and a.tier == 'quick':
        DEADLINE = 780.0
    t0 = time.time()
    m, moddir = load(pid)
    jobs = m.jobs(a.tier)
    jobs = [j for j in jobs if a.tier == 'thorough' or j.tier == 'quick']
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, j.name)]
    jobs.sort(key=lambda j: -j.weight)
    kf_path = os.path.join(VERIF, 'known_findings.json')
    known = {}
    if os.path.exists(kf_path):
        for k in json.load(open(kf_path))['findings']:
            if k['status'] == 'finding' and k['property'] == pid:
                known[k['job']] = k
    with ThreadPoolExecutor(a.j) as ex:
        results = list(ex.map(lambda j: run_job(pid, j, moddir, a.v), jobs))
    viol = [r for r in results if r.status == 'violation']
    errs = [r for r in results if r.status == 'error']
    skipped = [r for r in results if r.status == 'skipped']
    kf = [r for r in viol if r.job.known and r.job.name in known]
    viol = [r for r in viol if r not in kf]
    for r in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[r.job.name]['what']))
    ok = [r for r in results if r.status == 'ok']
    proved = [r for r in ok if not r.job.bounded]
    bnd = [r for r in ok if r.job.bounded]
    counted = [r for r in results if r not in kf]
    funcs = sorted(set(f for j in jobs for f in j.functions))
    assum = list(getattr(m, 'ASSUMPTIONS', []))
    for j in jobs:
        for s in j.assumptions:
            if s not in assum:
                assum.append(s)
    notes = sorted(set(r.note for r in results if r.note))
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(m, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': sum(r.obligations for r in counted),
            'discharged': sum(r.discharged for r in counted),
            'checker_cmd': next((r.cmd for r in results if r.cmd), 'cbmc'),
            'trusted_base': getattr(m, 'TRUSTED', []) + ['CBMC 6.11.0 C front end and symbolic execution', 'MiniSat / SMT back end'],
            'functions_under_contract': funcs,
            'jobs': len(jobs), 'jobs_discharged': len(ok),
            'obligations_proved_unbounded': sum(r.discharged for r in proved),
            'obligations_bounded': sum(r.discharged for r in bnd),
            'bounded_jobs': [{'job': r.job.name, 'bound': r.job.bounded} for r in results if r.job.bounded],
            'vacuity_witnesses_reached': sum(r.witnesses for r in ok),
            'solver_s': round(sum(r.solver_s for r in results), 2),
            'backends': {b: sum(r.discharged for r in results if r.backend == b) for b in sorted(set(r.backend for r in results))},
            'slowest': [[r.job.name, round(r.wall, 1)] for r in sorted(results, key=lambda r: -r.wall)[:5]],
            'notes': notes,
            'known_findings': len(kf),
            'jobs_skipped_after_violation': len(skipped),
        },
        'assumptions': assum,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if not a.only and not os.environ.get('VP_NOEV'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
    for r in sorted(viol, key=lambda r: not r.reproduced):
        print('FAILED %s: %s' % (r.job.name, '; '.join(r.failed[:8])))
        print('VIOLATION property=%s replay=%s%s' % (pid, r.replay, '' if r.reproduced else ' no-failing-input-found'))
    for r in errs:
        print('ERROR %s: %s' % (r.job.name, r.msg.splitlines()[0][:300] if r.msg else ''))
    print('%s: %d jobs, %d obligations, %d discharged, %d violations, %d errors, %.1fs' % (
        pid, len(jobs), ev['coverage']['obligations'], ev['coverage']['discharged'], len(viol), len(errs), time.time() - t0))
    sys.exit(1 if viol else 2 if errs else 0)


if __name__ == '__main__':
    main()
