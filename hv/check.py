#!/usr/bin/env python3-vt
"""Decides one property: generates every obligation of the property's contracts from
/repo's current source, discharges them, replays refutations on the compiled code."""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build


def worker(ll, spec, budget, tier, outfile, cfg):
    """runs in its own process: execute one spec symbolically and discharge it"""
    import resource
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    import threading
    threading.stack_size(1 << 29)
    res = {}

    def body():
        try:
            verify(ll, spec, budget, tier, cfg, res)
        except BaseException as ex:
            res['error'] = '%s: %s' % (type(ex).__name__, ex)
            res['trace'] = traceback.format_exc()[-1500:]
    t = threading.Thread(target=body)
    t.start()
    t.join()
    with open(outfile + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.rename(outfile + '.tmp', outfile)


def verify(ll, spec, budget, tier, cfg, res):
    import ir
    import executor
    import expr as X
    import smt
    t0 = time.time()
    res['spec'] = spec
    res['obligations'] = []
    m = ir.Module(open(ll).read())
    deadline = t0 + budget
    x = executor.Exec(m, deadline=t0 + 0.7 * budget, opts=cfg)
    und = None
    try:
        x.run('spec_' + spec)
    except ir.Unsupported as ex:
        und = 'unsupported: %s' % ex
    except RecursionError:
        und = 'recursion limit'
    res['exec_s'] = time.time() - t0
    res['undecided_exec'] = und
    res['paths'] = x.covers.get('__path__', 0)
    res['covers'] = [c for c in x.covers if c != '__path__']
    import build
    root = os.path.realpath(build.REPO) + '/'
    res['functions'] = []
    for n in sorted(x.functions):
        f = os.path.realpath(m.func_file(n))
        if f.startswith(root):
            res['functions'].append([n, f[len(root):]])
    if x.lines is not None:
        with open(os.path.join(os.environ['HV_LINES'], spec), 'w') as fl:
            for n in sorted({m.loc(i) for i in x.lines if i}):
                f, _, k = n.rpartition(':')
                f = os.path.realpath(f)
                if f.startswith(root):
                    fl.write('%s:%s\n' % (f[len(root):], k))
    res['externals'] = sorted(x.externals)
    res['assumed'] = sorted(x.assumed)
    res['divs'] = x.divs
    nfe = X.NF()
    seen = {}
    for o in x.obls:
        key = (o.label, o.kind, getattr(o.a, 'id', o.a), getattr(o.b, 'id', o.b), tuple(sorted(p.id for p in o.pc)))
        if key in seen:
            continue
        seen[key] = 1
        ts = time.time()
        st, why, md = 'proved', '', None
        how = 'normal form'
        z0 = smt.STATS['z3']
        try:
            if time.time() > deadline and not (o.a is True or (o.kind == 'eq' and o.a is o.b)):
                raise smt.Undecided('time budget')
            if o.kind == 'eq':
                ok, w = smt.prove_eq(o.pc, o.a, o.b, nfe, min(deadline, time.time() + max(20, budget / 3)))
            else:
                ok, w = smt.prove_bool(o.pc, o.a if o.kind == 'bool' else False, min(deadline, time.time() + max(20, budget / 3)))
                if not ok:
                    w = (o.pc, w, 'sat')
            if not ok:
                pc2, md, r = w
                st = 'refuted'
                why = r
                if md is None or r == 'unknown':
                    # numeric confirmation that the two sides differ
                    got = smt.numeric_refute(pc2, o, 400)
                    if got is None:
                        st, why = 'undecided', 'no model'
                    else:
                        md, why = got, 'numeric'
        except smt.Undecided as ex:
            st, why = 'undecided', str(ex)
            got = smt.numeric_refute(o.pc, o, 200) if o.kind == 'eq' else None
            if got is not None:
                st, why, md = 'refuted', 'numeric', got
        except (X.TooBig, NotImplementedError, RecursionError, ZeroDivisionError, OverflowError) as ex:
            st, why = 'undecided', '%s %s' % (type(ex).__name__, ex)
        if smt.STATS['z3'] > z0:
            how = 'z3'
        names = [i.a[0] for i in o.inputs]
        model = None
        if md is not None:
            model = {n: md.get(n) for n in names if md.get(n) is not None}
        res['obligations'].append({'label': o.label, 'loc': o.loc, 'status': st, 'why': why, 's': round(time.time() - ts, 3),
                                   'by': how, 'model': model, 'pc': [X.show(p)[:200] for p in o.pc[:12]] if st != 'proved' else [],
                                   'goal': (X.show(o.a)[:600] + (' = ' + X.show(o.b)[:600] if o.kind == 'eq' else '')) if st != 'proved' and o.a.__class__ is X.E else ''})
    res['z3'] = dict(smt.STATS)
    res['wall'] = time.time() - t0


def spawn(ll, spec, budget, tier, outfile, cfg):
    pid = os.fork()
    if pid == 0:
        os.setsid()
        try:
            worker(ll, spec, budget, tier, outfile, cfg)
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    return pid


def native(exe, spec, args, timeout):
    try:
        p = subprocess.run([exe, spec] + args, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--budget', type=float, default=0)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    jobs = int(os.environ.get('HV_JOBS', os.cpu_count() or 4))
    budget = a.budget or (150 if tier == 'quick' else 1500)
    nat_s = 2.0 if tier == 'quick' else 60.0
    prop = a.property
    files = sorted(glob.glob(os.path.join(ROOT, 'specs', prop + '_*.cc')) + glob.glob(os.path.join(ROOT, 'specs', prop + '.cc')))
    if not files:
        print('no specification for', prop)
        return 2
    work = tempfile.mkdtemp(prefix='hv_%s_' % prop)
    try:
        return run(a, prop, files, work, tier, seed, jobs, budget, nat_s, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)


def load_known():
    """known-findings.txt: 'known: property=P spec=S label=L :: text' lines"""
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) spec=(\S+) label="([^"]*)"\s*(.*)$', ln)
            if m:
                out.append(m.groups())
    return out


def run(a, prop, files, work, tier, seed, jobs, budget, nat_s, t0):
    errors, undecided = [], []
    runtime = os.path.join(work, 'rt.o')
    units = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        frt = ex.submit(build.compile_runtime, runtime)
        fs = []
        for f in files:
            b = os.path.join(work, os.path.basename(f)[:-3])
            d = build.directives(f)
            fi = None if 'native_only' in d else ex.submit(build.compile_ir, f, b + '.ll')
            fs.append((f, b, d, fi))
        frt.result()
        fn = [None if a.no_native else ex.submit(build.compile_native, f, b + '.exe', runtime) for f, b, d, fi in fs]
        for (f, b, d, fi), n in zip(fs, fn):
            u = {'file': f, 'base': b, 'dir': d, 'specs': [], 'exe': None}
            try:
                u['exe'] = n.result() if n else None
            except Exception as e:
                errors.append('%s native: %s' % (os.path.basename(f), e))
            try:
                if fi is not None:
                    u['specs'] = fi.result()
                else:
                    u['specs'] = []
                    u['native_specs'] = sorted(set(re.findall(r'^HV_SPEC\((\w+)\)', open(f).read(), re.M)))
            except Exception as e:
                errors.append('%s: %s' % (os.path.basename(f), e))
                if u['exe']:
                    u['native_specs'] = sorted(set(re.findall(r'^HV_SPEC\((\w+)\)', open(f).read(), re.M)))
            units.append(u)
    t_build = time.time() - t0
    # ---- symbolic runs
    queue = []
    for u in units:
        heavy = ' '.join(u['dir'].get('heavy', []))
        for s in u['specs']:
            if a.only and not re.search(a.only, s):
                continue
            queue.append((0 if s in heavy.split() else 1, u, s))
    queue.sort(key=lambda q: (q[0]))
    results = {}
    running = {}
    hard = budget * 1.3 + 20
    qi = 0
    natres = {}
    sys.stdout.flush()
    # native sampling goes first in a small pool of threads while the proofs run
    while qi < len(queue) or running:
        while qi < len(queue) and len(running) < jobs:
            _, u, s = queue[qi]
            qi += 1
            out = os.path.join(work, 'res_%s_%s.json' % (os.path.basename(u['base']), s))
            cfg = {}
            pid = spawn(u['base'] + '.ll', s, budget, tier, out, cfg)
            running[pid] = (u, s, out, time.time())
        pid, stt = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            for p, (u, s, out, ts) in list(running.items()):
                if time.time() - ts > hard:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            continue
        if pid in running:
            u, s, out, ts = running.pop(pid)
            r = None
            if os.path.exists(out):
                r = json.load(open(out))
            else:
                r = {'error': 'worker ended (time or memory)', 'obligations': []}
            results[(u['base'], s)] = r
    # ---- native sampling
    def sample(u, s, secs):
        rp = os.path.join(work, 'rp_%s_%s.txt' % (os.path.basename(u['base']), s))
        rc, so = native(u['exe'], s, ['--trials', '200000' if tier == 'quick' else '20000000', '--seed', str(seed), '--time', str(secs), '--out', rp], secs + 60)
        return rc, so, rp
    todo = []
    for u in units:
        for s in (u['specs'] or u.get('native_specs', [])):
            if a.only and not re.search(a.only, s):
                continue
            if u['exe']:
                todo.append((u, s))
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {}
        for u, s in todo:
            secs = nat_s
            for d in u['dir'].get('sample', []):
                secs = float(d) * (1 if tier == 'quick' else 20)
            futs[(u['base'], s)] = ex.submit(sample, u, s, secs)
        for k, f in futs.items():
            natres[k] = f.result()
    # ---- verdicts
    known = load_known()
    viol, finds = [], []
    nob = ndis = 0
    und = []
    funcs, exts, assumed, labels = set(), set(), set(), []
    z3n = z3s = 0
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    vac = []
    nev = ndist = 0
    for u in units:
        for s in (u['specs'] or u.get('native_specs', [])):
            k = (u['base'], s)
            r = results.get(k)
            nr = natres.get(k)
            replay_done = False
            if nr:
                m = re.search(r'trials=(\d+) useful=(\d+) distinct=(\d+)', nr[1])
                if m:
                    nev += int(m.group(1))
                    ndist += int(m.group(3))
            if r is None and nr is None:
                continue
            if r is not None:
                if r.get('error'):
                    und.append('%s: %s' % (s, r['error']))
                    if a.v:
                        print(r.get('trace'))
                if r.get('undecided_exec'):
                    und.append('%s: %s' % (s, r['undecided_exec']))
                obl = r['obligations']
                if not obl and not r.get('error') and not r.get('undecided_exec'):
                    vac.append('%s: no obligation' % s)
                if r.get('paths', 0) == 0 and not any(o['status'] != 'proved' for o in obl) and not r.get('undecided_exec') and not r.get('error'):
                    vac.append('%s: no completed path' % s)
                want = re.findall(r'^HV_SPEC\(%s\)(.*?)^}' % s, open(u['file']).read(), re.M | re.S)
                if want and not r.get('undecided_exec') and not r.get('error'):
                    for c in re.findall(r'hv_cover\("([^"]*)"\)', want[0]):
                        if c not in r.get('covers', []):
                            vac.append('%s: cover "%s" not reached' % (s, c))
                funcs.update(tuple(y) for y in r.get('functions', []))
                exts.update(r.get('externals', []))
                assumed.update(r.get('assumed', []))
                z3n += r.get('z3', {}).get('z3', 0)
                z3s += r.get('z3', {}).get('z3_s', 0)
                if a.v:
                    print('%-40s exec %.1fs wall %.1fs paths %d obls %d' % (s, r.get('exec_s', 0), r.get('wall', 0), r.get('paths', 0), len(obl)))
                bylab = {}
                for o in obl:
                    nob += 1
                    if o['status'] == 'proved':
                        ndis += 1
                    else:
                        bylab.setdefault((o['status'], o['label']), []).append(o)
                labels += [s + ': ' + o['label'] for o in obl if o['status'] == 'proved']
                refuted = [(l, os_) for (stt, l), os_ in bylab.items() if stt == 'refuted']
                for (stt, l), os_ in bylab.items():
                    if a.v:
                        o = os_[0]
                        print('   %s %s [%s] x%d why=%s model=%s' % (stt, l, o['loc'], len(os_), o['why'], o['model']))
                        if a.v and o['pc']:
                            print('      goal', o.get('goal'))
                    print('      goal', o.get('goal'))
                    print('      pc', o['pc'])
                    if stt == 'undecided':
                        und.append('%s: %s (%s)' % (s, l, os_[0]['why']))
                if refuted:
                    # replay on the compiled code
                    confirmed = None
                    unconf = [(l, o) for l, os_ in refuted for o in os_]
                    if u['exe']:
                        for l, o in unconf[:12]:
                            rf = os.path.join(work, 'model.txt')
                            with open(rf, 'w') as f:
                                for n, v in (o['model'] or {}).items():
                                    f.write('%s %r\n' % (n, float(v)))
                            rp = os.path.join(work, 'conf.txt')
                            rc, so = native(u['exe'], s, ['--replay', rf, '--trials', '40', '--seed', str(seed), '--out', rp], 60)
                            if rc == 3:
                                confirmed = (l, o, so, rp)
                                break
                    if confirmed is None and nr and nr[0] == 3:
                        confirmed = (refuted[0][0], unconf[0][1], nr[1], nr[2])
                    lab, o = (confirmed[0], confirmed[1]) if confirmed else unconf[0]
                    kn = [x for x in known if x[0] == prop and x[1] == s]
                    allknown = kn and all(any(x[2] == l for x in kn) for l, _ in refuted)
                    if allknown:
                        for x in kn:
                            finds.append('KNOWN-FINDING: property=%s %s' % (prop, x[3]))
                        replay_done = True
                    else:
                        if kn:
                            new = [(l, os_) for l, os_ in refuted if not any(x[2] == l for x in kn)]
                            lab, o = new[0][0], new[0][1][0]
                        path = os.path.join(rdir, '%s_%s.txt' % (prop, s))
                        with open(path, 'w') as f:
                            f.write('property %s\nspec %s (%s)\nfailed obligation: %s\nat %s\nverifier: %s\npath condition: %s\nmodel: %s\n'
                                    % (prop, s, u['file'], lab, o['loc'], o['why'], o['pc'], json.dumps(o['model'])))
                            if confirmed:
                                f.write('replay on the compiled code:\n' + confirmed[2] + '\n')
                                try:
                                    f.write(open(confirmed[3]).read())
                                except OSError:
                                    pass
                            else:
                                f.write('replay on the compiled code found no failing input\n')
                        viol.append((path, bool(confirmed), s, lab))
                        replay_done = True
            if nr and nr[0] == 3 and not replay_done:
                m = re.search(r'FAIL label=(.*)', nr[1])
                lab = m.group(1) if m else '?'
                kn = [x for x in known if x[0] == prop and x[1] == s and lab.startswith(x[2])]
                if kn:
                    finds.append('KNOWN-FINDING: property=%s %s' % (prop, kn[0][3]))
                else:
                    path = os.path.join(rdir, '%s_%s.txt' % (prop, s))
                    with open(path, 'w') as f:
                        f.write('property %s\nspec %s (%s)\nfailed on the compiled code (bounded run): %s\n%s\n' % (prop, s, u['file'], lab, nr[1]))
                        try:
                            f.write(open(nr[2]).read())
                        except OSError:
                            pass
                    viol.append((path, True, s, lab))
            elif nr and nr[0] not in (0, 3):
                und.append('%s: native run ended with %d %s' % (s, nr[0], nr[1][:200]))
            if a.v and nr:
                print('   native', s, nr[0], nr[1].strip()[:300])
    wall = time.time() - t0
    import build as _b
    fl = sorted(funcs)
    dm = demangle_all([n for n, _ in fl])
    repo_funcs = sorted(set('%s: %s' % (f, short(d)) for (_, f), d in zip(fl, dm)))
    level = 'proof'
    try:
        for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                level = c['level']
    except (OSError, ValueError, KeyError):
        pass
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'explanation': 'obligations generated by symbolic execution of the compiled code of this tree and discharged for all '
                       'inputs; loops over containers are unrolled up to the sizes in bounds (nothing is claimed beyond them)',
                       'obligations': nob, 'discharged': ndis,
                       'checker_cmd': '/verif/check %s --tier %s' % (prop, tier),
                       'trusted_base': ['hv symbolic executor (/verif/hv) incl. models of the C/C++ runtime', 'clang 18 front end and opt (sroa, early-cse, simplifycfg)', 'z3', 'doubles treated as real numbers'],
                       'functions_under_contract': repo_funcs[:400], 'n_functions': len(repo_funcs), 'n_instantiations': len(funcs),
                       'solver_queries': z3n, 'solver_s': round(z3s, 2), 'build_s': round(t_build, 1),
                       'undecided': und[:60], 'vacuity': vac, 'build_errors': errors,
                       'samples': sorted(set(labels))[:40],
                       'bounded_native_runs': {'evaluations': nev, 'distinct': ndist},
                       'known_findings': finds},
          'assumptions': ['machine arithmetic treated as mathematical (reals; integers in range)'] + sorted(assumed)
          + ['assumed external: ' + x for x in demangle_all(sorted(exts))][:40],
          'wall_s': round(wall, 1), 'violations': len(viol)}
    for u in units:
        ev['assumptions'] += u['dir'].get('assume', [])
    bounds = [b for u in units for b in u['dir'].get('bound', [])]
    if bounds:
        ev['coverage']['bounds'] = bounds
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in sorted(set(finds)):
        print(l)
    print('%s: %d obligations, %d discharged, %d undecided, %d native evaluations, %.0f s' % (prop, nob, ndis, len(und), nev, wall))
    for x in und[:20]:
        print('UNDECIDED (bounded run stands in):', x)
    for x in vac:
        print('VACUITY:', x)
    for x in errors:
        print('BUILD:', x)
    if vac and not viol:
        # a state the contract reaches on the unchanged tree cannot be reached any more (e.g. always an exception)
        path = os.path.join(rdir, '%s_reachability.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s\nfailed obligations: reachability\n%s\n' % (prop, '\n'.join(vac)))
        viol.append((path, False, 'reachability', vac[0]))
    for path, conf, s, lab in viol:
        print('failed obligation: %s: %s' % (s, lab))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
    if viol:
        return 1
    if nob == 0 and nev == 0:
        return 2
    return 0


def short(d):
    # drops template arguments and parameter lists: one entry per source function
    d = d.replace('operator<<', 'operator~~').replace('operator<', 'operator~').replace('operator()', 'operator__').replace('operator->', 'operator-~')
    out, k = '', 0
    for c in d:
        if c in '<({[':
            if c == '(' and k == 0:
                break
            k += 1
        elif c in '>)}]':
            k -= 1
        elif k == 0:
            out += c
    out = out.replace('operator~~', 'operator<<').replace('operator__', 'operator()').replace('operator-~', 'operator->').replace('operator~', 'operator<').strip()
    return out.split(' ')[-1] if 'operator' not in out else out


def demangle_all(ns):
    if not ns:
        return []
    p = subprocess.run(['c++filt'], input='\n'.join(ns), capture_output=True, text=True)
    return [re.sub(r'\s+', ' ', x) for x in p.stdout.strip().split('\n')]


if __name__ == '__main__':
    sys.exit(main())
