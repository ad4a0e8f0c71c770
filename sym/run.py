"""Run one property: symbolic exploration of every case, replay, evidence.

    run.py P30 [--case substr] [--serial] [--replay FILE]
"""
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')

TOTAL_BUDGET = {'quick': 420.0, 'thorough': 3000.0}


class Case(object):
    def __init__(self, name, fn, **opts):
        self.name = name
        self.fn = fn
        self.opts = opts


def load(prop):
    return importlib.import_module('harness.' + prop)


def quiet():
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)


def import_viscid():
    quiet()
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import viscid
    assert os.path.realpath(viscid.__file__).startswith(os.path.realpath(REPO)), viscid.__file__
    return viscid


def _alarm(sig, frm):
    from sym import engine
    raise engine.PathTimeout()


def run_case(mod, case, budget):
    from sym import engine
    eng = engine.Engine(case.fn, timeout_ms=case.opts.get('timeout_ms', 20000),
                        max_paths=case.opts.get('max_paths', 20000),
                        budget_s=min(budget, case.opts.get('budget_s', 300.0)))
    for k in ('abs_fork', 'round_sqrt', 'norm', 'reduce', 'float_div', 'max_fail', 'path_limit', 'max_witness'):
        if k in case.opts:
            setattr(eng, k, case.opts[k])
    if not eng.path_limit:
        eng.path_limit = 90
    signal.signal(signal.SIGALRM, _alarm)
    eng.run()
    return dict(case=case.name, stats=eng.stats, failures=eng.failures,
                complete=eng.complete, wall=eng.wall, witnesses=eng.witnesses)


def child(mod, case, budget, fn):
    """forked child: runs one case symbolically, pickles the result"""
    try:
        from sym import shim
        setup = getattr(mod, 'setup_symbolic', None)
        if setup:
            setup()
        shim.install()
        res = run_case(mod, case, budget)
    except BaseException as e:   # noqa
        res = dict(case=case.name, error="%s\n%s" % (e, traceback.format_exc()))
    with open(fn, 'wb') as f:
        pickle.dump(res, f)


def pool(mod, cases, budget, nproc):
    t0 = time.time()
    out = []
    tmp = tempfile.mkdtemp(prefix='verif_')
    running = {}
    todo = list(enumerate(cases))
    try:
        while todo or running:
            while todo and len(running) < nproc:
                i, c = todo.pop(0)
                left = budget - (time.time() - t0)
                fn = os.path.join(tmp, '%d.pkl' % i)
                if left < 5:
                    out.append(dict(case=c.name, error='no time left'))
                    continue
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        dn = os.open(os.devnull, os.O_WRONLY)
                        if not os.environ.get('VERIF_DEBUG'):
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        child(mod, c, left, fn)
                    finally:
                        os._exit(0)
                running[pid] = (i, c, fn, time.time() + left + 60)
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid in running:
                i, c, fn, _ = running.pop(pid)
                try:
                    with open(fn, 'rb') as f:
                        out.append(pickle.load(f))
                except Exception as e:
                    out.append(dict(case=c.name, error='worker died: %s' % e))
            else:
                for p, (i, c, fn, dl) in list(running.items()):
                    if time.time() > dl:
                        os.kill(p, signal.SIGKILL)
                time.sleep(0.02)
    finally:
        subprocess.call(['rm', '-rf', tmp])
    return out


# ----------------------------------------------------------------- replay
def replay_main(fn):
    """subprocess: run requests on the real code.  One json line per request."""
    with open(fn) as f:
        req = json.load(f)
    import_viscid()
    mod = load(req['property'])
    setup = getattr(mod, 'setup_concrete', None)
    if setup:
        setup()
    from sym import engine
    cases = {c.name: c for c in mod.cases('thorough')}
    cases.update({c.name: c for c in mod.cases('quick')})
    for k in range(req.get('start', 0), len(req['items'])):
        it = req['items'][k]
        c = cases[it['case']]
        ctx = engine.Concrete(it['inputs'], tol=c.opts.get('tol', 1e-6))
        r = dict(i=k, outcome='ok')
        unraised = []
        sys.unraisablehook = lambda u: unraised.append("%s: %s" % (u.exc_type.__name__, u.exc_value))
        sys.stdout.write(json.dumps(dict(begin=k)) + "\n")
        sys.stdout.flush()
        dn = os.dup(1)
        nul = os.open(os.devnull, os.O_WRONLY)
        try:
            os.dup2(nul, 1)
            c.fn(ctx)
        except engine.CheckFailed as e:
            r.update(outcome='failed', what=str(e), detail=ctx.failed[-1:])
        except engine.PathAbort:
            r.update(outcome='assume')
        except engine.Unsupported as e:
            r.update(outcome='unsupported', what=str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any('viscid' in fr.filename and '/verif' not in fr.filename for fr in tb)
            r.update(outcome='exception', inrepo=inrepo,
                     what="%s: %s" % (type(e).__name__, str(e)[:300]),
                     tb=traceback.format_exc()[-1500:])
        finally:
            if unraised and getattr(mod, 'CYTHON', None) and r['outcome'] in ('ok', 'failed', 'exception'):
                r.update(outcome='failed', what="error in compiled code: " + unraised[0])
            sys.stdout.flush()
            os.dup2(dn, 1)
            os.close(dn)
            os.close(nul)
        if it.get('obs'):
            bad = []
            for (l1, v1), (l2, v2) in zip(it['obs'], ctx.obs):
                if l1 != l2:
                    bad.append("order %s / %s" % (l1, l2))
                    break
                if v1 is not None and not abs(v1 - v2) <= 1e-5 * (1 + abs(v1) + abs(v2)):
                    bad.append("%s: model %r real %r" % (l1, v1, v2))
            r['obs_n'] = min(len(it['obs']), len(ctx.obs))
            r['obs_bad'] = bad[:3]
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


def replay(prop, items, timeout=60, env=None):
    """replay items on the real code in fresh subprocesses -> outcomes"""
    res = [None] * len(items)
    start = 0
    tmp = tempfile.mkdtemp(prefix='verif_rp_')
    try:
        while start < len(items):
            fn = os.path.join(tmp, 'req.json')
            with open(fn, 'w') as f:
                json.dump(dict(property=prop, items=items, start=start), f)
            p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'run.py'),
                                  '--replay-req', fn], stdout=subprocess.PIPE, env=env,
                                 stderr=subprocess.PIPE if not os.environ.get('VERIF_DEBUG') else None,
                                 text=True)
            import threading
            state = dict(last=time.time(), cur=start)

            def reader():
                for line in p.stdout:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    state['last'] = time.time()
                    if 'begin' in d:
                        state['cur'] = d['begin']
                        state['began'] = True
                    elif 'i' in d:
                        res[d['i']] = d
            th = threading.Thread(target=reader)
            th.start()
            errs = []

            def ereader():
                if p.stderr:
                    errs.extend(p.stderr.read().splitlines()[-8:])
            th2 = threading.Thread(target=ereader)
            th2.start()
            hung = False
            while p.poll() is None:
                time.sleep(0.02)
                lim = timeout if state.get('began') else timeout + 120
                if time.time() - state['last'] > lim:
                    p.kill()
                    hung = True
                    break
            p.wait()
            th.join()
            th2.join()
            nxt = [i for i in range(start, len(items)) if res[i] is None]
            if not nxt:
                break
            i = nxt[0]
            if not state.get('began'):
                for j in nxt:
                    res[j] = dict(i=j, outcome='replay-error', what="\n".join(errs))
                break
            res[i] = dict(i=i, outcome='hang' if hung else 'crash',
                          what='no result after %ss' % timeout if hung
                          else 'process ended with %s' % p.returncode)
            start = i + 1
    finally:
        subprocess.call(['rm', '-rf', tmp])
    return res


# ------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(None, 2)[2]
                case, _, what = rest.partition(' :: ')
                out.append((case.strip(), what.strip()))
    return out


def match_known(known, f, out):
    for case, what in known:
        lab, _, desc = what.partition(' :: ')
        if f['case'] == case and lab.strip() in (out.get('what', '') + ' ' + f['label']):
            return (case, what)
    return None


def main(argv):
    if argv and argv[0] == '--replay-req':
        return replay_main(argv[1])
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--replay' in argv:
        d = json.load(open(argv[argv.index('--replay') + 1]))
        cy = Cy(load(prop), symbolic=False)
        try:
            r = replay(prop, [d], env=cy.ready())
        finally:
            cy.close()
        print(json.dumps(r[0], indent=1))
        return 1 if r[0]['outcome'] in ('failed', 'exception', 'hang', 'crash') else 0
    sel = argv[argv.index('--case') + 1] if '--case' in argv else None
    t0 = time.time()
    nproc = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 4)
    import_viscid()
    mod = load(prop)
    pre = getattr(mod, 'prepare', None)
    if pre:
        pre()
    cy = Cy(mod)
    try:
        return run_all(prop, mod, tier, seed, sel, t0, nproc, cy)
    finally:
        cy.close()


class Cy(object):
    """Cython part of a property: translated for the symbolic runs, compiled
    from the same sources in a scratch copy for the replays"""

    def __init__(self, mod, symbolic=True):
        self.dir = None
        self.error = None
        need = getattr(mod, 'CYTHON', None)
        if not need:
            return
        from sym import cybuild
        self.dir = tempfile.mkdtemp(prefix='verif_cy_')
        self.probes = getattr(mod, 'PROBES', {})
        self.need = need
        self.procs = cybuild.build(REPO, self.dir, self.probes, need)
        if symbolic:
            from sym import cyload
            try:
                cyload.install(REPO, probes=self.probes)
            except BaseException as e:     # noqa
                if isinstance(e, KeyboardInterrupt):
                    raise
                self.error = "%s: %s" % (type(e).__name__, e)
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()

    def ready(self):
        """wait for the compiled modules; environment for the replays"""
        if not self.dir:
            return None
        from sym import cybuild
        bad = cybuild.finish(self.procs, self.dir)
        if bad and self.probes:           # without the probe functions
            subprocess.call(['rm', '-rf', os.path.join(self.dir, 'viscid')])
            self.procs = cybuild.build(REPO, self.dir, {})
            bad = cybuild.finish(self.procs, self.dir)
        if not bad and set(self.need) != set(cybuild.MODS):
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import viscid.cython as c; '
                                'assert type(c.cyamr).__name__ == "module"'],
                               cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode:          # binary mismatch: build everything
                subprocess.call(['rm', '-rf', os.path.join(self.dir, 'viscid')])
                self.procs = cybuild.build(REPO, self.dir, self.probes)
                bad = cybuild.finish(self.procs, self.dir)
        self.bad = bad
        return dict(os.environ, VERIF_REPO=self.dir)

    def close(self):
        if self.dir:
            for _, p in self.procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
            subprocess.call(['rm', '-rf', self.dir])


def run_all(prop, mod, tier, seed, sel, t0, nproc, cy):
    cases = [c for c in mod.cases(tier) if sel is None or sel in c.name]
    cases.sort(key=lambda c: -c.opts.get('weight', 1))
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    budget = float(os.environ.get('VERIF_BUDGET', TOTAL_BUDGET[tier]))
    results = pool(mod, cases, budget, nproc) if not cy.error else [
        dict(case=c.name, error='cython translation: ' + cy.error) for c in cases]

    from sym import engine
    tot = engine.Stats()
    notes, items, percase = [], [], []
    incomplete = []
    for r in results:
        if 'error' in r:
            notes.append("case %s: error: %s" % (r['case'], r['error'][-1500:]))
            incomplete.append(r['case'])
            continue
        s = r['stats']
        tot.merge(s)
        if not r['complete']:
            incomplete.append(r['case'])
        if s.checks == 0 and not r['failures']:
            notes.append("case %s: vacuous, no assertion reached" % r['case'])
            incomplete.append(r['case'])
        for nt in s.notes:
            notes.append("%s: %s" % (r['case'], nt))
        percase.append(dict(case=r['case'], paths=s.paths, completed_paths=s.completed,
                            assertions=s.checks, discharged=s.discharged,
                            queries=s.queries, solver_s=round(s.solver_s, 2),
                            unknown=s.unknown, unsupported=s.unsupported,
                            wall_s=round(r['wall'], 2)))
        for f in r['failures']:
            items.append(dict(case=r['case'], kind=f['kind'], label=f['label'],
                              inputs=f['inputs'], tb=f.get('tb', '')))
            for a in f.get('alt') or ():
                items.append(dict(case=r['case'], kind='alt', label=f['label'], inputs=a))
        for w in r['witnesses']:
            items.append(dict(case=r['case'], kind='witness', label='', inputs=w['inputs'],
                              obs=w['obs']))
    env = cy.ready()
    if cy.dir and cy.bad:
        notes.append("scratch build failed: %s" % "; ".join(cy.bad))
    outs = replay(prop, items, env=env) if items else []
    known = known_findings(prop)
    viol, seen_known = [], []
    validated = obs_n = 0
    for f, o in zip(items, outs):
        bad = o['outcome'] in ('failed', 'hang', 'crash') or \
            (o['outcome'] == 'exception')
        if bad:
            k = match_known(known, f, o)
            if k is not None:
                if k not in seen_known:
                    seen_known.append(k)
                continue
            viol.append((f, o))
        elif f['kind'] == 'witness':
            if o['outcome'] == 'ok':
                if o.get('obs_bad'):
                    notes.append("%s: encoding mismatch: %s" % (f['case'], o['obs_bad']))
                else:
                    validated += 1
                    obs_n += o.get('obs_n', 0)
            else:
                notes.append("%s: witness not validated: %s" % (f['case'], o['outcome']))
        elif f['kind'] in ('check', 'exception', 'hang'):
            notes.append("%s: solver counterexample for '%s' not reproduced by the real code (%s %s)"
                         % (f['case'], f['label'][:200], o['outcome'], o.get('what', '')))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    vlines = []
    done = set()
    for f, o in viol:
        key = (f['case'], f['kind'] == 'witness')
        if f['case'] in done:
            continue
        done.add(f['case'])
        fn = os.path.join(evdir, 'replay_%s_%d.json' % (prop, len(vlines)))
        with open(fn, 'w') as fh:
            json.dump(dict(property=prop, case=f['case'], kind=f['kind'], label=f['label'],
                           inputs=f['inputs'], outcome=o), fh, indent=1)
        vlines.append("VIOLATION property=%s replay=%s" % (prop, fn))
        print("  case %s: %s [%s] -> real code: %s %s" % (
            f['case'], f['label'][:200], f['kind'], o['outcome'], o.get('what', '')))
        if os.environ.get('VERIF_VERBOSE'):
            print(json.dumps(f['inputs']), o.get('tb', ''), o.get('detail', ''), f.get('tb', ''))
        if len(vlines) >= (100 if os.environ.get('VERIF_VERBOSE') else 10):
            break
    sample = []
    for r in results:
        if 'error' not in r and r['witnesses'] and len(sample) < 3:
            sample.append(dict(case=r['case'], witness_inputs={k: r['witnesses'][0]['inputs'][k] for k in
                          list(r['witnesses'][0]['inputs'])[:12]}))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=tot.paths, transitions=tot.queries,
                  traces_validated_against_impl=validated, samples=sample,
                  meaning="states: symbolic paths of the real code explored; transitions: solver queries; "
                          "traces_validated_against_impl: solver-chosen inputs of explored paths replayed on the "
                          "real code, all checks passing and every compared value equal to the model's",
                  functions_encoded=mod.ENCODED, bounds=mod.BOUNDS,
                  outside=getattr(mod, 'OUTSIDE', ''),
                  cases=len(cases), cases_incomplete=incomplete,
                  assertions=tot.checks, discharged=tot.discharged,
                  queries=tot.queries, solver_s=round(tot.solver_s, 2),
                  unknown=tot.unknown, unsupported_paths=tot.unsupported,
                  values_compared_model_vs_impl=obs_n,
                  reached={k: v for k, v in sorted(tot.reached.items())[:200]},
                  counterexamples_replayed=sum(1 for f in items if f['kind'] != 'witness'),
                  notes=notes[:60],
                  per_case=percase[:400]),
              assumptions=list(getattr(mod, 'ASSUME', [])) + [
                  "floats are modelled as exact reals, Python ints as mathematical integers",
                  "NumPy is modelled by object arrays of symbolic reals (sym/shim.py)"],
              wall_s=round(wall, 2), violations=len(vlines))
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for case, what in known:
        lab, _, desc = what.partition(' :: ')
        if (case, what) in seen_known or sel is None and False:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, case, desc or lab))
    print("%s %s: %d cases, %d paths, %d assertions, %d discharged, %d queries, solver %.1fs, wall %.1fs, "
          "validated %d, unknown %d, unsupported %d%s" % (
              prop, tier, len(cases), tot.paths, tot.checks, tot.discharged, tot.queries,
              tot.solver_s, wall, validated, tot.unknown, tot.unsupported,
              ", incomplete: %s" % ",".join(incomplete)[:300] if incomplete else ""))
    notes = list(dict.fromkeys(notes))
    for n in notes[:25 if not os.environ.get('VERIF_VERBOSE') else 200]:
        print("  note:", n[:600 if not os.environ.get('VERIF_VERBOSE') else 3000])
    for v in vlines:
        print(v)
    return 1 if vlines else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
