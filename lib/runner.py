"""Runs the scenarios of one property: explore symbolically, replay on the plain code, write evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(1, os.path.join(VERIF, 'checks'))


class Scenario:
    def __init__(self, name, fn, params=None, bounds='', **opts):
        self.name, self.fn, self.params, self.bounds, self.opts = name, fn, params or {}, bounds, opts


def load_check(pid, tier):
    mod = importlib.import_module(pid.lower())
    scs = mod.scenarios(tier)
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), "duplicate scenario names"
    return mod, scs


def skipped(pid):
    """packages a check does not execute symbolically (a line SKIP = (...) in the check)"""
    import ast
    import re
    from symex import instrument
    with open(os.path.join(VERIF, 'checks', pid.lower() + '.py')) as fh:
        m = re.search(r'^SKIP = (.*)$', fh.read(), re.M)
    return ast.literal_eval(m.group(1)) if m else instrument.DEFAULT_SKIP


def known_ids(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                f = line.split(None, 3)
                kid, prop = f[1].split('=')[1], f[2].split('=')[1]
                if prop == pid:
                    out[kid] = f[3]
    return out


def _explore(pid, tier, idxs, deadline, q):
    """worker process: explores scenarios idxs"""
    import symex
    from symex import instrument
    mod, scs = _G['mod'], _G['scs']
    kids = set(_G['known'])
    instrument.EXECUTED.clear()
    instrument.start_tracing()
    for i in idxs:
        sc = scs[i]
        t = time.time()
        res = dict(idx=i, name=sc.name)
        try:
            o = dict(budget_s=sc.opts.get('budget', 40 if tier == 'quick' else 240),
                     max_paths=sc.opts.get('max_paths', 3000 if tier == 'quick' else 40000),
                     timeout_ms=sc.opts.get('timeout_ms', 8000 if tier == 'quick' else 30000),
                     concretize_limit=sc.opts.get('concretize_limit', 64),
                     n_witness=sc.opts.get('witness', 3 if tier == 'quick' else 6),
                     stop_after=sc.opts.get('stop_after', 2))
            o['budget_s'] = max(1.0, min(o['budget_s'], deadline - time.time()))
            ex = symex.Explorer(known_ids=kids, **o)
            if time.time() >= deadline:
                ex.stats.incomplete += 1
            else:
                ex.run(sc.fn, sc.params)
            res.update(stats=ex.stats.as_dict(), findings=[f.as_dict() for f in ex.findings],
                       known=[f.as_dict() for f in ex.known_findings.values()], witnesses=ex.witnesses,
                       covered=ex.covered, tags=ex.tags, errors=ex.errors, probes=ex.probes, wall=time.time() - t,
                       executed=sorted(instrument.EXECUTED), files=dict(instrument.ENCODED_FILES))
        except BaseException as e:  # noqa
            res['crash'] = ''.join(traceback.format_exception(e))[-3000:]
        q.put(res)
        if 'crash' in res:
            break


_G = {}


def replay_main(path):
    """--replay-batch: concrete re-execution on the plain code. Input: JSON list of items."""
    with open(path) as fh:
        job = json.load(fh)
    os.environ['VERIF_MODE'] = 'concrete'
    import symex
    from symex import instrument
    instrument.install(False)
    mod, scs = load_check(job['property'], job['tier'])
    if hasattr(mod, 'setup'):
        mod.setup(False)
    by = {s.name: s for s in scs}
    out = []
    devnull = open(os.devnull, 'w')
    for it in job['items']:
        sc = by.get(it['scenario'])
        if sc is None:
            out.append(dict(status='missing'))
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                sys.stdout = devnull
                signal.alarm(int(it.get('timeout', 30)))
                st, msg, detail, c = symex.run_concrete(sc.fn, sc.params, it['inputs'], it.get('fill'))
                data = json.dumps(dict(status=st, msg=msg, detail=detail, observed=c.observed, covered=c.covered,
                                       known=c.known_hit, inputs=c.values if it.get('fill') is not None else None))
            except BaseException as e:  # noqa
                data = json.dumps(dict(status='harness-error', msg=repr(e),
                                       detail=''.join(traceback.format_exception(e))[-1500:]))
            with os.fdopen(w, 'w') as fh:
                fh.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as fh:
            data = fh.read()
        _, st = os.waitpid(pid, 0)
        if data:
            out.append(json.loads(data))
        else:
            out.append(dict(status='killed', msg='replay process ended without a result (signal %d)' %
                            (os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0), detail=''))
    with open(path + '.out', 'w') as fh:
        json.dump(out, fh)


def run_replays(pid, tier, items):
    if not items:
        return []
    scratch = os.environ['VERIF_SCRATCH']
    p = os.path.join(scratch, 'replay-%d-%d.json' % (os.getpid(), int(time.time() * 1e6)))
    with open(p, 'w') as fh:
        json.dump(dict(property=pid, tier=tier, items=items), fh)
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay-batch', p],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch)
    try:
        with open(p + '.out') as fh:
            out = json.load(fh)
    except OSError:
        raise RuntimeError("replay process failed:\n" + r.stdout.decode(errors='replace')[-3000:])
    for x in (p, p + '.out'):
        os.unlink(x)
    return out


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import symex
    from symex import instrument
    instrument.install(True, skip=skipped(pid))
    mod, scs = load_check(pid, tier)
    only = os.environ.get('VERIF_ONLY')
    if only:
        scs = [s for s in scs if only in s.name]
    if hasattr(mod, 'setup'):
        mod.setup(True)
    kn = known_ids(pid)
    _G.update(mod=mod, scs=scs, known=kn)
    wall_cap = float(os.environ.get('VERIF_WALL', getattr(mod, 'WALL', {}).get(tier, 150 if tier == 'quick' else 1500)))
    deadline = t0 + wall_cap
    q = mp.Queue()
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    # one process per scenario, at most nproc at a time (largest first when declared)
    order = sorted(range(len(scs)), key=lambda i: -scs[i].opts.get('weight', 1))
    chunks = [[i] for i in order]
    if len(chunks) > 10 * nproc:
        k = max(1, len(order) // (10 * nproc))
        chunks = [order[i::max(1, len(order) // k)] for i in range(max(1, len(order) // k))]
    procs, results, pending = {}, [], list(chunks)
    crashed = []
    while pending or procs:
        while pending and len(procs) < nproc:
            c = pending.pop(0)
            p = mp.get_context('fork').Process(target=_explore, args=(pid, tier, c, deadline, q))
            p.start()
            procs[p.pid] = (p, c, time.time())
        try:
            while True:
                results.append(q.get(timeout=0.05))
        except Exception:
            pass
        got = {r['idx'] for r in results}
        if os.environ.get('VERIF_FIRST') and any(r.get('findings') for r in results):
            pending, deadline = [], 0       # development only: the first violation is enough
        for k in list(procs):
            p, c, st = procs[k]
            if not p.is_alive():
                p.join()
                del procs[k]
                try:
                    while True:
                        results.append(q.get(timeout=0.2))
                except Exception:
                    pass
                got = {r['idx'] for r in results}
                for i in c:
                    if i not in got:
                        crashed.append("%s: worker ended with status %s" % (scs[i].name, p.exitcode))
            elif time.time() > deadline + 60:
                p.terminate()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del procs[k]
                for i in c:
                    if i not in got:
                        results.append(dict(idx=i, name=scs[i].name, timeout=True))
    # ---- collect
    stats = symex.core.Stats()
    findings, knowns, witnesses, errors, covered, executed, files, tags = [], {}, [], [], {}, set(), {}, {}
    timeouts, per = [], []
    for r in sorted(results, key=lambda r: r['idx']):
        if r.get('timeout'):
            timeouts.append(r['name'])
            stats.incomplete += 1
            continue
        if 'crash' in r:
            crashed.append(r['name'] + ': ' + r['crash'])
            continue
        stats.merge(r['stats'])
        for f in r['findings']:
            findings.append((r['name'], f))
        for f in r['known']:
            knowns.setdefault(f['known'], (r['name'], f))
        for w in r['witnesses']:
            witnesses.append((r['name'], w))
        errors.extend(r['errors'])
        if os.environ.get('VERIF_COVER'):
            print('   ', r['name'], '|', ','.join(r['covered']))
        for k, v in r['covered'].items():
            covered[k] = covered.get(k, 0) + v
        for k, v in r['tags'].items():
            tags[k] = tags.get(k, 0) + v
        executed |= set(r['executed'])
        files.update(r['files'])
        per.append(dict(scenario=r['name'], paths=r['stats']['paths'], asserts=r['stats']['asserts'],
                        incomplete=r['stats']['incomplete'], wall_s=round(r['wall'], 2)))
    # ---- replay on the plain code
    max_w = 60 if tier == 'quick' else 300
    if len(witnesses) > max_w:
        step = len(witnesses) / max_w
        witnesses = [witnesses[int(i * step)] for i in range(max_w)]
    items = [dict(scenario=n, inputs=f['inputs'], msg=f['msg']) for n, f in findings]
    items += [dict(scenario=n, inputs=f['inputs'], msg=f['msg']) for n, f in knowns.values()]
    items += [dict(scenario=n, inputs=w['inputs']) for n, w in witnesses]
    # scenarios left incomplete (code outside the encodable fragment, budget): replay inputs that lead there
    probes = []
    for i, sc in enumerate(scs):
        r = next((r for r in results if r['idx'] == i and 'stats' in r), None)
        if r and not r['stats']['incomplete'] and not r['stats']['unknown'] and not r['errors']:
            continue
        if os.environ.get('VERIF_FIRST') and any(r.get('findings') for r in results):
            break
        probes += [(sc.name, dict(scenario=sc.name, inputs=dict(p), fill=k)) for k, p in enumerate(r['probes'] if r else ())]
        probes += [(sc.name, dict(scenario=sc.name, inputs={}, fill=100 + k)) for k in range(12)]
    cap = 400 if tier == 'quick' else 2000
    probes = probes[::max(1, -(-len(probes) // cap))]
    nfirst = len(items)
    items += [p for _, p in probes]
    rep = run_replays(pid, tier, items)
    nf, nk = len(findings), len(knowns)
    prep, rep = rep[nfirst:], rep[:nfirst]
    violations, unreproduced, notes = [], [], []
    for (n, f), r in zip(findings, rep[:nf]):
        if r['status'] in ('failed', 'exception'):
            violations.append((n, f, r))
        elif r['status'] == 'killed':
            violations.append((n, f, r))
        else:
            unreproduced.append((n, f, r))
    kprinted = []
    for (kid, (n, f)), r in zip(knowns.items(), rep[nf:nf + nk]):
        if r['status'] in ('failed', 'exception', 'killed'):
            kprinted.append(kid)
        else:
            notes.append("known finding %s: model did not reproduce (%s)" % (kid, r['status']))
    nprobe = 0
    for (n, p), r in zip(probes, prep):
        if r['status'] in ('failed', 'exception') and not set(r.get('known') or ()) & set(kn):
            violations.append((n, dict(kind='probe', msg=r['msg'], inputs=r['inputs'], known=None,
                                       detail='reached outside the encodable fragment'), r))
        elif r['status'] == 'ok':
            nprobe += 1
    validated, mismatches = 0, []
    for (n, w), r in zip(witnesses, rep[nf + nk:]):
        if r['status'] == 'ok':
            bad = []
            for (l1, v1), (l2, v2) in zip(w['observed'], r['observed']):
                if l1 != l2 or (v1 is not None and v1 != v2):
                    bad.append((l1, v1, v2))
            if bad:
                mismatches.append("%s: %s" % (n, bad[:2]))
            else:
                validated += 1
        elif w.get('hit_known'):
            pass
        elif r['status'] in ('failed', 'exception'):
            f = dict(kind='witness', msg=r['msg'], inputs=w['inputs'], known=None, detail='path witness fails on the real code')
            violations.append((n, f, r))
        else:
            mismatches.append("%s: witness replay %s %s" % (n, r['status'], r.get('msg', '')))
    rc = 0
    out = []
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for k, (n, f, r) in enumerate(violations[:int(os.environ.get('VERIF_ALL', 5))]):
        rp = os.path.join(rdir, '%s-%d.json' % (pid, k))
        with open(rp, 'w') as fh:
            json.dump(dict(property=pid, tier=tier, scenario=n, inputs=f['inputs'], msg=f['msg'],
                           solver_detail=f.get('detail', ''), replay=r), fh, indent=1)
        out.append("VIOLATION property=%s replay=%s" % (pid, rp))
        out.append("  scenario %s: %s | replay: %s %s" % (n, f['msg'], r['msg'], r.get('detail', '')[:600]))
        rc = 1
    if rc == 0 and unreproduced:
        # refuted by the real code: not a violation, the affected scenario is inconclusive beyond this point
        rc = 2 if os.environ.get('VERIF_STRICT') else 0
        for n, f, r in unreproduced[:int(os.environ.get('VERIF_ALL', 3))]:
            out.append("NOTE: inconclusive, counterexample of %s (%s) does not reproduce on the real code: %s\n  %s" %
                       (n, f['msg'], r, f['detail']))
    # parts the engine could not decide: quiet when the inputs replayed on the real code all hold, no answer otherwise
    strict = os.environ.get('VERIF_STRICT') or not nprobe
    if rc == 0 and (errors or crashed):
        rc = 2 if strict else 0
        for e in (errors + crashed)[:5]:
            out.append(("ERROR: " if strict else "NOTE: inconclusive: ") + e)
    if rc == 0 and stats.asserts == 0:
        rc = 2 if strict else 0
        out.append(("ERROR: " if strict else "NOTE: inconclusive: ") + "no assertion was reached")
    need = set(getattr(mod, 'MUST_COVER', ()))
    miss = sorted(need - set(covered)) if not only else []
    if rc == 0 and miss:
        notes.append("not reached on this tree: " + ', '.join(miss))
    for kid in sorted(kprinted):
        out.append("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[kid], kid))
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    samples = [dict(scenario=n, inputs=_short(w['inputs']), observed=w['observed'][:4]) for n, w in witnesses[:4]]
    cov = dict(
        states=stats.paths, transitions=stats.branches, traces_validated_against_impl=validated, samples=samples,
        evaluations=stats.paths, distinct_nontrivial=stats.paths - 0,
        rule='one evaluation = one feasible symbolic path of a scenario, explored exhaustively within the bounds',
        explanation='bounded symbolic execution of the real code; every assertion on every path is decided by z3',
        functions_encoded=sorted(executed), encoded_sources={k.replace(instrument.REPO + '/', ''): v[:16] for k, v in sorted(files.items())},
        bounds=[dict(scenario=s.name, bounds=s.bounds) for s in scs][:200],
        assertions=stats.asserts, assertions_unsat=stats.asserts_unsat, assertions_constant_true=stats.trivial_asserts,
        assertion_kinds=tags, queries=stats.queries, solver_s=round(stats.solver_s, 2), slowest_query_s=round(stats.slowest, 2),
        solver_unknown=stats.unknown, infeasible_paths=stats.infeasible,
        incomplete_paths=stats.incomplete, unsupported=sorted(set(stats.unsupported))[:20],
        exhaustive=(stats.incomplete == 0 and stats.unknown == 0 and not timeouts),
        probes_outside_fragment=nprobe, reached=covered, witness_mismatches=mismatches[:10], scenarios=per, notes=notes,
        known_findings_seen=sorted(kprinted), timeouts=timeouts)
    if level != 'exploration':
        cov.pop('evaluations'), cov.pop('distinct_nontrivial'), cov.pop('rule')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2),
              violations=len(violations), assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s %s: %d scenarios, %d paths, %d assertions (%d unsat), %d queries, %.1fs solver, %d witnesses validated, "
          "incomplete=%d unknown=%d, %.1fs" % (pid, tier, len(scs), stats.paths, stats.asserts, stats.asserts_unsat,
                                               stats.queries, stats.solver_s, validated, stats.incomplete,
                                               stats.unknown, wall))
    for m in mismatches[:3]:
        print("NOTE: witness mismatch", m)
    for m in notes:
        print("NOTE:", m)
    for u in sorted(set(stats.unsupported))[:8]:
        print("NOTE: unsupported", u)
    if timeouts:
        print("NOTE: timed out:", timeouts[:10])
    if os.environ.get('VERIF_VERBOSE'):
        for p in sorted(per, key=lambda p: (not p['incomplete'], -p['wall_s']))[:15]:
            print('   ', p)
        print('   covered', covered)
    for l in out:
        print(l)
    return rc


def _short(d):
    s = json.dumps(d)
    return d if len(s) < 1500 else s[:1500]


def replay_one(path):
    with open(path) as fh:
        j = json.load(fh)
    r = run_replays(j['property'], j.get('tier', 'quick'), [dict(scenario=j['scenario'], inputs=j['inputs'])])[0]
    print(json.dumps(r, indent=1))
    return 1 if r['status'] in ('failed', 'exception', 'killed') else 0
