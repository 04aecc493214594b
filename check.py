#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay FILE | --list"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VT = '/opt/veriftools/pyvenv/bin/python'
try:
    import z3  # noqa
except ImportError:
    for cand in (VT, '/usr/local/bin/python3-vt', '/usr/bin/python3-vt'):
        if os.path.exists(cand) and os.environ.get('VX_REEXEC') != '1':
            os.environ['VX_REEXEC'] = '1'
            os.execv(cand, [cand] + sys.argv)
    raise

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from vc import build, contract  # noqa


def load(prop):
    contract.REGISTRY.clear()
    importlib.import_module('contracts.' + prop)
    return contract.REGISTRY.get(prop, [])


def job(args):
    prop, idx, tier, seed, q = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    c = contract.REGISTRY[prop][idx]
    try:
        r = contract.run_contract(c, tier, seed)
    except MemoryError:
        r = dict(id=c.id, failed=['*'], errors=['out of memory'], obligations=[dict(label=e.label, status='undecided') for e in c.ens],
                 violation=None, native=None, side=0, loops=[], mode=None, wall=0, trail=[], stats={}, function=c.fname,
                 harness=c.harness, title=c.title, note=None)
    except BaseException as e:
        import traceback
        r = dict(id=c.id, failed=['*'], errors=['internal ' + traceback.format_exc()[-1500:]],
                 obligations=[dict(label=e.label, status='undecided') for e in c.ens], violation=None, native=None, side=0, loops=[],
                 mode=None, wall=0, trail=[], stats={}, function=c.fname, harness=c.harness, title=c.title, note=None)
    q.put((idx, r))


def run_all(prop, cs, tier, seed, limit, only=None):
    """each contract in its own process, 8 at a time"""
    build.tmpdir()
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    # build all harnesses first, in parallel
    todo = {}
    for c in cs:
        todo[(c.harness, c.defs)] = 1
    procs = []

    def b(h, d, native):
        try:
            (build.native if native else build.to_ir)(h, d)
        except build.BuildError:
            pass
    for (h, d) in todo:
        for nat in (False, True):
            p = ctx.Process(target=b, args=(h, d, nat))
            p.start()
            procs.append(p)
    for p in procs:
        p.join()
    res = {}
    run = {}
    queue = [i for i in range(len(cs)) if only is None or only in cs[i].id]
    # long ones first
    queue.sort(key=lambda i: -(cs[i].budget or 0))
    end = time.time() + limit
    while queue or run:
        while queue and len(run) < 8:
            i = queue.pop(0)
            p = ctx.Process(target=job, args=((prop, i, tier, seed, q),))
            p.start()
            run[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            res[i] = r
            p, _ = run.pop(i)
            p.join()
            continue
        except Exception:
            pass
        for i, (p, t0) in list(run.items()):
            dead = not p.is_alive()
            if dead:
                try:
                    while True:
                        j, r = q.get(timeout=0.2)
                        res[j] = r
                        if j in run:
                            run.pop(j)[0].join()
                except Exception:
                    pass
                if i in run:
                    run.pop(i)
                    res[i] = stub(cs[i], 'process ended (code %s)' % p.exitcode)
            elif time.time() > end:
                p.kill()
                p.join()
                run.pop(i)
                res[i] = stub(cs[i], 'time limit')
        if time.time() > end:
            for i in queue:
                res[i] = stub(cs[i], 'time limit')
            queue = []
    return [res[i] for i in sorted(res)]


def stub(c, why):
    return dict(id=c.id, failed=['*'], errors=[why], obligations=[dict(label=e.label, status='undecided') for e in c.ens],
                violation=None, native=None, side=0, loops=[], mode=None, wall=0, trail=[], stats={}, function=c.fname,
                harness=c.harness, title=c.title, note=c.note)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                body = line.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


BASE_ASSUME = [
    'machine floating point is treated as exact real arithmetic (rounding is not modelled unless a contract says FP-exact)',
    'machine integers are treated as mathematical integers; contracts bound sizes by 2^32',
    'clang 18 front end and the opt passes sroa/early-cse/instcombine/simplifycfg/always-inline are trusted to preserve meaning',
    'llvm::SmallVector is replaced in the verified instantiation by an unbounded view container (harness/vx.hpp); native replays use the real one',
    'pointer parameters of a contract do not alias',
    'the verifier itself (vc/*.py, about 4000 lines) and z3 are trusted; its closed forms are cross-checked against the compiled code on every run',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    prop = a.prop
    cs = load(prop)
    limit = 780 if a.tier == 'quick' else 5400
    rs = run_all(prop, cs, a.tier, seed, limit, a.only)
    known = known_findings(prop)
    viol = []
    kf = []
    for r in rs:
        if not r['failed'] and not r['violation']:
            continue
        labels = r['failed'] or [o[0] for o in r['violation']['obligations']]
        hit = [k for k in known if k[0].startswith(r['id'] + '#')]
        names = {k[0].split('#', 1)[1] for k in hit}
        vl = set(r['failed']) | {o[0] for o in (r['violation'] or {}).get('obligations', [])}
        if hit and vl and vl <= names:
            for k in hit:
                kf.append(k)
            continue
        viol.append(r)
    obl = sum(len(r['obligations']) for r in rs)
    proved = sum(1 for r in rs for o in r['obligations'] if o['status'] == 'proved')
    bnd = sum(1 for r in rs for o in r['obligations'] if o['status'] == 'bounded')
    side = sum(r['side'] for r in rs)
    mod = sys.modules['contracts.' + prop]
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
        coverage=dict(
            obligations=obl, discharged=proved,
            bounded=bnd, side_obligations_of_loop_summaries=side,
            functions_under_contract=sorted({r['function'] + ' (' + r['title'] + ')' for r in rs}),
            checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, a.tier),
            trusted_base=BASE_ASSUME[:3] + BASE_ASSUME[5:],
            back_ends=dict(ring_normaliser=sum(r['stats'].get('ring', 0) for r in rs), lia_z3=sum(r['stats'].get('lia', 0) for r in rs),
                           nra_z3=sum(r['stats'].get('nra', 0) for r in rs), solver_s=round(sum(r['stats'].get('solver_s', 0) for r in rs), 2)),
            native_witness_runs=sum((r['native'] or {}).get('tested', 0) for r in rs),
            native_postconditions_evaluated=sum((r['native'] or {}).get('evaluated', 0) for r in rs),
            contracts=[dict(id=r['id'], mode=r['mode'], wall_s=round(r['wall'], 1), loops=r['loops'][:6],
                            obligations=[(o['label'], o['status']) for o in r['obligations']][:60],
                            errors=[e[:300] for e in r['errors']][:3]) for r in rs],
        ),
        assumptions=BASE_ASSUME + list(getattr(mod, 'ASSUME', [])) + sorted({n for r in rs for n in [r.get('note')] if n}),
        wall_s=round(time.time() - t0, 1), violations=len(viol))
    if bnd:
        ev['coverage']['bounded_note'] = 'obligations listed as bounded were checked only for the stated sizes and are not counted as discharged'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for r in rs:
        if a.v or r['failed'] or r['violation']:
            print('%-60s %-14s %5.1fs %s' % (r['id'], r['mode'], r['wall'],
                  ' '.join('%s' % o['status'].split(':')[0] for o in r['obligations'])[:80]))
            for e in r['errors']:
                print('    ', e[:600])
            if r['failed']:
                print('     failed obligations:', ', '.join(r['failed'][:10]))
                if a.v:
                    print('     case:', r['trail'])
    for k in kf:
        print('KNOWN-FINDING: property=%s %s :: %s' % (prop, k[0], k[1]))
    print('%s: %d obligations, %d proved, %d bounded, %d contracts, %.1fs' % (prop, obl, proved, bnd, len(rs), time.time() - t0))
    if not viol:
        return 0
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    for r in viol[:5]:
        path = os.path.join(rd, '%s_%s.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in r['id'])[:80]))
        v = r['violation']
        json.dump(dict(property=prop, contract=r['id'], function=r['function'], failed_obligations=r['failed'],
                       failing_input=v, verifier_output=dict(obligations=r['obligations'], errors=r['errors'], case=r['trail'])),
                  open(path, 'w'), indent=1, default=str)
        print('     obligation(s): %s' % (', '.join(r['failed'][:6]) or ', '.join(o[0] for o in v['obligations'][:6])))
        if v:
            print('     failing input: %s' % json.dumps(v['obligations'])[:300])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v else ' no-failing-input-found'))
    return 1


def replay(path):
    d = json.load(open(path))
    cs = load(d['property'])
    c = next(x for x in cs if x.id == d['contract'])
    v = d['failing_input']
    if not v:
        print('no failing input; failed obligations:', d['failed_obligations'])
        return 1
    r = contract.native_batch(c, [v['input']])[0]
    print('native result:', r)
    if r[0] != 'ok':
        return 1
    bad, _ = contract.eval_post(c, v['input'], r[1], r[2])
    print('violated:', bad)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
