"""python3 -m dsa.check <ID> [--only PATTERN] [--tier quick|thorough] [--jobs N]

Decides the obligations of one property on /repo's current source.
exit 0: no obligation refuted; exit 1: VIOLATION line; exit 2: nothing could be analysed.
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

sys.setrecursionlimit(20000)
from . import framework as fw      # noqa: E402

EVID = os.path.join(fw.VERIF, 'evidence')


def job(args):
    mod, name, inst, fb, cfg = args
    try:
        obl = {(m, n): (node, doc) for m, n, node, doc in SPECS}[(mod, name)]
        node, doc = obl
        t0 = time.time()
        if time.time() > cfg['deadline'] or STOP.value:
            R = fw.Result(name, inst[0])
            R.undec = 1
            R.why = ['not analysed: another obligation is refuted' if STOP.value else 'check deadline']
            return pack(R, mod, fb)
        left = float(doc.get('time', cfg['time']))
        R = fw.run_instance(mod, name, node, doc, inst, dict(cfg, time=left, **({'max_paths': int(doc['paths'])} if 'paths' in doc and 'max_paths' not in cfg else {})))
        return pack(R, mod, fb)
    except Exception:
        R = fw.Result(name, inst[0])
        R.undec = 1
        R.why = ['internal: ' + traceback.format_exc()[-400:]]
        return pack(R, mod, fb)


def pack(R, mod, fb):
    return {'mod': mod, 'name': R.name, 'label': R.label, 'fb': fb, 'paths': R.paths, 'eq': R.eq, 'agree': R.agree, 'undec': R.undec, 'leaves': R.leaves,
            'infeasible': R.infeasible, 'diff': R.diff, 'why': R.why[:4], 'used': ['%s:%s' % u for u in R.used], 'time': round(R.time, 2)}


# effect properties: every scenario of the other properties is analysed for this kind of effect
CORPUS = {'C13': 'rng', 'C28': 'writes'}
# properties with a whole-program rule (dsa/callgraph.py)
RULES = {'C13': 'random_rules'}
SPECS = []
STOP = mp.Value('i', 0)


def known(pid):
    out = {}
    p = os.path.join(fw.VERIF, 'known_findings.txt')
    for line in open(p):
        m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3).strip()
    return out


def main():
    global SPECS
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--only', default='')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DSA_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    thorough = o.tier == 'thorough'
    cfg = {'time': 120 if thorough else 40, 'deadline': t0 + (800 if thorough else 600), 'nval': 12 if thorough else 5, 'maxsize': 3 if thorough else 2, 'seed': seed}
    SPECS = [s for s in fw.load_specs(o.pid) if o.only in s[1]]
    jobs = []
    for mod, name, node, doc in SPECS:
        for inst in fw.instances(node, doc):
            jobs.append((mod, name, inst, False, cfg))
    if o.pid in CORPUS:
        ecfg = dict(cfg, effects=CORPUS[o.pid], time=60 if thorough else 12, max_paths=400 if thorough else 80, nval=3, stop_undec=True)
        for f in sorted(os.listdir(os.path.join(fw.VERIF, 'specs'))):
            m = re.match(r'(c\d+)\w*\.py$', f)
            if not m or m.group(1).upper() in CORPUS:
                continue
            for mod, name, node, doc in fw.load_specs(m.group(1).upper()):
                if mod + '.py' != f or o.only not in 'effects:%s.%s' % (mod, name):
                    continue
                SPECS.append((mod, name, node, dict(doc, time=ecfg['time'])))
                insts = fw.instances(node, doc)
                for inst in insts if thorough else insts[:1] + insts[1:][-1:]:
                    jobs.append((mod, name, inst, False, ecfg))
    order = sorted(jobs, key=lambda j: -float({(m, n): d for m, n, _, d in SPECS}[(j[0], j[1])].get('cost', 1)))
    res = []
    kf = known(o.pid)
    with mp.Pool(min(o.jobs, max(1, len(jobs)))) as pool:
        docs = {(m, n): (node, doc) for m, n, node, doc in SPECS}
        pend = []
        for j in order:
            pend.append(pool.apply_async(job, (j,)))
        fbj = {}
        ndone = 0
        fbs = []
        for p in pend:
            r = p.get()
            res.append(r)
            if o.v:
                show(r)
            k = (r['mod'], r['name'])
            if r['diff'] and not thorough and '%s.%s' % k not in kf:
                STOP.value = 1
            if (r['undec'] or thorough) and r['diff'] is None and k not in fbj and not effect(k, o.pid):
                node, doc = docs[k]
                fbj[k] = [pool.apply_async(job, ((k[0], k[1], inst, True, cfg),)) for inst in fw.instances(node, doc, True)]
        for k, ps in fbj.items():
            for p in ps:
                r = p.get()
                r['fallback'] = True
                res.append(r)
                if o.v:
                    show(r)
    extra = {}
    if o.pid in RULES:
        from . import callgraph
        found, extra = getattr(callgraph, RULES[o.pid])(fw.REPO)
        for name, v in found:
            if o.only in 'rule:' + name:
                R = fw.Result(name, 'whole program')
                R.paths = R.leaves = R.eq = 1
                R.used = {tuple(name.split(':', 1)): True}
                if v:
                    R.diff = {'label': 'call graph:', 'why': '; '.join(v), 'guards': [], 'witness': {}}
                res.append(pack(R, 'rule', False))
    return report(o, cfg, res, t0, seed, extra)


def effect(k, pid):
    """Does the obligation belong to the effect analysis of another property's scenario?"""
    return pid in CORPUS and not k[0].startswith(pid.lower())


def show(r):
    print('%s%s.%s [%s] parts=%d eq=%d agree=%d undec=%d infeas=%d %.1fs %s %s' % ('  fb ' if r['fb'] else '', r['mod'], r['name'], r['label'], r['paths'], r['eq'], r['agree'], r['undec'], r['infeasible'],
          r['time'], ('DIFF ' + json.dumps(r['diff'])) if r['diff'] else '', r['why'] if r['undec'] else ''), flush=True)


def report(o, cfg, res, t0, seed, extra=None):
    pid = o.pid
    os.makedirs(EVID, exist_ok=True)
    kf = known(pid)
    viol = {}
    for r in res:
        if r['diff']:
            viol.setdefault((r['mod'], r['name']), r)
    # obligation status: discharged when its symbolic run or all its fallback runs are complete
    status = {}
    by = {}
    for r in res:
        by.setdefault((r['mod'], r['name']), []).append(r)
    for k, rs in by.items():
        if k in viol:
            status[k] = 'refuted'
            continue
        main = [r for r in rs if not r['fb']]
        if all(r['paths'] == r['infeasible'] and not r['undec'] for r in rs):
            if effect(k, pid):
                status[k] = 'no feasible partition'
                continue
            status[k] = 'undecided'
            main[0]['why'] = ['no feasible partition']
            continue
        fb = [r for r in rs if r['fb']]
        if all(r['undec'] == 0 for r in main):
            status[k] = 'discharged'
        elif fb and all(r['undec'] == 0 for r in fb) and any(r['eq'] + r['agree'] for r in fb):
            status[k] = 'discharged at fixed sizes'
        else:
            status[k] = 'undecided'
    used = sorted({u for r in res for u in r['used']})
    # suspiciousness: analysed functions that occur mostly on refuted obligations come first
    bad, good = {}, {}
    for r in res:
        for u in r['used']:
            d = bad if r['diff'] else good
            d[u] = d.get(u, 0) + 1
    for r in viol.values():
        r['used'] = sorted(r['used'], key=lambda u: (-bad.get(u, 0) / (bad.get(u, 0) + good.get(u, 0)), u.endswith('__init__'), -bad.get(u, 0), r['used'].index(u)))
    rc = 0
    nviol = 0
    for k, r in sorted(viol.items()):
        key = '%s.%s' % k
        if key in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[key]))
            continue
        nviol += 1
        rp = os.path.join(EVID, '%s-%s.json' % (pid, re.sub(r'[^\w.-]+', '_', k[1])[-80:]))
        with open(rp, 'w') as fh:
            json.dump({'property': pid, 'obligation': '%s: %s' % k if k[0] == 'rule' else ('effects of scenario %s.py: impl_%s' % k) if effect(k, pid) else '%s.py: impl_%s / spec_%s' % (k[0], k[1], k[1]), 'instance': r['label'], 'construct': r['used'], 'difference': r['diff'],
                       'replay': 'cd /verif && python3 -m dsa.check %s --only %s -v' % (pid, k[1])}, fh, indent=1)
        d = r['diff']
        print('obligation %s [%s]: %s %s' % (key, r['label'], d['label'], d['why']))
        if d.get('where'):
            print('  raised at %s' % d['where'])
        print('  construct: %s (other functions on this path: %s)' % (r['used'][0] if r['used'] else '-', ', '.join(r['used'][1:6])))
        if d.get('guards'):
            print('  partition: %s' % '; '.join(d['guards'])[:600])
        if d.get('witness'):
            print('  valuation: %s' % json.dumps(d['witness'])[:400])
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, fw.VERIF)))
        rc = 1
    skipped = []
    for k, s in sorted(status.items()):
        if s == 'undecided':
            w = [x for r in by[k] for x in r['why']][:2]
            if w and w[0].startswith('not analysed: another'):
                skipped.append(k)
                continue
            print('UNDECIDED %s.%s: %s' % (k[0], k[1], ' | '.join(w)[:500]))
    if skipped:
        print('%d obligations were not analysed because another one is refuted' % len(skipped))
    cnt = {}
    for s in status.values():
        cnt[s] = cnt.get(s, 0) + 1
    total = len(status)
    disc = cnt.get('discharged', 0) + cnt.get('discharged at fixed sizes', 0)
    cov = {
        'explanation': 'Abstract interpretation of the current source with a normal-form term domain (global value numbering over symbolic arrays), trace partitioning at branches and loop summaries. '
                       'Each obligation compares the abstract value computed by the analysed functions with the abstract value of its required definition, for all sizes and entries declared symbolic; '
                       'entries whose normal forms differ are compared by random interpretation of the two terms. No code of the repository is executed.',
        'obligations': total, 'discharged': disc,
        'obligations_discharged_at_fixed_sizes_only': sorted('%s.%s' % k for k, s in status.items() if s == 'discharged at fixed sizes'),
        'obligations_undecided': sorted('%s.%s' % k for k, s in status.items() if s == 'undecided'),
        'instances': len([r for r in res if not r['fb']]), 'fixed_size_instances': len([r for r in res if r['fb']]),
        'trace_partitions': sum(r['paths'] for r in res), 'infeasible_partitions': sum(r['infeasible'] for r in res), 'compared_leaves': sum(r['leaves'] for r in res),
        'leaves_equal_normal_form': sum(r['eq'] for r in res), 'leaves_equal_by_random_interpretation': sum(r['agree'] for r in res),
        'functions_analysed': len(used), 'functions': used,
        'rule': 'abstract value of impl_X equals abstract value of spec_X on every trace partition (specs/%s*.py)' % pid.lower(),
        'samples': [{'obligation': '%s.%s' % (r['mod'], r['name']), 'instance': r['label'], 'partitions': r['paths'], 'leaves': r['leaves'], 'equal': r['eq'], 'agree': r['agree']} for r in res[:6]],
    }
    if extra:
        cov['whole_program_rule'] = extra
    if pid in CORPUS:
        cov['explanation'] += {'rng': ' Effect analysis: every scenario of the other properties is interpreted and each use of the random state is attributed to the functions on the stack; whole-program call-graph rule: no function outside the sanctioned ones reaches a random primitive.',
                               'writes': ' Effect analysis: every scenario of the other properties is interpreted; objects reachable from the arguments of each call that enters the repository are compared before and after the call.'}[CORPUS[pid]]
    ev = {'property': pid, 'tier': 'thorough' if o.tier == 'thorough' else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['NumPy, SciPy and CVXPY behave as in the models of dsa/npcore.py, dsa/npfuncs.py and dsa/ext.py', 'real arithmetic: rounding is not modelled', 'inputs satisfy the ranges declared in the obligation'],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    if not o.only:
        with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %s; %d functions analysed, %.1fs' % (pid, total, ', '.join('%d %s' % (v, k) for k, v in sorted(cnt.items())), len(used), time.time() - t0))
    if total == 0 or (disc == 0 and nviol == 0 and cnt.get('refuted', 0) == 0 and not any(r['eq'] + r['agree'] for r in res)):
        print('nothing could be analysed')
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
