#!/usr/bin/env python3
"""Decides one property of /repo's current tree:  check.py <PROPERTY> [--thorough]

exit 0  every obligation discharged (apart from findings listed in known-findings.txt)
exit 1  `VIOLATION property=<id> replay=<file>`: an obligation fails
exit 2  no answer (the tree does not compile, internal error)"""
import hashlib, importlib, json, multiprocessing, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.setrecursionlimit(20000)
import build
import lib
import interp
from registry import CHECKS

_cx = None


def part(job):
    """Runs one part of a check in a worker process."""
    mod, fn, args = job
    cx = lib.Ctx.fork(_cx)
    t = time.time()
    try:
        getattr(importlib.import_module(mod), fn)(cx, *args)
    except lib.Missing as e:
        cx.fail(f'anchor.{fn}{list(args) or ""}: {e}', f'the code this property is anchored in was not found: {e}')
    except interp.Limit as e:
        cx.fail(f'undecided.{fn}{list(args) or ""}', f'not decided within the analysis bounds: {e}')
    except Exception as e:
        # the code has a shape the rule does not know: like a bound that is exceeded, not decided
        if '--debug' in sys.argv:
            return None, [], traceback.format_exc(), job, 0
        cx.fail(f'undecided.{fn}{list(args) or ""}', f'the code has an unexpected form: {type(e).__name__} {e} at {traceback.format_exc().strip().splitlines()[-3].strip()}')
    return cx.obs, cx.notes, sorted(cx.analysed), job, time.time() - t


def known(pid):
    """Obligation keys of recorded findings."""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else ():
        m = re.match(r'finding: property=(\S+) key=<(.*?)> (.*)', l.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def main():
    global _cx
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    spec = CHECKS[pid]
    try:
        out, digest, cached = build.ensure_facts()
    except build.BuildError as e:
        print(f'no answer: the tree could not be analysed\n{e}')
        return 2
    _cx = lib.Ctx(out, pid, tier)
    jobs = [(m, f, tuple(a)) for m, f, parts in spec['run'] for a in (parts or [()])]
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as pool:
        res = pool.map(part, jobs, chunksize=1)
    obs, notes, analysed = [], [], set()
    for o, n, a, job, t in res:
        if o is None:
            print(f'no answer: internal error in {job}\n{a}')
            return 2
        obs += o
        notes += n
        analysed |= set(a)
        if '--times' in sys.argv:
            print(job, round(t, 1), len(o))
    floor = spec.get('floor', 2) // 2
    if len(obs) < floor:
        obs.append(('floor', False, f'only {len(obs)} obligations were generated, {floor} are expected', ''))
    kn = known(pid)
    bad = {}
    for k, ok, msg, loc in obs:
        if not ok:
            bad.setdefault(k, (msg, loc))
    new = {k: v for k, v in bad.items() if k not in kn}
    old = {k: v for k, v in bad.items() if k in kn}
    F = _cx.F
    fns = sorted(F.fns[f].path for f in analysed if f in F.fns)
    level = spec['level']
    cov = {'obligations': len(obs), 'discharged': sum(1 for o in obs if o[1]),
           'checker_cmd': f'python3 check.py {pid}' + (' --thorough' if tier == 'thorough' else ''),
           'trusted_base': ['rustc front end (MIR construction, type and trait resolution)', '/verif/driver (MIR to facts)',
                            '/verif/engine (abstract interpreter, automata)', '/verif/models and built-in library semantics',
                            'the rule tables in /verif/rules'],
           'rule': spec['rule'],
           'explanation': spec['rule'],
           'tree': digest, 'functions_in_program': len(F.fns), 'functions_analysed': len(fns),
           'functions': fns[:400], 'notes': notes[:60],
           'samples': [{'obligation': k, 'what': m, 'at': l} for k, ok, m, l in obs[:: max(1, len(obs) // 12)]][:14]}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'assumptions': spec.get('assumptions', [])}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if old:
        ev['known_findings'] = sorted(old)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1)
    for k, (msg, loc) in sorted(old.items()):
        print(f'KNOWN-FINDING: property={pid} {k}: {kn[k]}')
    rep = os.path.join(HERE, 'evidence', f'{pid}.violations.txt')
    if os.path.exists(rep):
        os.remove(rep)
    if new:
        with open(rep, 'w') as f:
            f.write(f'{spec["rule"]}\n\n')
            for k, (msg, loc) in sorted(new.items()):
                f.write(f'{k}\n  {msg}\n  at {loc}\n')
        for k, (msg, loc) in sorted(new.items())[:12]:
            print(f'  {k}: {msg} ({loc})'[:600])
        print(f'VIOLATION property={pid} replay={rep}')
        return 1
    print(f'{pid}: {cov["discharged"]} of {len(obs)} obligations discharged, {len(fns)} functions analysed, {ev["wall_s"]} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
