#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree. See DESIGN.md."""
import json, os, subprocess, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import kani
from plan import PLAN
from kani import VERIF, BUILD, CheckError

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Verdict:
    """What a check found: obligations and, where they fail, why."""
    def __init__(self, prop):
        self.prop = prop
        self.units = []
        self.violations = []   # (what, harness, text, reproduced)
        self.obligations = self.discharged = self.auto = 0
        self.bounded, self.tested, self.cmds, self.notes = [], [], [], []
        self.solver_s = 0.0
        self.functions = set()
        self.backends = {}

    def count(self, backend, n, ok=True):
        self.obligations += n
        if ok:
            self.discharged += n
            self.backends[backend] = self.backends.get(backend, 0) + n


def replay_args(outs):
    a = [['rec', ','.join(v.hex() for v in vals)] for vals in outs]
    return a + [['rand', str(SEED + 1), '300000']]


def kani_unit(v, u):
    prop = v.prop.lower()
    crate, build_cfgs, feats = u['prepare']() if 'prepare' in u else (os.path.join(VERIF, u.get('crate', 'contracts')), [], None)
    feats = u.get('features', feats)
    cfgs = [prop] + build_cfgs + u.get('cfgs', [])
    thorough = TIER == 'thorough'
    if thorough:
        cfgs.append('thorough')
    tag = v.prop + u.get('tag', '')
    sel = u['harnesses'] + (u.get('more', []) if thorough else [])
    to = 1800 if thorough else u.get('timeout', 240)
    res, cmd, secs = kani.run(crate, cfgs, sel, tag, timeout=to, features=feats, reach=thorough, jobs=u.get('jobs', 8), mem=u.get('mem', 14), extra=u.get('extra', ()))
    v.cmds.append(cmd)
    if len(res) < u['expect']:
        raise CheckError('only %d of at least %d harnesses were generated' % (len(res), u['expect']))
    again = [r.name for r in res if r.verdict == 'undecided']
    if again:
        for r in res:
            if r.verdict == 'undecided':
                v.notes.append('%s not decided for all inputs: %s' % (r.name, '; '.join(d for d, _ in r.undecided[:3])))
        more, cmd2, s2 = kani.run(crate, cfgs + ['small'], again, tag + '-small', timeout=300, features=feats, exact=True, jobs=4, mem=14)
        v.cmds.append(cmd2)
        res = [r for r in res if r.verdict != 'undecided'] + more
        for r in more:
            v.bounded.append(r.name + ' (fallback: lengths up to 5)')
    for r in res:
        v.solver_s += r.solver_s
        v.auto += r.auto
        bounded = any(x in r.name for x in u.get('bounded', ()))
        if bounded:
            v.bounded.append(r.name)
        n = len(r.obs)
        if r.verdict == 'holds':
            if not r.covers:
                raise CheckError('%s holds vacuously: its end cannot be reached' % r.name)
            if not bounded:
                v.count('Kani/CBMC (CaDiCaL)', n)
        elif r.verdict == 'fails':
            bad = sorted(set(r.failed))
            v.count('Kani/CBMC (CaDiCaL)', n)
            v.count('', len(bad), ok=False)
            ok = [b for b in bad if b[0].startswith('OB:')] or bad
            v.violations.append(diagnose(v, u, crate, cfgs, feats, r, ok, tag))
            if len(v.violations) >= 2:
                break
        else:
            # Bounded stand-in: the contract is executed on generated inputs.
            rep, text = kani.native(crate, cfgs, r.name, tag, [['rand', str(SEED), '400000']], features=feats, name=u.get('name', 'contracts')) if u.get('native', True) else (False, 'native build failed')
            if rep:
                v.violations.append((r.name, '; '.join(d for d, _ in r.undecided), text, True))
            elif 'native build failed' in text:
                raise CheckError('%s is undecided: %s\n%s' % (r.name, r.undecided[:3], text[:500]))
            else:
                v.tested.append(r.name + ': not decided by the verifier (%s), contract executed on 400000 generated inputs' % (r.undecided[0][0] if r.undecided else 'no answer'))
    v.units.append({'unit': u.get('crate', u.get('tag', '')), 'harnesses': len(res), 'wall_s': round(secs, 1)})


def diagnose(v, u, crate, cfgs, feats, r, bad, tag):
    what = '; '.join('%s (%s)' % b for b in bad[:4])
    text = 'harness: %s\nfailed obligations:\n%s\n' % (r.name, '\n'.join('  %s at %s' % b for b in bad))
    if not u.get('native', True):
        return (r.name, what, text, False)
    small = cfgs + ['small']
    outs, out = kani.playback(crate, small, r.name, tag + '-small', features=feats)
    text += '\nverifier, on the smallest instances:\n' + '\n'.join(l for l in out.splitlines() if 'Status: FAIL' in l or 'Description' in l or 'FAILURE' in l)[-3000:]
    rep, t = kani.native(crate, cfgs, r.name, tag, replay_args(outs[:6]), features=feats, name=u.get('name', 'contracts'))
    text += '\nreplay on the code as compiled by rustc:\n' + t
    return (r.name, what, text, rep)


def main():
    prop = sys.argv[1]
    t0 = time.time()
    plan = PLAN[prop]
    v = Verdict(prop)
    try:
        for u in plan['units']:
            if u.get('tier') == 'thorough' and TIER != 'thorough':
                continue
            (u['run'] if 'run' in u else kani_unit)(v, u)
            if v.violations:
                break
    except CheckError as e:
        if not v.violations:
            print('ERROR: %s: %s' % (prop, e))
            sys.exit(2)
    except Exception:
        traceback.print_exc()
        if not v.violations:
            sys.exit(2)
    known = [l for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')) if l.startswith('known: property=%s ' % prop)]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': plan['level'], 'wall_s': round(time.time() - t0, 1),
        'coverage': {
            'obligations': v.obligations, 'discharged': v.discharged,
            'automatic_checks': v.auto,
            'discharged_by': v.backends,
            'checker_cmd': v.cmds[0] if v.cmds else '',
            'other_cmds': v.cmds[1:],
            'trusted_base': plan['trusted'],
            'functions_under_contract': plan['functions'],
            'bounded': v.bounded + plan.get('bounded_note', []),
            'tested_only': v.tested,
            'units': v.units, 'solver_s': round(v.solver_s, 1), 'notes': v.notes,
        },
    }
    if plan['level'] != 'proof':
        ev['coverage']['explanation'] = plan.get('explanation', '')
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rc = 0
    d = os.path.join(VERIF, '.build', 'replay')
    os.makedirs(d, exist_ok=True)
    for i, (h, what, text, rep) in enumerate(v.violations):
        p = os.path.join(d, '%s-%d.txt' % (prop, i))
        with open(p, 'w') as f:
            f.write('property %s\nfailed: %s\n%s\n' % (prop, what, text))
        hit = [k for k in known if k.split()[2] in what]
        if hit:
            print('KNOWN-FINDING: ' + hit[0].split(' ', 1)[1].strip())
            continue
        print('failed: %s: %s' % (h, what))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if rep else ' no-failing-input-found'))
        rc = 1
    if rc == 0:
        print('%s: %d obligations, %d discharged, %d automatic checks, %.0f s' % (prop, v.obligations, v.discharged, v.auto, time.time() - t0))
        for n in v.notes + v.tested:
            print('note: ' + n)
    sys.exit(rc)


main()
