"""Runs contract harnesses with Kani and turns its answers into verdicts."""
import json, os, re, resource, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')

UNDECIDED = ('unwinding assertion', 'recursion unwinding', 'is not currently supported', 'unsupported', 'missing function', 'no body')


class CheckError(Exception):
    """The check itself cannot give an answer."""


def env(cfgs):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTFLAGS'] = ' '.join('--cfg ' + c for c in cfgs)
    e.pop('CARGO_TARGET_DIR', None)
    return e


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


class Result:
    def __init__(self, r, solver):
        self.name = r['harness_id']
        self.status = r['status']
        self.secs = r['duration_ms'] / 1000
        self.solver_s = solver
        self.obs, self.auto, self.failed, self.undecided, self.covers = [], 0, [], [], 0
        self.uncovered = []
        for c in r['checks']:
            d, st = c['description'], c['status']
            at = '%s:%s' % (c['location'].get('file', '?'), c['location'].get('line', '?'))
            if st in ('Satisfied', 'Unsatisfiable', 'Unsatisfied') or c.get('category') == 'cover':
                if st == 'Satisfied':
                    self.covers += 1
                else:
                    self.uncovered.append(d)
                continue
            if st in ('Success', 'Unreachable'):
                if d.startswith('OB:'):
                    self.obs.append(d)
                else:
                    self.auto += 1
            elif st == 'Failure':
                u = any(x in d for x in UNDECIDED) or c.get('category') in ('unwind', 'unsupported_construct')
                (self.undecided if u else self.failed).append((d, at))
            else:
                self.undecided.append((d + ' [' + st + ']', at))
        if 'refuses' in self.name and r['checks']:
            # Must panic, and do nothing worse: the verifier's overall status says so.
            self.covers, self.undecided = 1, []
            d = 'OB: refused with a panic'
            self.failed, self.obs = ([], [d]) if self.status == 'Success' else ([(d, self.name)], [])
        if not r['checks']:
            self.undecided.append(('no answer from the verifier (time or memory)', ''))

    @property
    def verdict(self):
        # A failure next to a loop that was not unrolled enough is still a real trace.
        if self.failed:
            return 'fails'
        if self.undecided or self.status != 'Success':
            return 'undecided'
        return 'holds'


def run(crate, cfgs, harnesses, tag, timeout=300, jobs=8, exact=False, reach=False, extra=(), mem=14, wall=None, features=None):
    """Returns a list of Result. `harnesses` are substrings of names (or names)."""
    out = os.path.join(BUILD, tag + '.json')
    log = os.path.join(BUILD, tag + '.log')
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    cmd = ['cargo', 'kani', '--target-dir', os.path.join(BUILD, 'kani-' + tag), '-j', str(jobs), '--output-format=terse',
           '-Z', 'unstable-options', '--export-json', out, '--harness-timeout', '%ds' % timeout]
    if features:
        cmd += ['--features', features]
    if not reach:
        cmd += ['--no-assertion-reach-checks']
    if exact:
        cmd += ['--exact']
    for h in harnesses:
        cmd += ['--harness', h]
    cmd += list(extra)
    t = time.time()
    with open(log, 'w') as f:
        try:
            subprocess.run(cmd, cwd=crate, env=env(cfgs), stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(mem), timeout=wall)
        except subprocess.TimeoutExpired:
            subprocess.run(['pkill', '-f', out], check=False)
    text = open(log, errors='replace').read()
    if not os.path.exists(out):
        m = re.search(r'^error.*?(?=\n\n|\Z)', text, re.S | re.M)
        raise CheckError('the contracts do not build, or the verifier gives no results (%s):\n%s' % (log, m.group(0)[:1500] if m else text[-1500:]))
    d = json.load(open(out))
    solver = {c['harness_id']: (c.get('cbmc_stats') or {}).get('runtime_solver_s') or 0 for c in d.get('cbmc', [])}
    res = [Result(r, solver.get(r['harness_id'], 0)) for r in d['verification_results']['results']]
    return res, ' '.join(cmd), time.time() - t


def playback(crate, cfgs, harness, tag, timeout=240, features=None, mem=14):
    """Counterexample of a failing harness, as a list of byte strings, or None."""
    cmd = ['cargo', 'kani', '--target-dir', os.path.join(BUILD, 'kani-' + tag), '--output-format=regular',
           '-Z', 'unstable-options', '-Z', 'concrete-playback', '--concrete-playback=print', '--no-assertion-reach-checks',
           '--harness-timeout', '%ds' % timeout, '--exact', '--harness', harness]
    if features:
        cmd += ['--features', features]
    try:
        p = subprocess.run(cmd, cwd=crate, env=env(cfgs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limits(mem), timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        return [], ''
    # One test per failing check; covers have theirs, too.
    outs = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', p.stdout, re.S):
        outs.append([bytes(int(x) for x in v.split(',') if x.strip()) for v in re.findall(r'vec!\[([\d, ]*)\]', m.group(1))])
    return outs, p.stdout


def native(crate, cfgs, harness, tag, args, timeout=120, features=None, name='contracts'):
    """Runs a harness as compiled by rustc. Returns (reproduced, output)."""
    d = os.path.join(BUILD, 'native-' + tag)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    feat = ', features = ["%s"]' % features if features else ''
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "native"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n%s = { path = "%s"%s }\n[profile.dev]\nopt-level = 1\n' % (name, crate, feat))
    with open(os.path.join(d, 'src', 'main.rs'), 'w') as f:
        f.write('fn main() { %s::native::main(%s::%s) }\n' % (name, name, harness))
    lock = os.path.join(crate, 'Cargo.lock')
    if os.path.exists(lock):
        subprocess.run(['cp', lock, d + '/Cargo.lock'])
    b = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=env(cfgs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        return False, 'native build failed:\n' + b.stdout[-2000:]
    text = ''
    for a in args:
        try:
            p = subprocess.run([os.path.join(d, 'target', 'debug', 'native')] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, preexec_fn=limits(8))
        except subprocess.TimeoutExpired:
            text += 'timed out: %s\n' % a
            continue
        text += p.stdout
        if p.returncode == 3 or p.returncode < 0:
            if p.returncode < 0:
                text += 'REPRODUCED: killed by signal %d\n' % -p.returncode
            return True, text
    return False, text
