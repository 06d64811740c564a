"""Proves the lemmas with Verus. spec.rs, the arithmetic of the harnesses, is translated here: `pub fn`
becomes `pub open spec fn`, and usize becomes int; nothing else changes."""
import os, re, subprocess, time
from kani import VERIF, BUILD, CheckError


def text():
    spec = open(os.path.join(VERIF, 'contracts', 'src', 'spec.rs')).read()
    spec = re.sub(r'//[^\n]*', '', spec)
    spec = spec.replace('pub fn', 'pub open spec fn').replace('usize', 'int')
    body = open(os.path.join(VERIF, 'lemmas', 'pipeline.rs')).read()
    return 'use vstd::prelude::*;\nuse vstd::arithmetic::div_mod::*;\nverus! {\n%s\n%s\n}\nfn main() {}\n' % (spec, body)


def run(v, u):
    d = os.path.join(BUILD, 'lemmas-' + v.prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'lemmas.rs')
    open(p, 'w').write(text())
    cmd = ['verus', '--num-threads', '4', p]
    t = time.time()
    r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', r.stdout)
    if not m or r.returncode or int(m.group(2)):
        raise CheckError('the lemmas are not proved:\n' + r.stdout[-2000:])
    v.count('Verus (Z3)', int(m.group(1)))
    v.cmds.append(' '.join(cmd))
    v.solver_s += time.time() - t
    v.units.append({'unit': 'lemmas/pipeline.rs', 'lemmas': int(m.group(1)), 'wall_s': round(time.time() - t, 1)})
