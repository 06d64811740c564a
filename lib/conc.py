"""Prepares the code under contract for the concurrent setting: a copy of /repo's sources in which `core`
names the crate vcore (everything else is unchanged), and a crate of harnesses on top of it."""
import os, shutil
from kani import VERIF, BUILD, CheckError

REPO = '/repo'


def prepare(tag, src='conc/src', shims=(('core', 'vcore'),), deps='', features='"async"'):
    d = os.path.join(BUILD, tag)
    os.makedirs(d, exist_ok=True)
    mrb = os.path.join(d, 'mrb')
    if os.path.exists(mrb):
        shutil.rmtree(mrb)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(mrb, 'src'))
    for f in os.listdir(REPO):
        if f.endswith('.md'):
            shutil.copy(os.path.join(REPO, f), mrb)
    p = os.path.join(mrb, 'src', 'lib.rs')
    text = open(p).read()
    lines = text.split('\n')
    # After the inner attributes and doc comments.
    at = [i for i, l in enumerate(lines) if l.startswith('#![')]
    if not at:
        raise CheckError('no crate attributes in src/lib.rs')
    lines[at[-1] + 1:at[-1] + 1] = ['extern crate %s as %s;' % (v, k) for k, v in shims]
    open(p, 'w').write('\n'.join(lines))
    vc = os.path.join(VERIF, 'conc', 'vcore')
    open(os.path.join(mrb, 'Cargo.toml'), 'w').write('''[package]
name = "mutringbuf"
version = "0.5.1"
edition = "2021"
[lib]
path = "src/lib.rs"
[features]
default = ["alloc"]
alloc = []
vmem = ["alloc"]
async = []
[dependencies]
crossbeam-utils = { version = "0.8.21", default-features = false }
vcore = { path = "%s" }
%s
[lints.rust]
unexpected_cfgs = "allow"
''' % (vc, deps))
    c = os.path.join(d, 'crate')
    os.makedirs(c, exist_ok=True)
    open(os.path.join(c, 'Cargo.toml'), 'w').write('''[package]
name = "conc"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "%s/lib.rs"
[dependencies]
mutringbuf = { path = "%s", features = [%s] }
vcore = { path = "%s" }
%s
[lints.rust]
unexpected_cfgs = "allow"
''' % (os.path.join(VERIF, src), mrb, features, vc, deps))
    lock = os.path.join(VERIF, 'contracts', 'Cargo.lock')
    return c
