"""C16: universally quantified trait obligations, discharged by rustc's trait solver (coherence).

`impl<X: Send> No for X {}` and `impl<..> No for Iter<..> {}` are accepted together if and only if the
solver proves that no instance of Iter<..> is Send. The obligations are appended, as a module, to a copy
of /repo/src, since only within the crate are all impls known, so that the absence of one can be proved."""
import json, os, re, shutil, subprocess, time
from kani import VERIF, BUILD, CheckError

REPO = '/repo'
SYNC = [('ProdIter', "ProdIter<'a, {B}>", ''), ('WorkIter', "WorkIter<'a, {B}>", ''), ('ConsIter', "ConsIter<'a, {B}, W>", 'const W: bool, ')]


def kinds():
    for name, t, g in SYNC:
        yield name, t, g
        yield 'Detached<%s>' % name, 'Detached<%s>' % t, g
        a = 'Async' + t
        yield 'Async' + name, a, g
        yield 'AsyncDetached<Async%s>' % name, 'AsyncDetached<%s, {B}>' % a, g
        yield 'MRBFuture<Async%s>' % name, "MRBFuture<'a, %s, P, O, R>" % a, g + 'P, O, const R: bool, '


def free(g):
    return g.replace('P, O,', 'P: Send + Sync + Copy + Default, O: Send + Sync + Copy + Default,')


def obligations(cfg):
    """(name, generics, type, trait, by coherence): no instance of type is trait."""
    out = []
    stor = []
    if 'alloc' in cfg:
        stor.append(('heap', 'HeapStorage<{T}>', ''))
    if 'vmem' not in cfg:
        stor.append(('stack', 'StackStorage<{T}, N>', 'const N: usize, '))
    for name, t, g in kinds():
        out.append(('%s of a local buffer, of any storage and items, is not Send' % name, "'a, S: Storage, " + g, t.replace('{B}', 'LocalMutRingBuf<S>'), 'Send', True))
        for s, st, sg in stor:
            out.append(('%s of a local %s buffer is not Sync, whatever traits its items have' % (name, s), "'a, " + sg + free(g), t.replace('{B}', 'LocalMutRingBuf<%s>' % st.replace('{T}', 'Full')), 'Sync', False))
        for s, st, sg in stor:
            for item in ['Unsendable', 'Bare', '*const u8'] + (['alloc::rc::Rc<u8>'] if 'alloc' in cfg else []):
                out.append(('%s of a concurrent %s buffer of items that are not Send (%s) is not Send' % (name, s, item), "'a, " + sg + free(g), t.replace('{B}', 'ConcurrentMutRingBuf<%s>' % st.replace('{T}', item)), 'Send', False))
    return out


TYPES = '''#![allow(dead_code)]
use crate::*;
use crate::iterators::*;
use crate::iterators::async_iterators::*;
/// Has everything but Send.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Unsendable(core::marker::PhantomData<*const ()>);
unsafe impl Sync for Unsendable {}
/// Has nothing.
pub struct Bare(*const ());
/// Has everything.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Full(u8);
'''


def probes(obs):
    """The text, what line is about what, and the number of the control, which must be refused: the
    solver tells the difference."""
    lines, at, k = TYPES.splitlines(), {}, len(obs)
    # Ambiguous if (and only if) what is asked about is Send, or Sync. Coherence would do, but does not rely
    # on the negative impls, or the absence of impls, of other crates.
    for tr in ('Send', 'Sync'):
        lines.append('trait No%s<A> { fn no() {} } impl<X: ?Sized> No%s<()> for X {} impl<X: ?Sized + %s> No%s<u8> for X {}' % (tr, tr, tr, tr))
    by = obs[0][4]
    for i, (name, g, t, tr, _) in enumerate(obs + [('control', '', 'Full', obs[0][3], by)]):
        g = g.rstrip(', ')
        if by:
            lines.append('pub trait No%d {} impl<X: %s> No%d for X {} impl<%s> No%d for %s {}' % (i, tr, i, g, i, t))
        else:
            lines.append('fn no%d<%s>() { <%s as No%s<_>>::no() }' % (i, g, t, tr))
        at[len(lines)] = i
    return '\n'.join(lines) + '\n', at, k


MANIFEST = '''[package]
name = "mutringbuf"
version = "0.5.1"
edition = "2021"
[workspace]
[lib]
path = "src/lib.rs"
[features]
default = []
alloc = []
vmem = ["alloc", "dep:libc"]
async = []
[dependencies]
crossbeam-utils = { version = "0.8.21", default-features = false }
libc = { version = "1.0.0-alpha.1", optional = true }
[lints.rust]
unexpected_cfgs = "allow"
'''


def check(d, cfg, tag):
    e = dict(os.environ, CARGO_NET_OFFLINE='true')
    e.pop('RUSTFLAGS', None)
    cmd = ['cargo', 'check', '--offline', '--message-format=json', '--no-default-features', '--features', ','.join(cfg), '--target-dir', os.path.join(BUILD, 'traits-target')]
    r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    msgs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            msgs.append(m['message'])
    return r.returncode, msgs, r.stderr, ' '.join(cmd)


def crate(cfg):
    d = os.path.join(BUILD, 'C16', '-'.join(cfg))
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
    for f in os.listdir(REPO):
        if f.endswith('.md'):
            shutil.copy(os.path.join(REPO, f), d)
    open(os.path.join(d, 'Cargo.toml'), 'w').write(MANIFEST)
    return d


def replay(v, cfg, ob):
    """A safe program that must be rejected."""
    name, g, t, tr, _ = ob
    st = 'HeapStorage<u8>' if 'alloc' in cfg else 'StackStorage<u8, 4>'
    ty = t.replace("'a", "'static").replace('LocalMutRingBuf<S>', 'LocalMutRingBuf<%s>' % st).replace('Unsendable', '*const u8').replace('Bare', '*const u8').replace('Full', 'u8').replace('alloc::rc', 'std::rc')
    ty = re.sub(r'\bN>', '4>', re.sub(r'\bW>', 'false>', ty)).replace('HeapStorage<T>', 'HeapStorage<u8>').replace('StackStorage<T,', 'StackStorage<u8,').replace('P, O, R>', '(), (), true>')
    d = os.path.join(BUILD, 'C16', 'program')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "program"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[features]\nx = []\n[dependencies]\nmutringbuf = { path = "%s", default-features = false, features = [%s] }\n' % (REPO, ', '.join('"%s"' % c for c in cfg)))
    prog = ('#![allow(unused)]\nuse mutringbuf::*;\nuse mutringbuf::iterators::*;\nuse mutringbuf::iterators::async_iterators::*;\n'
            + ('fn hand_over(x: %s) { std::thread::spawn(move || { drop(x) }); }\n' if tr == 'Send' else "fn share(x: &'static %s) { std::thread::spawn(move || { drop(x) }); }\n") % ty + 'fn main() {}\n')
    open(os.path.join(d, 'src', 'main.rs'), 'w').write(prog)
    rc, msgs, err, cmd = check(d, ['x'], 'program')
    t = 'safe program:\n%s\nrustc, on the real crate: %s\n' % (prog, 'accepted: REPRODUCED' if rc == 0 else 'rejected: ' + '; '.join(m['message'] for m in msgs)[:500])
    return rc == 0, t


def run(v, u):
    for cfg in (['alloc', 'async'], ['alloc', 'vmem', 'async'], ['async']):
        t0 = time.time()
        d = crate(cfg)
        rc, msgs, err, cmd = check(d, cfg, 'plain')
        if rc:
            raise CheckError('the crate does not build with %s: %s' % (cfg, (msgs[0].get('rendered') if msgs else err)[:1000]))
        everything = obligations(cfg)
        for by in (True, False):
            if prove(v, cfg, d, [o for o in everything if o[4] == by], t0):
                return


def prove(v, cfg, d, obs, t0):
    text, at, control = probes(obs)
    open(os.path.join(d, 'src', 'verif_obligations.rs'), 'w').write(text)
    lib = open(os.path.join(d, 'src', 'lib.rs')).read()
    if 'mod verif_obligations' not in lib:
        open(os.path.join(d, 'src', 'lib.rs'), 'w').write(lib + '\nmod verif_obligations;\n')
    rc, msgs, err, cmd = check(d, cfg, 'probes')
    failed, control_ok, other = {}, False, []
    for m in msgs:
        code = (m.get('code') or {}).get('code')
        lines = [s['line_start'] for s in m['spans'] if s['file_name'].endswith('verif_obligations.rs')]
        k = {at[l] for l in lines if l in at}
        if code in ('E0119', 'E0283', 'E0790') and k == {control}:
            control_ok = True
        elif code in ('E0119', 'E0283', 'E0790') and len(k) == 1:
            failed[k.pop()] = m['rendered']
        elif not m['message'].startswith(('aborting due', 'could not compile')):
            other.append(m['rendered'])
    if other or not control_ok:
        raise CheckError('the obligations were not examined with %s:\n%s' % (cfg, (other[0] if other else err)[:1500]))
    v.count('rustc (trait solver)', len(obs) - len(failed))
    v.count('', len(failed), ok=False)
    v.cmds.append(cmd)
    v.units.append({'unit': '%s, with %s' % ('coherence' if obs[0][4] else 'selection', ','.join(cfg)), 'obligations': len(obs), 'wall_s': round(time.time() - t0, 1)})
    for i in sorted(failed)[:2]:
        rep, t = replay(v, cfg, obs[i])
        v.violations.append(('features ' + ','.join(cfg), 'OB:' + obs[i][0] + (' (and %d more)' % (len(failed) - 1) if len(failed) > 1 else ''), failed[i] + '\n' + t, rep))
    return failed
