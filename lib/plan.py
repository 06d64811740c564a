"""What each check verifies."""
import os
import conc, lemmas

GETTERS = ['get_workable', 'get_workable_slice_exact', 'get_workable_slice_avail', 'get_workable_slice_multiple_of', 'advance', 'available']
COMMON = ['%s::%s' % (i, f) for i in ('ProdIter', 'WorkIter', 'ConsIter') for f in GETTERS]
PROD = ['ProdIter::' + f for f in ('push', 'push_init', 'push_slice', 'push_slice_clone', 'get_next_item_mut', 'get_next_item_mut_init', 'get_next_slices_mut')]
PROD_B = ['ProdIter::push_slice_init', 'ProdIter::push_slice_clone_init']
CONS = ['ConsIter::' + f for f in ('pop', 'pop_move', 'peek_ref', 'peek_slice', 'peek_available', 'copy_item', 'clone_item', 'copy_slice', 'clone_slice')]
RESET = ['WorkIter::reset_index', 'ConsIter::reset_index']
MISC = ['MRBIterator::index', 'MRBIterator::prod_index', 'MRBIterator::work_index', 'MRBIterator::cons_index', 'MRBIterator::buf_len']

KANI = ['Kani 0.68 and CBMC 6.11 (translation of MIR, SAT encoding); rustc stable/nightly semantics of MIR',
        'lengths from 1 to 2^20 (quick) or 2^40 (thorough) items; item types u8 and u32 stand for all Copy items',
        'the states considered are those reachable by detach/set_index/attach through the public API, whose own contract is C12',
        'spec.rs: lemma_room and lemma_dist are assumed in the harnesses and proved by Verus (/verif/lemmas)']

def names(variant, *ops):
    return ['ops::%s::%s' % (o, variant) for o in ops]

def common(variant, *fs):
    fs = fs or ('get_workable', 'exact', 'avail', 'multiple', 'advance', 'available')
    return names(variant, *['%s::%s' % (i, f) for i in ('prod', 'work', 'cons') for f in fs])

PLAN = {}
OPS = ['push', 'push_init', 'push_slice', 'push_slice_clone', 'get_next_item_mut', 'get_next_item_mut_init', 'get_next_slices_mut', 'pop', 'pop_move', 'peek_ref', 'peek_slice',
       'peek_available', 'copy_item', 'clone_item', 'copy_slice', 'clone_slice']
RESETS = ['work_reset::reset_index', 'work_reset::reset_then', 'cons_reset::reset_index', 'cons_reset::reset_then']
def every(variant):
    return names(variant, *(OPS + RESETS)) + common(variant)
PLAN['C01'] = dict(level='proof', trusted=KANI, functions=COMMON + PROD + CONS + RESET,
    bounded_note=['push_slice_init, push_slice_clone_init (loops over the source): sources of at most 2 items in buffers of 3', 'quick only: push_slice_clone, clone_slice and push_init in buffers of 3'],
    units=[dict(harnesses=[h for h in every('ch3') if 'slice_clone' not in h and 'clone_slice' not in h and 'push_init' not in h] + names('hb3', 'push_slice_clone', 'clone_slice', 'push_init') + names('ch2', 'pop', 'cons::available', 'cons_reset::reset_index')
                + names('lh3', 'push', 'work::advance', 'cons::advance') + names('cs3', 'pop', 'push') + names('b3', 'push_slice_init'),
                more=every('ch3') + names('ch2', 'cons::exact') + every('lh3') + every('ls3') + every('lh2') + ['::b3'], expect=40, bounded=('::b3', '::hb3'))])
PLAN['C04'] = dict(level='proof', trusted=KANI, functions=COMMON + PROD + CONS + RESET,
    units=[dict(harnesses=names('ch3', 'push', 'push_init', 'push_slice', 'pop', 'pop_move', 'copy_item', 'copy_slice', 'cons_reset::reset_index', 'work_reset::reset_index')
                + common('ch3', 'advance', 'available', 'avail', 'exact') + ['::sum3', '::sum2']
                + names('lh3', 'push', 'pop', 'cons_reset::reset_index') + names('ch2', 'pop', 'push', 'cons::available', 'cons_reset::reset_index'),
                more=every('ch3') + every('lh3') + every('ch2'), expect=30)])
PLAN['C05'] = dict(level='proof', trusted=KANI, functions=COMMON + PROD + CONS + MISC,
    bounded_note=PLAN['C01']['bounded_note'],
    units=[dict(harnesses=names('ch3', 'push', 'push_slice', 'get_next_item_mut', 'get_next_item_mut_init', 'get_next_slices_mut', 'pop', 'pop_move', 'peek_ref', 'peek_slice', 'peek_available', 'copy_item', 'clone_item', 'copy_slice') + names('hb3', 'push_init', 'push_slice_clone', 'clone_slice')
                + common('ch3', 'get_workable', 'exact', 'avail', 'multiple', 'available') + ['::b3']
                + names('lh3', 'pop', 'push') + names('ch2', 'pop', 'cons::available', 'cons::avail', 'cons::exact', 'prod::exact') + names('cs3', 'pop'),
                more=every('ch3') + every('lh3') + every('ls3') + every('lh2') + every('ch2'), expect=38, bounded=('::b3', '::hb3'))])
PLAN['C06'] = dict(level='proof', trusted=KANI, functions=[f for f in COMMON + PROD + CONS if 'slice' in f or 'peek' in f or 'next' in f or 'advance' in f] + PROD_B,
    bounded_note=PLAN['C01']['bounded_note'] + ['stack buffers: length 3'],
    units=[dict(harnesses=common('ch3', 'get_workable', 'exact', 'avail', 'multiple', 'advance') + names('ch3', 'push_slice', 'get_next_item_mut', 'get_next_item_mut_init', 'get_next_slices_mut', 'peek_ref', 'peek_slice', 'peek_available', 'copy_slice') + names('hb3', 'push_slice_clone', 'clone_slice')
                + names('wide3', 'prod::exact', 'cons::avail', 'peek_slice')
                + names('lh3', 'prod::exact') + common('cs3', 'exact', 'avail') + names('ls3', 'peek_slice', 'copy_slice', 'push_slice') + ['::b3'],
                more=every('ch3') + every('wide3') + every('lh3') + every('ls3'), expect=38, bounded=('::b3', '::hb3'))])
PLAN['C11'] = dict(level='proof', trusted=KANI, functions=RESET,
    units=[dict(harnesses=[x for k in ('ch3', 'lh3', 'cs3', 'ls3') for x in names(k, 'work_reset::reset_index', 'work_reset::reset_then', 'cons_reset::reset_index', 'cons_reset::reset_then')]
                + [x for k in ('ch2', 'lh2') for x in names(k, 'cons_reset::reset_index', 'cons_reset::reset_then')],
                expect=20)])


ITERS = ('prod', 'work', 'cons')
SYNC = ('get_workable', 'exact', 'avail', 'multiple')
NB = ['ops::%s' % x for x in ()]
def det(variant, *fs):
    fs = fs or ('advance', 'go_back', 'set_index', 'reset_index', 'sync_index', 'attach', 'get_workable', 'exact', 'avail', 'multiple', 'available', 'wait_for', 'observe')
    return ['det::%s::%s::%s' % (i, f, variant) for i in ITERS for f in fs]
DET = ['Detached::%s' % f for f in ('advance', 'go_back', 'set_index', 'reset_index', 'sync_index', 'attach', 'from_iter', 'available', 'wait_for', 'get_workable', 'get_workable_slice_exact', 'get_workable_slice_avail', 'get_workable_slice_multiple_of')] \
    + ['AsyncDetached::%s' % f for f in ('advance', 'go_back', 'set_index', 'reset_index', 'sync_index', 'attach', 'from_iter')] + ['%s::detach' % i for i in ('ProdIter', 'WorkIter', 'ConsIter')]
PLAN['C12'] = dict(level='proof', trusted=KANI, functions=DET,
    note_extra='That other threads see no intermediate position is the step contract checked in C02.',
    units=[dict(harnesses=det('ch3') + ['det::%s::asy::ch3' % i for i in ITERS]
        + ['det::work::%s::lh3' % f for f in ('advance', 'go_back', 'attach')] + det('ls3', 'set_index', 'sync_index', 'reset_index')
        + ['det::prod::go_back::ch2', 'det::cons::reset_index::ch2', 'det::cons::advance::ch2'],
        more=det('lh3') + det('ls3') + det('cs3') + ['det::%s::%s::ch2' % (i, f) for i in ('prod', 'cons') for f in ('advance', 'go_back', 'set_index', 'reset_index', 'sync_index', 'attach')], expect=50)])

A_ITEM = ('push', 'get_next_item_mut', 'get_next_item_mut_init', 'get_next_slices_mut', 'pop', 'pop_move', 'peek_ref', 'peek_slice', 'peek_available', 'copy_item', 'clone_item')
A_WIN = ['%s::%s' % (i, f) for i in ITERS for f in SYNC]
def asy(form, *ops):
    return ['asy::%s::%s' % (o, form) for o in ops]
ASY = ['Async%s::%s' % (i, f) for i in ('ProdIter', 'WorkIter', 'ConsIter') for f in ('get_workable', 'get_workable_slice_exact', 'get_workable_slice_avail', 'get_workable_slice_multiple_of', 'poll_with')] \
    + ['AsyncProdIter::' + f for f in ('push', 'push_slice', 'push_slice_clone', 'get_next_item_mut', 'get_next_item_mut_init', 'get_next_slices_mut')] \
    + ['AsyncConsIter::' + f for f in ('pop', 'pop_move', 'peek_ref', 'peek_slice', 'peek_available', 'copy_item', 'clone_item', 'copy_slice', 'clone_slice')] + ['MRBFuture::poll']
A_B = ['asynchronous slice copies: slices of at most 3 items between fixed buffers of 3 slots when a first poll was Pending; any size when the first poll resolves (thorough)']
PLAN['C14'] = dict(level='proof', trusted=KANI, functions=ASY, bounded_note=A_B,
    units=[dict(harnesses=asy('one::ch3', *A_ITEM) + asy('one::ch3', *A_WIN)
        + asy('two::hh3', 'push', 'get_next_slices_mut', 'pop_move', 'peek_slice', 'copy_item', 'prod::multiple', 'work::get_workable', 'cons::avail')
        + asy('two::hh3', 'copy_slice_2', 'push_slice_2') + asy('one::hh3', 'clone_slice_2', 'push_slice_clone_2')
        + ['asy::%s::plain::ch3' % i for i in ITERS] + asy('three::hh3', 'pop') + ['ownsym::push_future::conc'],
        more=asy('two::hh3', *A_ITEM) + asy('two::hh3', *A_WIN) + asy('three::hh3', 'push') + asy('one::ch3', 'copy_slice', 'push_slice', 'clone_slice', 'push_slice_clone'),
        bounded=('::hh3',), expect=36)])
PLAN['C15'] = dict(level='proof', trusted=KANI, functions=ASY, bounded_note=A_B,
    units=[dict(harnesses=asy('one::ch3', *A_ITEM) + asy('one::ch3', *A_WIN) + asy('one::ch3', 'copy_slice', 'push_slice', 'clone_slice', 'push_slice_clone')
        + asy('two::hh3', 'push', 'pop', 'prod::exact', 'work::avail', 'cons::multiple', 'peek_slice') + asy('two::hh3', 'copy_slice_2') + asy('three::hh3', 'push'),
        more=asy('two::hh3', *A_ITEM) + asy('two::hh3', *A_WIN), bounded=('::hh3',), expect=30)])
O_F = ['ProdIter::' + f for f in ('push', 'push_init', 'push_slice_clone', 'push_slice_clone_init')] + ['ConsIter::' + f for f in ('pop', 'pop_move', 'clone_item', 'clone_slice')] \
    + ['AsyncProdIter::push', 'MRBFuture::poll', 'MRBFuture::drop', 'UnsafeSyncCell::check_zeroed', 'UnsafeSyncCell::drop', 'UnsafeSyncCell::take_inner', 'UnsafeSyncCell::clone', 'HeapStorage::drop', 'HeapStorage::from', 'StackStorage::from']
O_B = ['own::*: release of whole buffers, and slice pushes and reads of items with destructors: buffers of 3 slots in every state, slices of at most 2 items', 'check_zeroed: items of 1, 5, 16 and 40 bytes']
O_H = ['ownsym::'] + ['own::%s::stack' % f for f in ('push', 'push_init', 'pop', 'pop_move', 'looks')] + ['own::%s::heap' % f for f in ('push_slice_clone', 'push_slice_clone_init', 'clone_slice')] + ['own::release', 'own::cell', 'own::zeroed']
for c in ('C08', 'C09'):
    PLAN[c] = dict(level='proof', trusted=KANI, functions=O_F, bounded_note=O_B,
        units=[dict(harnesses=(O_H if c == 'C08' else [h for h in O_H if h not in ('own::looks::stack', 'own::clone_slice::heap')] ), more=['own::'], bounded=('own::',), expect=30)])
PLAN['C18'] = dict(level='proof', trusted=KANI, functions=['%s::%s' % (t, f) for t in ('ConcurrentHeapRB', 'LocalHeapRB', 'ConcurrentStackRB', 'LocalStackRB') for f in ('from', 'default', 'new_zeroed', 'split', 'split_mut')] + ['ConcurrentHeapRB::split_async', 'ConcurrentHeapRB::split_mut_async', 'BufRef::new', 'BufRef::from_ref'],
    bounded_note=['stack buffers: lengths 1, 2, 5 (4 and 1 for a session after another)', 'default and new_zeroed of heap buffers: lengths 1 to 4', 'vectors with spare capacity: up to 3 items'],
    units=[dict(harnesses=['life::' + m for m in ('conc_heap::', 'local_heap::', 'conc_stack::', 'local_stack::', 'async_')], bounded=('_b', '::again', '_stack::'), expect=30)])
PLAN['C07'] = dict(level='proof', trusted=KANI, functions=[], units=[
    dict(tag='-heap', harnesses=['life::drops_conc_heap', 'life::drops_local_heap', 'life::drops_async3'], extra=('--cbmc-args', '--memory-leak-check'), expect=50),
    dict(tag='-stack', harnesses=['life::drops_conc_stack', 'life::drops_local_stack'], expect=50)])

def rel(form, *ops):
    return ['rel::%s::%s' % (o, form) for o in ops]
R_COMMON = ['%s::%s' % (i, f) for i in ITERS for f in ('get_workable', 'exact', 'avail', 'multiple', 'advance', 'available')]
R_GET = [x for x in R_COMMON if not x.endswith(('advance', 'available'))]
R_PROD = ['push', 'get_next_item_mut', 'get_next_item_mut_init', 'get_next_slices_mut']
R_CONS = ['pop', 'pop_move', 'peek_ref', 'peek_slice', 'peek_available', 'copy_item', 'clone_item', 'copy_slice', 'clone_slice']
R_RESET = ['reset_w::reset_index', 'reset_c::reset_index']
R_FOUR = ['prod::exact', 'cons::avail', 'work::multiple', 'prod::advance', 'work::advance', 'cons::advance', 'prod::moves', 'work::moves', 'cons::moves', 'push', 'push_back', 'push_init', 'pop', 'pop_move', 'clone_slice'] + R_RESET
R_SYM = ['prod::exact', 'push', 'pop', 'cons::advance', 'reset_c::reset_index']
PLAN['C13'] = dict(level='proof', trusted=KANI, functions=COMMON + PROD + CONS + RESET + DET + ASY,
    technique='contract-based deductive verification of the real code: relational contracts (same history, two variants, equal observations) discharged by Kani/CBMC',
    bounded_note=['quick: concurrent against local buffers of every length for ' + ', '.join(R_SYM) + '; the other operations, stack buffers, and asynchronous and detached forms at length 3 (thorough: every operation and form at every length; stack buffers at lengths 2, 3 and 5)',
                  'slices copied in or out: 2 items', 'histories: any reachable positions and remembered availability, then one operation, then every observation'],
    units=[dict(harnesses=rel('stack_b3', *R_FOUR) + rel('pair_b3', *[x for x in R_COMMON + R_PROD + R_CONS + ['push_slice', 'push_slice_clone'] if x not in R_FOUR])
        + rel('asy_b3', *(R_GET + R_PROD + R_CONS + ['push_slice'])) + rel('det_b3', *(R_COMMON + R_RESET)) + rel('local3', *R_SYM) + ['rel::liveness'],
        more=rel('local3', *(R_COMMON + R_PROD + R_CONS + R_RESET)) + rel('asy_form', *(R_GET + R_PROD + R_CONS)) + rel('det_form', *(R_COMMON + R_RESET))
        + rel('local2', 'push', 'pop', 'cons::available', 'prod::exact', 'cons::advance', 'cons::avail', 'reset_c::reset_index') + rel('stack_b2', *R_FOUR) + rel('stack_b5', *R_FOUR) + rel('pair_b3', 'push_slice_init', 'push_slice_clone_init'),
        bounded=('_b3', '_b2', '_b5', 'liveness'), expect=90)])

# Concurrent: what one operation relies on and guarantees, whatever the other threads do meanwhile.
C_KANI = KANI[:2] + ['rely and guarantee stand for the C11 memory model restricted to release/acquire (vcore/src/ghost.rs, DESIGN.md): a load returns any value its location can hold by coherence; an acquiring load makes what was released with that value visible; slots that are not owned may change between any two atomic accesses',
                     'vcore replaces core::sync::atomic (and nothing else) in a copy of /repo/src made on every run',
                     'the composition of the contracts of single steps into histories is proved by Verus for the model of /verif/lemmas/pipeline.rs']
C_ITERS = ('prod', 'work', 'cons')
C_GET = ['%s::%s' % (i, f) for i in C_ITERS for f in ('get_workable', 'exact', 'avail', 'multiple', 'available', 'observe', 'wait_for')]
C_MOVE = ['%s::%s' % (i, f) for i in C_ITERS for f in ('advance', 'advance_old', 'edit')]
C_DET = ['%s::%s' % (i, f) for i in C_ITERS for f in ('detached', 'detached_reset')]
C_RESET = ['reset_w::reset_index', 'reset_c::reset_index']
C_PUT = ['push', 'push_init', 'push_slice', 'push_slice_clone']
C_PUT_B = ['push_slice_2', 'push_slice_clone_2', 'push_slice_init_2', 'push_slice_clone_init_2']
C_TAKE = ['pop', 'pop_move', 'copy_item', 'clone_item', 'copy_slice', 'clone_slice']
C_LOOK = ['next_mut', 'next_mut_init', 'next_slices', 'peek_ref', 'peek_slice', 'peek_available']
A_ALL = ['%s::%s' % (i, f) for i in C_ITERS for f in ('get_workable', 'exact', 'avail')]
def st(variant, *ops):
    return ['step::%s::%s' % (o, variant) for o in ops]
def asc(variant, *ops):
    return ['asy::%s::%s' % (o, variant) for o in ops]
def conc_unit(tag, harnesses, more, expect, **kw):
    return dict(dict(tag='-conc', name='conc', prepare=lambda: (conc.prepare(tag), [], None), harnesses=harnesses, more=more, expect=expect,
                     bounded=('::cs3', '::hb3', 'drops::', 'push_slice_init_2', 'push_slice_clone_init_2', 'push_slice_2', 'push_slice_clone_2', 'copy_slice_2')), **kw)
C_BOUND = ['quick: core operations at every length, all operations at length 3 (heap); thorough: all at every length', 'push_slice_init, push_slice_clone_init and asynchronous slice copies: 2 items']
LEMMAS = dict(run=lemmas.run)
C_F = COMMON + PROD + PROD_B + CONS + RESET + DET + ASY
C_ALL3 = st('ch3', *(C_GET + C_MOVE + C_DET + C_RESET + C_PUT + C_TAKE + C_LOOK))
PLAN['C02'] = dict(level='proof', trusted=C_KANI, functions=C_F, bounded_note=C_BOUND, units=[LEMMAS,
    conc_unit('C02', st('ch3', 'push', 'push_init', 'pop', 'copy_item', 'prod::advance', 'work::advance_old', 'work::edit', 'reset_c::reset_index') + st('ch2', 'pop')
        + st('hb3', *(C_PUT + C_PUT_B + C_TAKE + C_MOVE + C_DET + C_RESET + [i + '::' + f for i in C_ITERS for f in ('exact', 'avail', 'multiple')])) + asc('hb3', 'push', 'pop', 'copy_slice_2', 'push_slice_2'),
        C_ALL3 + st('ch2', *(C_PUT + C_TAKE + ['cons::advance', 'prod::advance'])) + st('cs3', *(C_TAKE + C_MOVE + C_DET)) + asc('ch3', 'push', 'pop', 'copy_slice_2') + asc('ch2', 'push_slice_2'), 45)])
PLAN['C03'] = dict(level='proof', trusted=C_KANI, functions=C_F, bounded_note=C_BOUND, units=[LEMMAS,
    conc_unit('C03', st('ch3', 'prod::exact', 'work::avail', 'cons::exact', 'cons::avail', 'push', 'pop', 'work::advance', 'cons::advance_old') + st('ch2', 'cons::get_workable')
        + st('hb3', *(C_GET + C_LOOK + C_PUT + C_PUT_B + C_TAKE + C_DET + C_RESET + [i + '::advance' for i in C_ITERS])) + asc('hb3', *(A_ALL + ['push', 'pop'])),
        C_ALL3 + st('ch2', *(C_LOOK + ['cons::exact', 'prod::exact', 'cons::detached', 'prod::detached'])) + st('cs3', *(C_GET + C_LOOK)) + asc('ch3', *A_ALL), 65)])
PLAN['C10'] = dict(level='proof', trusted=C_KANI, functions=C_F, bounded_note=C_BOUND, units=[LEMMAS,
    conc_unit('C10', st('ch3', 'push', 'pop', 'prod::exact', 'work::get_workable', 'cons::avail', 'prod::available', 'work::available', 'cons::available', 'cons::advance', 'peek_available', 'reset_c::reset_index', 'reset_w::reset_index') + st('ch2', 'pop', 'cons::available')
        + st('hb3', *([x for x in C_GET if not x.endswith('wait_for')] + C_LOOK + C_PUT + C_PUT_B + C_TAKE + C_DET + C_RESET + C_MOVE)) + asc('hb3', *(A_ALL + ['push', 'pop', 'push_slice_2', 'copy_slice_2'])),
        C_ALL3 + st('ch2', *(C_PUT + C_TAKE)) + st('cs3', *(C_GET + C_LOOK + C_TAKE)) + asc('ch3', 'push', 'pop', *A_ALL), 65)])
PLAN['C12']['units'].append(conc_unit('C12', st('hb3', *C_DET), st('ch3', *C_DET), 6))
PLAN['C12']['bounded_note'] = ['what other threads see of detached iterators (step::*): length 3 (thorough: every length)']
PLAN['C07']['units'].append(conc_unit('C07', ['drops::heap::p3', 'drops::heap::w3', 'drops::heap::c3', 'drops::heap::d3', 'drops::heap::p2', 'drops::heap::c2'] + st('hb3', 'prod::observe', 'work::observe', 'cons::observe'), ['drops::stack::'] + st('ch3', 'prod::observe', 'work::observe', 'cons::observe'), 9))
for c in ('C01', 'C04', 'C05', 'C06', 'C11', 'C12', 'C13'):
    PLAN[c]['units'].insert(0, LEMMAS)
import traits
PLAN['C16'] = dict(level='proof', trusted=['rustc: its trait solver, and coherence, which accepts two impls only if it proves that no type has both', 'parametricity: an unsendable item type which implements all derivable traits and Sync stands for all of them (as do one without any trait, *const u8 and Rc<u8>)',
    'items are stored in HeapStorage or StackStorage (for local buffers: any Storage)'],
    technique='contract-based deductive verification of the real code: universally quantified negative trait obligations on the real impls, discharged by the type checker (coherence)',
    note='For every lifetime, capacity, flag, and (local buffers) storage and item type: no instance of the plain, detached, asynchronous and asynchronous detached iterators and their futures is Send (or Sync, for local buffers). Not bounded.',
    functions=['unsafe impl Send for %s' % x for x in ('ProdIter', 'WorkIter', 'ConsIter', 'Detached', 'AsyncProdIter', 'AsyncWorkIter', 'AsyncConsIter', 'AsyncDetached')] + ['auto traits of MRBFuture', 'auto traits of BufRef'], units=[dict(run=traits.run)])
