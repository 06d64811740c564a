// Lemmas over the arithmetic of spec.rs (translated mechanically, see lib/lemmas.py), and the
// composition of the contracts of single operations and of single atomic steps into statements
// about whole histories.

// ---- positions ----

/// Slots between a stage and the one ahead shrink by what is used.
pub proof fn room_shrinks(n: int, p: int, c: int, k: int)
    requires 1 <= n, 0 <= p < n, 0 <= c < n, 0 <= k <= room(n, p, c)
    ensures lemma_room(n, p, c, k), 0 <= wrap(n, p + k) < n, room(n, p, c) <= n - 1
{}
pub proof fn dist_shrinks(n: int, a: int, b: int, k: int)
    requires 1 <= n, 0 <= a < n, 0 <= b < n, 0 <= k <= dist(n, a, b)
    ensures lemma_dist(n, a, b, k), 0 <= wrap(n, a + k) < n, dist(n, a, b) <= n - 1
{}
/// The three availabilities sum up to the capacity.
pub proof fn capacity(n: int, p: int, w: int, c: int)
    requires 1 <= n, 0 <= p < n, 0 <= w < n, 0 <= c < n, dist(n, c, w) <= dist(n, c, p)
    ensures room(n, p, c) + dist(n, w, p) + dist(n, c, w) == n - 1
{}
/// The window of a slice is that of as many single items.
pub proof fn window_is_items(n: int, idx: int, i: int)
    requires 1 <= n, 0 <= idx < n, 0 <= i < n
    ensures wrap(n, wrap(n, idx + i) + 1) == (if i + 1 == n { idx } else { wrap(n, idx + i + 1) })
{}
/// Different offsets within a window are different slots.
pub proof fn window_is_injective(n: int, idx: int, i: int, j: int)
    requires 1 <= n, 0 <= idx < n, 0 <= i < n, 0 <= j < n, i != j
    ensures wrap(n, idx + i) != wrap(n, idx + j)
{}

// ---- positions as counters ----

pub open spec fn ring(n: int, k: int) -> int { k % n }
pub proof fn ring_moves(n: int, k: int, m: int)
    requires 1 <= n, 0 <= k, 0 <= m <= n
    ensures ring(n, k + m) == wrap(n, ring(n, k) + m), 0 <= ring(n, k) < n
{
    lemma_mod_bound(k, n);
    lemma_add_mod_noop(k, m, n);
    if m == n {
        lemma_mod_self_0(n);
        lemma_mod_twice(k, n);
        lemma_mod_add_multiples_vanish(k, n);
    } else {
        lemma_small_mod(m as nat, n as nat);
        let r = k % n + m;
        if r >= n {
            lemma_mod_add_multiples_vanish(r - n, n);
            lemma_small_mod((r - n) as nat, n as nat);
        } else {
            lemma_small_mod(r as nat, n as nat);
        }
    }
}
/// What is computed from positions is the difference of the counters.
pub proof fn ring_dist(n: int, a: int, b: int)
    requires 1 <= n, 0 <= a <= b, b - a <= n - 1
    ensures dist(n, ring(n, a), ring(n, b)) == b - a
{
    ring_moves(n, a, b - a);
}
pub proof fn ring_room(n: int, p: int, c: int)
    requires 1 <= n, 0 <= c <= p, p - c <= n - 1
    ensures room(n, ring(n, p), ring(n, c)) == n - 1 - (p - c)
{
    ring_moves(n, c, p - c);
    ring_dist(n, c, p);
}
pub proof fn ring_differs(n: int, a: int, b: int)
    requires 1 <= n, 0 <= a < b, b - a <= n - 1
    ensures ring(n, a) != ring(n, b)
{
    ring_moves(n, a, b - a);
}

// ---- histories ----

/// A pipeline. Counters are numbers of slots ever published by a stage; `k*`: how far a stage
/// owns slots, by what it has learned of the stage ahead of it (and synchronised with).
pub struct Pipe<T> {
    pub n: int,
    pub c: int, pub w: int, pub p: int,
    pub kc: int, pub kw: int, pub kp: int,
    pub slots: Seq<T>,
    /// What slots held when they were handed over, by the producer, worker, and consumer.
    pub pushed: Seq<T>, pub worked: Seq<T>, pub read: Seq<T>,
    /// What the worker found in them when it came to own them.
    pub found: Seq<T>,
}
pub open spec fn ordered<T>(s: Pipe<T>) -> bool {
    &&& 1 <= s.n && s.slots.len() == s.n
    &&& 0 <= s.c <= s.kc <= s.w <= s.kw <= s.p <= s.kp <= s.c + s.n - 1
}
pub open spec fn inv<T>(s: Pipe<T>) -> bool {
    &&& ordered(s)
    &&& s.pushed.len() == s.p && s.worked.len() == s.w && s.read.len() == s.c && s.found.len() == s.kw
    // Handed over and not yet taken over, or read only.
    &&& forall|i: int| s.kw <= i < s.p ==> #[trigger] s.pushed[i] == s.slots[ring(s.n, i)]
    &&& forall|i: int| s.c <= i < s.w ==> #[trigger] s.worked[i] == s.slots[ring(s.n, i)]
    &&& forall|i: int| 0 <= i < s.c ==> #[trigger] s.read[i] == s.worked[i]
    &&& forall|i: int| 0 <= i < s.kw ==> #[trigger] s.found[i] == s.pushed[i]
}
pub enum Stage { P, W, C }
pub open spec fn pos<T>(s: Pipe<T>, g: Stage) -> int { match g { Stage::P => s.p, Stage::W => s.w, Stage::C => s.c } }
pub open spec fn known<T>(s: Pipe<T>, g: Stage) -> int { match g { Stage::P => s.kp, Stage::W => s.kw, Stage::C => s.kc } }
/// How far the stage ahead has released slots.
pub open spec fn actual<T>(s: Pipe<T>, g: Stage) -> int { match g { Stage::P => s.c + s.n - 1, Stage::W => s.p, Stage::C => s.w } }
/// Slot number `i` is in the hands of `g`.
pub open spec fn owns<T>(s: Pipe<T>, g: Stage, i: int) -> bool { pos(s, g) <= i < known(s, g) }

/// An acquiring load (rely of ghost.rs): anything from what was known to what is the case.
pub open spec fn learn<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, k: int) -> bool {
    &&& known(s, g) <= k <= actual(s, g)
    &&& t == match g {
        Stage::P => Pipe { kp: k, ..s },
        Stage::W => Pipe { kw: k, found: s.found + Seq::new((k - s.kw) as nat, |j: int| s.slots[ring(s.n, s.kw + j)]), ..s },
        Stage::C => Pipe { kc: k, ..s },
    }
}
/// A write (guarantee: only to owned slots; a consumer does not write what it has not read).
pub open spec fn write<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, i: int, x: T) -> bool {
    &&& owns(s, g, i) && g != Stage::C
    &&& t == Pipe { slots: s.slots.update(ring(s.n, i), x), ..s }
}
/// A releasing store (guarantee: no position beyond what is owned).
pub open spec fn publish<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, m: int) -> bool {
    let out = Seq::new(m as nat, |j: int| s.slots[ring(s.n, pos(s, g) + j)]);
    &&& 0 <= m && pos(s, g) + m <= known(s, g)
    &&& t == match g {
        Stage::P => Pipe { p: s.p + m, pushed: s.pushed + out, ..s },
        Stage::W => Pipe { w: s.w + m, worked: s.worked + out, ..s },
        Stage::C => Pipe { c: s.c + m, read: s.read + out, ..s },
    }
}
pub proof fn begins<T>(s: Pipe<T>)
    requires 1 <= s.n, s.slots.len() == s.n, s.c == 0, s.w == 0, s.p == 0, s.kc == 0, s.kw == 0, s.kp == 0,
        s.pushed.len() == 0, s.worked.len() == 0, s.read.len() == 0, s.found.len() == 0
    ensures inv(s)
{}
pub proof fn learning<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, k: int)
    requires inv(s), learn(s, t, g, k)
    ensures inv(t)
{
    if g == Stage::W {
        assert forall|i: int| 0 <= i < t.kw implies #[trigger] t.found[i] == t.pushed[i] by {
            if i >= s.kw { assert(s.pushed[i] == s.slots[ring(s.n, i)]); assert(t.found[i] == s.slots[ring(s.n, s.kw + (i - s.kw))]); }
            else { assert(t.found[i] == s.found[i]); }
        }
    }
}
pub proof fn writing<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, i: int, x: T)
    requires inv(s), write(s, t, g, i, x)
    ensures inv(t)
{
    lemma_mod_bound(i, s.n);
    assert forall|k: int| s.kw <= k < s.p implies #[trigger] t.pushed[k] == t.slots[ring(t.n, k)] by {
        if k < i { ring_differs(s.n, k, i) } else { ring_differs(s.n, i, k) }
        lemma_mod_bound(k, s.n);
        assert(s.pushed[k] == s.slots[ring(s.n, k)]);
    }
    assert forall|k: int| s.c <= k < s.w implies #[trigger] t.worked[k] == t.slots[ring(t.n, k)] by {
        ring_differs(s.n, k, i);
        lemma_mod_bound(k, s.n);
        assert(s.worked[k] == s.slots[ring(s.n, k)]);
    }
}
pub proof fn publishing<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, m: int)
    requires inv(s), publish(s, t, g, m)
    ensures inv(t)
{
    match g {
        Stage::P => {
            assert forall|k: int| t.kw <= k < t.p implies #[trigger] t.pushed[k] == t.slots[ring(t.n, k)] by {
                if k >= s.p { assert(t.pushed[k] == s.slots[ring(s.n, s.p + (k - s.p))]); } else { assert(t.pushed[k] == s.pushed[k]); }
            }
            assert forall|k: int| 0 <= k < t.kw implies #[trigger] t.found[k] == t.pushed[k] by { assert(s.found[k] == s.pushed[k]); assert(t.pushed[k] == s.pushed[k]); }
        },
        Stage::W => {
            assert forall|k: int| t.c <= k < t.w implies #[trigger] t.worked[k] == t.slots[ring(t.n, k)] by {
                if k >= s.w { assert(t.worked[k] == s.slots[ring(s.n, s.w + (k - s.w))]); } else { assert(t.worked[k] == s.worked[k]); }
            }
            assert forall|k: int| 0 <= k < t.c implies #[trigger] t.read[k] == t.worked[k] by { assert(s.read[k] == s.worked[k]); assert(t.worked[k] == s.worked[k]); }
        },
        Stage::C => {
            assert forall|k: int| 0 <= k < t.c implies #[trigger] t.read[k] == t.worked[k] by {
                if k >= s.c { assert(t.read[k] == s.slots[ring(s.n, s.c + (k - s.c))]); assert(s.worked[k] == s.slots[ring(s.n, k)]); }
                else { assert(t.read[k] == s.read[k]); assert(s.read[k] == s.worked[k]); }
            }
        },
    }
}

// ---- what users rely on ----

/// What the consumer has read is a prefix of what the worker released, and what the worker
/// started from is a prefix of what was pushed; the rest is in the buffer.
pub proof fn prefix<T>(s: Pipe<T>)
    requires inv(s)
    ensures
        s.read =~= s.worked.subrange(0, s.c),
        s.found =~= s.pushed.subrange(0, s.kw),
        s.worked =~= s.read + Seq::new((s.w - s.c) as nat, |j: int| s.slots[ring(s.n, s.c + j)]),
        s.pushed =~= s.found + Seq::new((s.p - s.kw) as nat, |j: int| s.slots[ring(s.n, s.kw + j)])
{
    assert forall|i: int| 0 <= i < s.worked.len() implies #[trigger] s.worked[i] == (s.read + Seq::new((s.w - s.c) as nat, |j: int| s.slots[ring(s.n, s.c + j)]))[i] by {
        if i < s.c { assert(s.read[i] == s.worked[i]); } else { assert(s.worked[i] == s.slots[ring(s.n, i)]); }
    }
    assert forall|i: int| 0 <= i < s.pushed.len() implies #[trigger] s.pushed[i] == (s.found + Seq::new((s.p - s.kw) as nat, |j: int| s.slots[ring(s.n, s.kw + j)]))[i] by {
        if i < s.kw { assert(s.found[i] == s.pushed[i]); } else { assert(s.pushed[i] == s.slots[ring(s.n, i)]); }
    }
}
/// No slot is in the hands of two stages, and none of those in no one's hands is in anyone's.
pub proof fn exclusive<T>(s: Pipe<T>, g: Stage, h: Stage, i: int, k: int)
    requires inv(s), owns(s, g, i), owns(s, h, k), g != h
    ensures ring(s.n, i) != ring(s.n, k)
{
    if i < k { ring_differs(s.n, i, k) } else { ring_differs(s.n, k, i) }
}
/// The order of the stages, the capacity, and what availabilities sum up to.
pub proof fn in_order<T>(s: Pipe<T>)
    requires inv(s)
    ensures
        s.c <= s.w <= s.p <= s.c + s.n - 1,
        room(s.n, ring(s.n, s.p), ring(s.n, s.c)) == actual(s, Stage::P) - s.p,
        dist(s.n, ring(s.n, s.w), ring(s.n, s.p)) == actual(s, Stage::W) - s.w,
        dist(s.n, ring(s.n, s.c), ring(s.n, s.w)) == actual(s, Stage::C) - s.c,
        known(s, Stage::P) <= actual(s, Stage::P), known(s, Stage::W) <= actual(s, Stage::W), known(s, Stage::C) <= actual(s, Stage::C)
{
    ring_room(s.n, s.p, s.c);
    ring_dist(s.n, s.w, s.p);
    ring_dist(s.n, s.c, s.w);
}
/// Publications are not lost: a stage that looks afresh after all others have stopped owns all
/// there is, so that stages which keep retrying drain the pipeline.
pub proof fn drains<T>(s: Pipe<T>, t: Pipe<T>, g: Stage)
    requires inv(s), learn(s, t, g, actual(s, g))
    ensures forall|i: int| pos(s, g) <= i < actual(s, g) ==> owns(t, g, i)
{}

// ---- a step of an implementation is a step of the model ----

/// A store of position `x`, the local position being `m` further, is `publish(m)`.
pub proof fn store_is_publish<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, m: int)
    requires inv(s), publish(s, t, g, m)
    ensures ring(s.n, pos(t, g)) == wrap(s.n, ring(s.n, pos(s, g)) + m), dist(s.n, ring(s.n, pos(s, g)), ring(s.n, pos(t, g))) == m
{
    ring_moves(s.n, pos(s, g), m);
    ring_dist(s.n, pos(s, g), pos(s, g) + m);
}
/// The sequential contracts compute with the same availability: a stage that looks owns all there is.
pub proof fn sequential_availability<T>(s: Pipe<T>, t: Pipe<T>, g: Stage)
    requires inv(s), learn(s, t, g, actual(s, g))
    ensures known(t, g) - pos(t, g) == match g {
        Stage::P => room(s.n, ring(s.n, s.p), ring(s.n, s.c)),
        Stage::W => dist(s.n, ring(s.n, s.w), ring(s.n, s.p)),
        Stage::C => dist(s.n, ring(s.n, s.c), ring(s.n, s.w)) }
{
    in_order(s);
}

// ---- without a worker ----

/// The consumer follows the producer: whatever is published is released to the consumer as it is.
pub open spec fn plain<T>(s: Pipe<T>) -> bool { s.w == s.p && s.kw == s.p && s.worked == s.pushed }
pub proof fn plain_publish<T>(s: Pipe<T>, t: Pipe<T>, u: Pipe<T>, x: Pipe<T>, m: int)
    requires inv(s), plain(s), publish(s, t, Stage::P, m), learn(t, u, Stage::W, t.p), publish(u, x, Stage::W, m)
    ensures inv(x), plain(x), actual(x, Stage::C) == x.p
{
    publishing(s, t, Stage::P, m);
    learning(t, u, Stage::W, t.p);
    publishing(u, x, Stage::W, m);
    assert(x.worked =~= x.pushed);
}
pub proof fn plain_rest<T>(s: Pipe<T>, t: Pipe<T>, g: Stage, k: int)
    requires inv(s), plain(s), g != Stage::W, learn(s, t, g, k) || (g == Stage::C && publish(s, t, g, k))
    ensures inv(t), plain(t)
{
    if learn(s, t, g, k) { learning(s, t, g, k); } else { publishing(s, t, g, k); }
}
pub proof fn plain_write<T>(s: Pipe<T>, t: Pipe<T>, i: int, x: T)
    requires inv(s), plain(s), write(s, t, Stage::P, i, x)
    ensures inv(t), plain(t)
{
    writing(s, t, Stage::P, i, x);
}
pub proof fn plain_prefix<T>(s: Pipe<T>)
    requires inv(s), plain(s)
    ensures s.read =~= s.pushed.subrange(0, s.c)
{
    prefix(s);
}

// ---- with a transformation ----

/// If the worker leaves f(x) wherever it found x, the consumer reads f of what was pushed, in order.
pub proof fn transformed<T>(s: Pipe<T>, f: spec_fn(T) -> T)
    requires inv(s), forall|i: int| 0 <= i < s.w ==> #[trigger] s.worked[i] == f(s.found[i])
    ensures s.read =~= Seq::new(s.c as nat, |i: int| f(s.pushed[i]))
{
    assert forall|i: int| 0 <= i < s.c implies #[trigger] s.read[i] == f(s.pushed[i]) by {
        assert(s.read[i] == s.worked[i]);
        assert(s.found[i] == s.pushed[i]);
    }
}
