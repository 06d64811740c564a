//! Abstract state of a buffer and the meaning of positions. Pure arithmetic: this text is also
//! translated to Verus specification functions (see /verif/lemmas).

/// Position `x`, in `0..2n`, as a ring position.
pub fn wrap(n: usize, x: usize) -> usize { if x >= n { x - n } else { x } }
/// Slots from `a` forward to `b`.
pub fn dist(n: usize, a: usize, b: usize) -> usize { if a <= b { b - a } else { n - a + b } }
/// What a producer at `p` may use, the consumer being at `c`.
pub fn room(n: usize, p: usize, c: usize) -> usize { if p < c { c - p - 1 } else { n - p + c - 1 } }
/// Slot `j` is one of the `k` slots from `a` on.
pub fn within(n: usize, a: usize, k: usize, j: usize) -> bool { dist(n, a, j) < k }

/// The facts of arithmetic the harnesses rely on without deriving them; proved by Verus.
pub fn lemma_room(n: usize, p: usize, c: usize, k: usize) -> bool { room(n, wrap(n, p + k), c) == room(n, p, c) - k }
pub fn lemma_dist(n: usize, a: usize, b: usize, k: usize) -> bool { dist(n, wrap(n, a + k), b) == dist(n, a, b) - k }
