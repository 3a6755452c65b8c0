//! Wing & Gong / Lowe style linearizability checker for a boolean register
//! (one association: "is `value` indexed under `keyword`").
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Write(bool),
    Read(bool),
}
#[derive(Clone, Copy, Debug)]
pub struct H {
    pub act: Act,
    pub inv: u64,
    /// `u64::MAX` when the operation never returned.
    pub ret: u64,
    /// The operation may never take effect (failed or crashed).
    pub optional: bool,
    pub who: u32,
}

pub enum Verdict {
    Ok,
    Bad,
    Inconclusive,
}

pub fn check(h: &[H], init: bool) -> Verdict {
    let n = h.len();
    if n > 120 {
        return Verdict::Inconclusive;
    }
    let mut must: u128 = 0;
    for (i, x) in h.iter().enumerate() {
        if !x.optional {
            must |= 1 << i;
        }
    }
    let mut seen: HashSet<(u128, bool)> = HashSet::new();
    let mut stack = vec![(0u128, init)];
    while let Some((done, st)) = stack.pop() {
        if done & must == must {
            return Verdict::Ok;
        }
        if !seen.insert((done, st)) {
            continue;
        }
        if seen.len() > 2_000_000 {
            return Verdict::Inconclusive;
        }
        // Earliest return among the remaining mandatory operations bounds the
        // operations that can be linearized next.
        let mut bound = u64::MAX;
        for (i, x) in h.iter().enumerate() {
            if done >> i & 1 == 0 && !x.optional {
                bound = bound.min(x.ret);
            }
        }
        for (i, x) in h.iter().enumerate() {
            if done >> i & 1 == 1 || x.inv > bound {
                continue;
            }
            let ns = match x.act {
                Act::Write(v) => v,
                Act::Read(v) => {
                    if v != st {
                        continue;
                    }
                    st
                }
            };
            stack.push((done | 1 << i, ns));
        }
    }
    Verdict::Bad
}

/// The checker must itself accept and reject what it should.
pub fn self_test() -> bool {
    let w = |v, inv, ret| H {
        act: Act::Write(v),
        inv,
        ret,
        optional: false,
        who: 0,
    };
    let rd = |v, inv, ret| H {
        act: Act::Read(v),
        inv,
        ret,
        optional: false,
        who: 1,
    };
    let ok = |h: &[H]| matches!(check(h, false), Verdict::Ok);
    ok(&[w(true, 1, 4), rd(false, 2, 3), rd(true, 5, 6)])
        && ok(&[w(true, 1, 4), rd(true, 2, 3)])
        && !ok(&[w(true, 1, 2), rd(false, 3, 4)])
        && !ok(&[w(true, 1, 8), rd(true, 2, 3), rd(false, 4, 5)])
        && ok(&[w(true, 1, 8), w(false, 1, 8), rd(true, 2, 3), rd(false, 4, 5)])
        && !ok(&[w(true, 1, 2), w(false, 3, 4), rd(true, 5, 6)])
        && ok(&[
            H {
                act: Act::Write(true),
                inv: 1,
                ret: u64::MAX,
                optional: true,
                who: 0
            },
            rd(false, 2, 3),
            rd(true, 8, 9)
        ])
}
