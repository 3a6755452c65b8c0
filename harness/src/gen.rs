//! Input generators.
use crate::{
    ix::{Assoc, By, Val},
    rng::R,
};

/// Lengths around every boundary of the format.
pub fn len(r: &mut R) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 | 3 => r.range(2, 14),
        4 | 5 => r.range(14, 18),
        6 => r.range(30, 34),
        7 => r.range(62, 82),
        8 => r.range(1, 120),
        9 => *r.pick(&[127, 128, 143, 144, 159, 160, 239, 240, 253, 254, 255, 256, 257]),
        _ => r.range(3, 24),
    }
}
pub fn content(r: &mut R, n: usize) -> By {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => vec![*r.pick(&[b'w', b'l', 16, 1, 15, 17]); n],
        3 => {
            let mut v = b"lw".repeat(n / 2 + 1);
            v.truncate(n);
            v
        }
        4 => (0..n).map(|i| b'a' + (i % 26) as u8).collect(),
        _ => r.bytes(n),
    }
}
pub fn byte_string(r: &mut R) -> By {
    let n = len(r);
    content(r, n)
}

#[derive(Clone, Debug)]
pub struct Uni {
    pub kw: Vec<By>,
    pub data: Vec<By>,
    /// Kind and size of the large operations.
    pub big: Option<(Big, usize)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Big {
    /// Many short values of one keyword.
    Values,
    /// Many long values of one keyword: one line each.
    Lines,
    /// Many keywords.
    Keywords,
    /// A long value.
    Bytes,
    /// Many keywords with many values each.
    Both,
}
fn distinct(r: &mut R, n: usize, f: impl Fn(&mut R, &[By]) -> By) -> Vec<By> {
    let mut v: Vec<By> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 50 * n + 50 {
        let x = f(r, &v);
        if !v.contains(&x) {
            v.push(x);
        }
        tries += 1;
    }
    v
}
pub fn near(r: &mut R, v: &[By]) -> By {
    // A neighbour of an existing string: prefix, extension, one bit changed.
    let mut b = r.pick(v).clone();
    match r.below(4) {
        0 if !b.is_empty() => {
            b.pop();
        }
        1 => b.push(r.u64() as u8),
        2 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
        _ => b.insert(0, r.u64() as u8),
    }
    b
}
pub fn universe(r: &mut R, nk: usize, nd: usize) -> Uni {
    let plain = r.chance(1, 3);
    let kw = distinct(r, nk, |r, v| {
        if plain {
            let n = r.range(3, 9);
            (0..n).map(|_| b'a' + r.below(26) as u8).collect()
        } else if !v.is_empty() && r.chance(1, 3) {
            near(r, v)
        } else {
            byte_string(r)
        }
    });
    let kwc = kw.clone();
    let data = distinct(r, nd, |r, v| {
        if !v.is_empty() && r.chance(1, 3) {
            near(r, v)
        } else if r.chance(1, 8) {
            r.pick(&kwc).clone()
        } else {
            byte_string(r)
        }
    });
    let mut u = Uni { kw, data, big: None };
    if r.big > 0 && !u.kw.is_empty() {
        let b = *r.pick(&[Big::Values, Big::Lines, Big::Keywords, Big::Bytes, Big::Both]);
        let n = r.big;
        let more = match b {
            Big::Keywords => n,
            Big::Both => (n as f64).sqrt() as usize,
            _ => 0,
        };
        u.kw.extend((0..more).map(|i| format!("big-keyword-{i}").into_bytes()));
        let (many, l) = match b {
            Big::Values => (2 * n, 6),
            Big::Lines => (2 * n, 70),
            Big::Both => (n + more, 30),
            _ => (0, 0),
        };
        u.data.extend((0..many).map(|i| big_value(i, l)));
        if b == Big::Bytes {
            let n = 16 * n + r.below(16);
            u.data.push(r.bytes(n));
        }
        u.big = Some((b, n));
    }
    u
}
fn big_value(i: usize, l: usize) -> By {
    let mut v = format!("{i:06}").into_bytes();
    v.resize(l, b'.');
    v
}
/// A large operation.
fn big(r: &mut R, u: &Uni, b: Big, n: usize) -> Assoc {
    // Operations overlap in part.
    let from = r.below(3) * n / 2;
    let val = |i: usize, l: usize| Val::D(big_value(from + i, l));
    match b {
        Big::Values => {
            let k = r.pick(&u.kw).clone();
            (0..n).map(|i| (val(i, 6), vec![k.clone()])).collect()
        }
        Big::Lines => {
            let k = r.pick(&u.kw).clone();
            (0..n).map(|i| (val(i, 70), vec![k.clone()])).collect()
        }
        Big::Keywords => vec![(Val::D(r.pick(&u.data).clone()), u.kw.clone())],
        Big::Bytes => vec![(Val::D(u.data[u.data.len() - 1].clone()), vec![r.pick(&u.kw).clone()])],
        Big::Both => {
            let m = (n as f64).sqrt() as usize;
            (0..m).map(|i| (val(i, 30), u.kw.clone())).collect()
        }
    }
}

pub fn value(r: &mut R, u: &Uni, ptr: usize) -> Val {
    if r.below(100) < ptr {
        if r.chance(1, 10) {
            Val::P(byte_string(r))
        } else {
            Val::P(r.pick(&u.kw).clone())
        }
    } else {
        Val::D(r.pick(&u.data).clone())
    }
}
/// Up to `nv` values, each under up to `nk` keywords.
pub fn assoc(r: &mut R, u: &Uni, nv: usize, nk: usize, ptr: usize) -> Assoc {
    if let Some((b, n)) = u.big {
        if r.chance(1, 2) {
            return big(r, u, b, n);
        }
    }
    // Sometimes nothing at all, sometimes values under no keyword.
    let n = if r.chance(1, 50) { 0 } else { r.range(1, nv) };
    let none = r.chance(1, 30);
    let mut a: Assoc = vec![];
    for _ in 0..n {
        let v = value(r, u, ptr);
        let ks = if none && r.chance(1, 2) { vec![] } else { r.subset(&u.kw, nk) };
        if let Some(e) = a.iter_mut().find(|e| e.0 == v) {
            for k in ks {
                if !e.1.contains(&k) {
                    e.1.push(k);
                }
            }
        } else {
            a.push((v, ks));
        }
    }
    a
}
/// The same with at least one association.
pub fn some(r: &mut R, u: &Uni, nv: usize, nk: usize, ptr: usize) -> Assoc {
    loop {
        let a = assoc(r, u, nv, nk, ptr);
        if a.iter().any(|(_, ks)| !ks.is_empty()) {
            return a;
        }
    }
}
pub fn rate(r: &mut R) -> f64 {
    *r.pick(&[0.0, 0.05, 0.2, 1.0 / 3.0, 0.5, 0.75, 1.0, 1.0])
}
