//! Independent reader / writer of the stored format (does not use the crate
//! under test): SHA3, SHAKE256, KMACXOF256, AES-256-GCM, links and entries.
use std::collections::{BTreeMap, BTreeSet};

use aes_gcm::{
    aead::{AeadInPlace, KeyInit},
    Aes256Gcm, Key, Nonce, Tag,
};
use tiny_keccak::{Hasher, IntoXof, Kmac, Sha3, Shake, Xof};

use crate::rng::R;

pub const ET_INFO: &[u8] = b"Entry Table key derivation info.";
pub const CT_INFO: &[u8] = b"Chain Table key derivation info.";
pub type B32 = [u8; 32];
pub type Tbl = BTreeMap<B32, Vec<u8>>;

#[derive(Clone, Debug)]
pub struct EK {
    pub tok: B32,
    pub dem: B32,
}

fn shake(parts: &[&[u8]]) -> B32 {
    let mut h = Shake::v256();
    for p in parts {
        h.update(p);
    }
    let mut o = [0; 32];
    h.finalize(&mut o);
    o
}
pub fn kmac(key: &B32, parts: &[&[u8]]) -> B32 {
    let mut k = Kmac::v256(key, b"");
    for p in parts {
        k.update(p);
    }
    let mut x = k.into_xof();
    let mut o = [0; 32];
    x.squeeze(&mut o);
    o
}
pub fn et_key(user_key: &[u8]) -> EK {
    EK {
        tok: shake(&[user_key, ET_INFO, b"KMAC key"]),
        dem: shake(&[user_key, ET_INFO, b"DEM key"]),
    }
}
pub fn ct_key(seed: &[u8]) -> EK {
    EK {
        tok: shake(&[seed, CT_INFO, b"KMAC key"]),
        dem: shake(&[seed, CT_INFO, b"DEM key"]),
    }
}
pub fn tag_hash(kw: &[u8]) -> B32 {
    let mut h = Sha3::v256();
    h.update(kw);
    let mut o = [0; 32];
    h.finalize(&mut o);
    o
}
pub fn et_token(k: &EK, tag: &B32, label: &[u8]) -> B32 {
    kmac(&k.tok, &[tag, label])
}
pub fn ct_next(k: &EK, prev: &B32) -> B32 {
    kmac(&k.tok, &[prev, CT_INFO])
}
pub fn open(dem: &B32, val: &[u8]) -> Option<Vec<u8>> {
    if val.len() < 28 {
        return None;
    }
    let n = val.len();
    let mut b = val[12..n - 16].to_vec();
    Aes256Gcm::new(Key::<Aes256Gcm>::from_slice(dem))
        .decrypt_in_place_detached(
            Nonce::from_slice(&val[..12]),
            b"",
            &mut b,
            Tag::from_slice(&val[n - 16..]),
        )
        .ok()?;
    Some(b)
}
pub fn seal(dem: &B32, nonce: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut b = pt.to_vec();
    // Encryption with AES-GCM only fails over 64 GB.
    let t = match Aes256Gcm::new(Key::<Aes256Gcm>::from_slice(dem)).encrypt_in_place_detached(
        Nonce::from_slice(nonce),
        b"",
        &mut b,
    ) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let mut o = nonce.to_vec();
    o.extend(b);
    o.extend_from_slice(&t);
    o
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub last: B32,
    pub seed: [u8; 16],
    pub tag: B32,
}
impl Ent {
    pub fn dec(b: &[u8]) -> Ent {
        let mut e = Ent {
            last: [0; 32],
            seed: [0; 16],
            tag: [0; 32],
        };
        e.last.copy_from_slice(&b[..32]);
        e.seed.copy_from_slice(&b[32..48]);
        e.tag.copy_from_slice(&b[48..80]);
        e
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = self.last.to_vec();
        v.extend(self.seed);
        v.extend(self.tag);
        v
    }
    /// Chain tokens from the first one to `last`; `None` beyond `cap`.
    pub fn chain(&self, cap: usize) -> Option<Vec<B32>> {
        if self.last == [0; 32] {
            return Some(vec![]);
        }
        let k = ct_key(&self.seed);
        let mut v = vec![];
        let mut t = self.tag;
        while v.len() < cap {
            t = ct_next(&k, &t);
            v.push(t);
            if t == self.last {
                return Some(v);
            }
        }
        None
    }
}

/// Decodes a chain into (is_addition, indexed value bytes) in order.
pub fn unlink(lines: &[Vec<u8>]) -> Result<Vec<(bool, Vec<u8>)>, String> {
    let mut out = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut cur_op: Option<bool> = None;
    for l in lines {
        if l.len() != 86 {
            return Err(format!("line of {} bytes", l.len()));
        }
        for pos in 0..5 {
            let add = l[0] >> pos & 1 == 1;
            let b = &l[1 + pos * 17..1 + (pos + 1) * 17];
            if cur_op.is_some_and(|o| o != add) {
                return Err("blocks of one value with different operations".into());
            }
            if b[0] == 255 {
                cur.extend(&b[1..]);
                cur_op = Some(add);
            } else if b[0] > 16 {
                return Err(format!("block length {}", b[0]));
            } else {
                cur.extend(&b[1..=b[0] as usize]);
                out.push((add, std::mem::take(&mut cur)));
                cur_op = None;
            }
        }
    }
    if !cur.is_empty() {
        return Err("unterminated value".into());
    }
    Ok(out)
}

pub fn link(mods: &[(bool, Vec<u8>)]) -> Vec<Vec<u8>> {
    let mut blocks: Vec<(bool, u8, Vec<u8>)> = vec![];
    for (add, v) in mods {
        let full = v.len() / 16;
        for i in 0..full {
            blocks.push((*add, 255, v[i * 16..(i + 1) * 16].to_vec()));
        }
        let rest = &v[full * 16..];
        blocks.push((*add, rest.len() as u8, rest.to_vec()));
    }
    blocks
        .chunks(5)
        .map(|c| {
            let mut l = vec![0u8; 86];
            for (i, (add, n, d)) in c.iter().enumerate() {
                if *add {
                    l[0] |= 1 << i;
                }
                l[1 + i * 17] = *n;
                l[2 + i * 17..2 + i * 17 + d.len()].copy_from_slice(d);
            }
            l
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct KwView {
    pub ent: Ent,
    pub chain: Vec<B32>,
    /// Chain lines present (in order), decrypted.
    pub lines: Vec<Vec<u8>>,
    pub missing: usize,
    pub live: BTreeSet<Vec<u8>>,
    pub mods: Vec<(bool, Vec<u8>)>,
}

pub const CAP: usize = 200_000;

pub fn view(ent: Ent, ct: &Tbl) -> Result<KwView, String> {
    let chain = ent
        .chain(CAP)
        .ok_or_else(|| "last chain token is not derivable from the seed".to_string())?;
    let k = ct_key(&ent.seed);
    let mut lines = vec![];
    let mut missing = 0;
    for t in &chain {
        match ct.get(t) {
            None => missing += 1,
            Some(v) => lines.push(
                open(&k.dem, v).ok_or_else(|| "chain line does not decrypt".to_string())?,
            ),
        }
    }
    let mods = unlink(&lines)?;
    let mut live = BTreeSet::new();
    for (add, v) in &mods {
        if *add {
            live.insert(v.clone());
        } else {
            live.remove(v);
        }
    }
    Ok(KwView {
        ent,
        chain,
        lines,
        missing,
        live,
        mods,
    })
}

/// Reads the line of one keyword.
pub fn read_kw(
    et: &Tbl,
    ct: &Tbl,
    user_key: &[u8],
    label: &[u8],
    kw: &[u8],
) -> Result<Option<KwView>, String> {
    let k = et_key(user_key);
    let th = tag_hash(kw);
    let Some(v) = et.get(&et_token(&k, &th, label)) else {
        return Ok(None);
    };
    let e = open(&k.dem, v).ok_or("entry does not decrypt")?;
    if e.len() != 80 {
        return Err(format!("entry of {} bytes", e.len()));
    }
    let ent = Ent::dec(&e);
    if ent.tag != th {
        return Err("entry holds another tag".into());
    }
    view(ent, ct).map(Some)
}

/// Reads every entry of the table with the given key.
pub fn read_all(et: &Tbl, ct: &Tbl, user_key: &[u8]) -> Result<Vec<(B32, KwView)>, String> {
    let k = et_key(user_key);
    et.iter()
        .map(|(t, v)| {
            let e = open(&k.dem, v).ok_or("entry does not decrypt")?;
            Ok((*t, view(Ent::dec(&e), ct)?))
        })
        .collect()
}

/// Writes one operation on one keyword the way the documentation describes.
pub fn write_kw(
    r: &mut R,
    et: &mut Tbl,
    ct: &mut Tbl,
    user_key: &[u8],
    label: &[u8],
    kw: &[u8],
    mods: &[(bool, Vec<u8>)],
) -> Result<(), String> {
    let k = et_key(user_key);
    let th = tag_hash(kw);
    let et_tok = et_token(&k, &th, label);
    let mut ent = match et.get(&et_tok) {
        Some(v) => Ent::dec(&open(&k.dem, v).ok_or("entry does not decrypt")?),
        None => {
            let mut seed = [0; 16];
            seed.copy_from_slice(&r.bytes(16));
            Ent {
                last: [0; 32],
                seed,
                tag: th,
            }
        }
    };
    let ck = ct_key(&ent.seed);
    let mut t = if ent.last == [0; 32] { ent.tag } else { ent.last };
    for l in link(mods) {
        t = ct_next(&ck, &t);
        if ct.insert(t, seal(&ck.dem, &r.bytes(12), &l)).is_some() {
            return Err("chain token already used".into());
        }
        ent.last = t;
    }
    et.insert(et_tok, seal(&k.dem, &r.bytes(12), &ent.enc()));
    Ok(())
}
