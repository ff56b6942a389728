//! Reference model, written from BIP341, BIP350, BIP352 and BIP374 (not from the code under
//! test). Only curve arithmetic, SHA256 and transaction types come from libraries.
use bitcoin::hashes::{hash160, sha256, Hash, HashEngine};
use bitcoin::secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey, XOnlyPublicKey};
use bitcoin::{OutPoint, ScriptBuf, Transaction, TxIn, TxOut};

pub fn secp() -> &'static Secp256k1<bitcoin::secp256k1::All> {
    use std::sync::OnceLock;
    static S: OnceLock<Secp256k1<bitcoin::secp256k1::All>> = OnceLock::new();
    S.get_or_init(Secp256k1::new)
}

pub fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes()).to_byte_array();
    let mut e = sha256::Hash::engine();
    e.input(&t);
    e.input(&t);
    for p in parts {
        e.input(p);
    }
    sha256::Hash::from_engine(e).to_byte_array()
}

pub fn hash160(b: &[u8]) -> [u8; 20] {
    hash160::Hash::hash(b).to_byte_array()
}

pub fn sum_points(ks: &[PublicKey]) -> Option<PublicKey> {
    let mut acc: Option<PublicKey> = None;
    for k in ks {
        acc = match acc {
            None => Some(*k),
            // libsecp refuses only the point at infinity
            Some(a) => a.combine(k).ok(),
        };
    }
    acc
}

/// Sum of scalars mod n, None being zero.
pub fn sum_scalars(ks: &[SecretKey]) -> Option<SecretKey> {
    let mut acc: Option<SecretKey> = None;
    for k in ks {
        acc = match acc {
            None => Some(*k),
            Some(a) => a.add_tweak(&Scalar::from(*k)).ok(),
        };
    }
    acc
}

pub fn mul_point(p: &PublicKey, s: &[u8; 32]) -> PublicKey {
    p.mul_tweak(secp(), &Scalar::from_be_bytes(*s).unwrap()).unwrap()
}

pub fn point_of(s: &[u8; 32]) -> PublicKey {
    SecretKey::from_slice(s).unwrap().public_key(secp())
}

pub fn xonly(p: &PublicKey) -> [u8; 32] {
    p.serialize()[1..].try_into().unwrap()
}

pub fn p2tr_spk(x: &[u8; 32]) -> ScriptBuf {
    let mut v = vec![0x51, 0x20];
    v.extend_from_slice(x);
    ScriptBuf::from_bytes(v)
}

// ---------------------------------------------------------------------------------------------
// Script templates, on bytes.

pub fn is_p2tr(s: &[u8]) -> bool {
    s.len() == 34 && s[0] == 0x51 && s[1] == 0x20
}
pub fn is_p2wpkh(s: &[u8]) -> bool {
    s.len() == 22 && s[0] == 0 && s[1] == 0x14
}
pub fn is_p2sh(s: &[u8]) -> bool {
    s.len() == 23 && s[0] == 0xa9 && s[1] == 0x14 && s[22] == 0x87
}
pub fn is_p2pkh(s: &[u8]) -> bool {
    s.len() == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 0x14 && s[23] == 0x88 && s[24] == 0xac
}
/// A witness program of version greater than 1.
pub fn is_future_segwit(s: &[u8]) -> bool {
    s.len() >= 4 && s.len() <= 42 && (0x52..=0x60).contains(&s[0]) && s[1] as usize == s.len() - 2 && (2..=40).contains(&s[1])
}

pub const NUMS: [u8; 32] = [
    0x50, 0x92, 0x9b, 0x74, 0xc1, 0xa0, 0x49, 0x54, 0xb7, 0x8b, 0x4b, 0x60, 0x35, 0xe9, 0x7a, 0x5e, 0x07, 0x8a, 0x5a,
    0x0f, 0x28, 0xec, 0x96, 0xd5, 0x47, 0xbf, 0xee, 0x9a, 0xce, 0x80, 0x3a, 0xc0,
];

fn compressed(b: &[u8]) -> Option<PublicKey> {
    if b.len() == 33 && (b[0] == 2 || b[0] == 3) {
        PublicKey::from_slice(b).ok()
    } else {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Tr,
    Wpkh,
    ShWpkh,
    Pkh,
}

/// BIP352 "Inputs for shared secret derivation": the public key an input contributes.
pub fn eligible(txin: &TxIn, spk: &ScriptBuf) -> Option<(Kind, PublicKey)> {
    let s = spk.as_bytes();
    let sig = txin.script_sig.as_bytes();
    let wit: Vec<&[u8]> = txin.witness.iter().collect();
    if is_p2pkh(s) {
        if !wit.is_empty() {
            return None;
        }
        let want = &s[3..23];
        for end in (33..=sig.len()).rev() {
            let w = &sig[end - 33..end];
            if hash160(w)[..] == *want {
                if let Some(p) = compressed(w) {
                    return Some((Kind::Pkh, p));
                }
            }
        }
        return None;
    }
    if is_p2sh(s) {
        if sig.len() == 23 && sig[0] == 22 && is_p2wpkh(&sig[1..]) && !wit.is_empty() {
            return compressed(wit.last()?).map(|p| (Kind::ShWpkh, p));
        }
        return None;
    }
    if is_p2wpkh(s) {
        if !sig.is_empty() {
            return None;
        }
        return compressed(wit.last()?).map(|p| (Kind::Wpkh, p));
    }
    if is_p2tr(s) {
        if !sig.is_empty() || wit.is_empty() {
            return None;
        }
        let mut n = wit.len();
        if n > 1 && wit[n - 1].first() == Some(&0x50) {
            n -= 1;
        }
        if n > 1 {
            let cb = wit[n - 1];
            if cb.len() >= 33 && cb[1..33] == NUMS {
                return None;
            }
        }
        let mut k = vec![2u8];
        k.extend_from_slice(&s[2..34]);
        return compressed(&k).map(|p| (Kind::Tr, p));
    }
    None
}

/// COutPoint serialisation: txid bytes in internal order, then the vout in little endian.
pub fn outpoint_bytes(o: &OutPoint) -> [u8; 36] {
    let mut b = [0u8; 36];
    b[..32].copy_from_slice(o.txid.as_ref());
    b[32..].copy_from_slice(&o.vout.to_le_bytes());
    b
}

pub fn smallest_outpoint(os: impl Iterator<Item = OutPoint>) -> Option<[u8; 36]> {
    os.map(|o| outpoint_bytes(&o)).min()
}

pub fn input_hash(outpoint: &[u8; 36], a_sum: &PublicKey) -> [u8; 32] {
    tagged("BIP0352/Inputs", &[outpoint, &a_sum.serialize()])
}

pub fn label_hash(scan_sk: &SecretKey, m: u32) -> [u8; 32] {
    tagged("BIP0352/Label", &[&scan_sk.secret_bytes(), &m.to_be_bytes()])
}

pub fn shared_hash(ecdh: &PublicKey, k: u32) -> [u8; 32] {
    tagged("BIP0352/SharedSecret", &[&ecdh.serialize(), &k.to_be_bytes()])
}

/// Public tweak data: input_hash * A_sum; None when the transaction is not to be scanned.
pub fn tweak_data(tx: &Transaction, prevouts: &[TxOut]) -> Option<PublicKey> {
    if prevouts.iter().any(|p| is_future_segwit(p.script_pubkey.as_bytes())) {
        return None;
    }
    let keys: Vec<PublicKey> =
        tx.input.iter().zip(prevouts).filter_map(|(i, p)| eligible(i, &p.script_pubkey)).map(|x| x.1).collect();
    let a = sum_points(&keys)?;
    let op = smallest_outpoint(tx.input.iter().map(|i| i.previous_output))?;
    Some(mul_point(&a, &input_hash(&op, &a)))
}

/// Sender side: `keys` are the secrets of eligible inputs already in the form that the spec sums
/// (taproot output secrets negated when their point has odd y). Returns the key per recipient, in
/// recipient order; k counts per scan key.
pub fn sender_keys(
    keys: &[SecretKey],
    outpoint: &[u8; 36],
    recipients: &[(PublicKey, PublicKey)],
) -> Option<Vec<[u8; 32]>> {
    let a = sum_scalars(keys)?;
    let ih = input_hash(outpoint, &a.public_key(secp()));
    let part = a.mul_tweak(&Scalar::from_be_bytes(ih).unwrap()).unwrap();
    let mut out = vec![];
    for (i, (scan, spend)) in recipients.iter().enumerate() {
        let k = recipients[..i].iter().filter(|r| r.0 == *scan).count() as u32;
        let ecdh = mul_point(scan, &part.secret_bytes());
        let t = point_of(&shared_hash(&ecdh, k));
        out.push(xonly(&spend.combine(&t).ok()?));
    }
    Some(out)
}

/// Even-y form of a taproot output secret.
pub fn even(sk: SecretKey) -> SecretKey {
    if sk.public_key(secp()).serialize()[0] == 3 {
        sk.negate()
    } else {
        sk
    }
}

pub fn add_sk(a: &SecretKey, b: &[u8; 32]) -> SecretKey {
    a.add_tweak(&Scalar::from_be_bytes(*b).unwrap()).unwrap()
}

/// BIP341 key path tweak of an internal secret.
pub fn taproot_output_secret(internal: &SecretKey, merkle_root: Option<[u8; 32]>) -> SecretKey {
    let i = even(*internal);
    let p = xonly(&i.public_key(secp()));
    let t = match merkle_root {
        None => tagged("TapTweak", &[&p]),
        Some(r) => tagged("TapTweak", &[&p, &r]),
    };
    add_sk(&i, &t)
}

/// One output detected for a receiver.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Match {
    pub k: u32,
    pub vout: u32,
    pub label: Option<u32>,
    pub tweak: [u8; 32],
}

/// All (output, label) pairs that the k-th derivation of this receiver matches.
pub fn matches_at(
    ecdh: &PublicKey,
    spend_pk: &PublicKey,
    scan_sk: &SecretKey,
    labels: &[u32],
    tx: &Transaction,
    k: u32,
) -> Vec<Match> {
    let t = shared_hash(ecdh, k);
    let mut cands: Vec<([u8; 32], Option<u32>, [u8; 32])> = vec![];
    let base = spend_pk.combine(&point_of(&t)).unwrap();
    cands.push((xonly(&base), None, t));
    for m in labels {
        let l = label_hash(scan_sk, *m);
        // B_m = B_spend + label*G ; P = B_m + t*G
        if let Ok(bm) = spend_pk.combine(&point_of(&l)) {
            if let Ok(p) = bm.combine(&point_of(&t)) {
                let tw = add_sk(&SecretKey::from_slice(&t).unwrap(), &l);
                cands.push((xonly(&p), Some(*m), tw.secret_bytes()));
            }
        }
    }
    let mut r = vec![];
    for (vout, o) in tx.output.iter().enumerate() {
        let s = o.script_pubkey.as_bytes();
        if !is_p2tr(s) {
            continue;
        }
        for (x, label, tweak) in &cands {
            if s[2..] == x[..] {
                r.push(Match { k, vout: vout as u32, label: *label, tweak: *tweak });
            }
        }
    }
    r
}

/// A detected output as reported by the code under test.
#[derive(Clone, Debug)]
pub struct Reported {
    pub vout: u32,
    pub label: Option<u32>,
    pub tweak: [u8; 32],
}

/// Is `got` a correct answer of BIP352 scanning? Where several outputs match the same k (only a
/// protocol-violating sender does that) any one of them may be taken for that k; everything else
/// is determined. Returns the number of k positions found.
pub fn judge_scan(
    ecdh: &PublicKey,
    spend_pk: &PublicKey,
    scan_sk: &SecretKey,
    labels: &[u32],
    tx: &Transaction,
    got: &[Reported],
) -> Result<u32, String> {
    let mut left: Vec<Reported> = got.to_vec();
    let mut taken: Vec<u32> = vec![];
    let mut k = 0u32;
    loop {
        let ms: Vec<Match> =
            matches_at(ecdh, spend_pk, scan_sk, labels, tx, k).into_iter().filter(|m| !taken.contains(&m.vout)).collect();
        if ms.is_empty() {
            break;
        }
        // the report for this k is the one whose tweak belongs to k
        let pos = left.iter().position(|r| ms.iter().any(|m| m.vout == r.vout && m.tweak == r.tweak && m.label == r.label));
        match pos {
            Some(p) => {
                let r = left.remove(p);
                taken.push(r.vout);
            }
            None => {
                // an output that matches several k (identical keys) may have been consumed later
                return Err(format!("output matching derivation k={k} not reported (candidates {ms:?}, reported {got:?})"));
            }
        }
        k += 1;
    }
    if !left.is_empty() {
        return Err(format!("reported outputs that no derivation yields: {left:?} (positions found: {k})"));
    }
    Ok(k)
}

// ---------------------------------------------------------------------------------------------
// BIP350 bech32m, and the silent payment address of BIP352.

const CHARSET: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub const BECH32M: u32 = 0x2bc8_30a3;

fn polymod(values: impl Iterator<Item = u8>) -> u32 {
    const G: [u32; 5] = [0x3b6a_57b2, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3];
    let mut c: u32 = 1;
    for v in values {
        let b = c >> 25;
        c = ((c & 0x1ff_ffff) << 5) ^ v as u32;
        for (i, g) in G.iter().enumerate() {
            if (b >> i) & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}

fn hrp_expand(hrp: &str) -> Vec<u8> {
    let mut v: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(hrp.bytes().map(|b| b & 31));
    v
}

/// Encode 5-bit groups under `hrp` with the given checksum constant.
pub fn bech32_encode(hrp: &str, data: &[u8], constant: u32) -> String {
    let mut v = hrp_expand(hrp);
    v.extend_from_slice(data);
    v.extend([0u8; 6]);
    let pm = polymod(v.into_iter()) ^ constant;
    let mut s = format!("{hrp}1");
    for d in data {
        s.push(CHARSET[*d as usize] as char);
    }
    for i in 0..6 {
        s.push(CHARSET[((pm >> (5 * (5 - i))) & 31) as usize] as char);
    }
    s
}

/// Decode; None if not a valid string with that checksum constant.
pub fn bech32_decode(s: &str, constant: u32) -> Option<(String, Vec<u8>)> {
    // BIP352 raises the length limit to 1023 characters
    if s.len() > 1023 || !s.bytes().all(|b| (33..=126).contains(&b)) {
        return None;
    }
    let lower = s.to_ascii_lowercase();
    if s != lower && s != s.to_ascii_uppercase() {
        return None;
    }
    let pos = lower.rfind('1')?;
    if pos == 0 || pos > 83 || lower.len() - pos - 1 < 6 {
        return None;
    }
    let hrp = &lower[..pos];
    let mut d = vec![];
    for b in lower[pos + 1..].bytes() {
        d.push(CHARSET.iter().position(|c| *c == b)? as u8);
    }
    let mut v = hrp_expand(hrp);
    v.extend_from_slice(&d);
    if polymod(v.into_iter()) != constant {
        return None;
    }
    d.truncate(d.len() - 6);
    Some((hrp.to_string(), d))
}

pub fn to_fives(bytes: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in bytes {
        acc = (acc << 8) | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(((acc >> bits) & 31) as u8);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        out.push(((acc << (5 - bits)) & 31) as u8);
    }
    out
}

/// 5-bit groups to bytes; the second value says whether the padding obeys BIP173 (fewer than five
/// bits, all zero).
pub fn to_bytes(fives: &[u8]) -> (Vec<u8>, bool) {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for f in fives {
        acc = (acc << 5) | *f as u32;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    (out, bits < 5 && acc == 0)
}

pub fn encode_code(hrp: &str, version: u8, scan: &PublicKey, spend: &PublicKey) -> String {
    let mut p = scan.serialize().to_vec();
    p.extend_from_slice(&spend.serialize());
    let mut d = vec![version];
    d.extend(to_fives(&p));
    bech32_encode(hrp, &d, BECH32M)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Code {
    pub hrp: String,
    pub version: u8,
    pub scan: PublicKey,
    pub spend: PublicKey,
}

/// What a BIP352 address parser must accept.
pub fn decode_code(s: &str) -> Option<Code> {
    let (hrp, d) = bech32_decode(s, BECH32M)?;
    if !["sp", "tsp", "sprt"].contains(&hrp.as_str()) {
        return None;
    }
    let version = *d.first()?;
    let (bytes, pad_ok) = to_bytes(&d[1..]);
    if !pad_ok {
        return None;
    }
    match version {
        0 if bytes.len() != 66 => return None,
        1..=30 if bytes.len() < 66 => return None,
        31 => return None,
        _ => {}
    }
    Some(Code { hrp, version, scan: compressed(&bytes[..33])?, spend: compressed(&bytes[33..66])? })
}

// ---------------------------------------------------------------------------------------------
// BIP374

pub struct Dleq;
impl Dleq {
    pub fn challenge(
        a: &PublicKey,
        b: &PublicKey,
        c: &PublicKey,
        g: &PublicKey,
        r1: &PublicKey,
        r2: &PublicKey,
        m: Option<&[u8; 32]>,
    ) -> [u8; 32] {
        let (a, b, c, g, r1, r2) = (a.serialize(), b.serialize(), c.serialize(), g.serialize(), r1.serialize(), r2.serialize());
        let mut parts: Vec<&[u8]> = vec![&a, &b, &c, &g, &r1, &r2];
        if let Some(m) = m {
            parts.push(m);
        }
        tagged("BIP0374/challenge", &parts)
    }
    pub fn prove(a: &SecretKey, b: &PublicKey, r: &[u8; 32], g: &PublicKey, m: Option<&[u8; 32]>) -> [u8; 64] {
        let pa = mul_point(g, &a.secret_bytes());
        let pc = mul_point(b, &a.secret_bytes());
        let aux = tagged("BIP0374/aux", &[r]);
        let mut t = a.secret_bytes();
        for i in 0..32 {
            t[i] ^= aux[i];
        }
        let (sa, sc) = (pa.serialize(), pc.serialize());
        let mut parts: Vec<&[u8]> = vec![&t, &sa, &sc];
        if let Some(m) = m {
            parts.push(m);
        }
        let k = SecretKey::from_slice(&tagged("BIP0374/nonce", &parts)).unwrap();
        let r1 = mul_point(g, &k.secret_bytes());
        let r2 = mul_point(b, &k.secret_bytes());
        let e = Self::challenge(&pa, b, &pc, g, &r1, &r2, m);
        let ea = a.mul_tweak(&Scalar::from_be_bytes(e).unwrap()).unwrap();
        let s = k.add_tweak(&Scalar::from(ea)).unwrap();
        let mut out = [0u8; 64];
        out[..32].copy_from_slice(&e);
        out[32..].copy_from_slice(&s.secret_bytes());
        out
    }
    pub fn verify(
        a: &PublicKey,
        b: &PublicKey,
        c: &PublicKey,
        proof: &[u8; 64],
        g: &PublicKey,
        m: Option<&[u8; 32]>,
    ) -> bool {
        let e: [u8; 32] = proof[..32].try_into().unwrap();
        let s: [u8; 32] = proof[32..].try_into().unwrap();
        // r1 = s*G - e*A, with zero scalars giving the point at infinity
        let lin = |p: &PublicKey, q: &PublicKey| -> Option<PublicKey> {
            let x = mul_opt(p, &s)?;
            let y = mul_opt(q, &e)?.map(|y| y.negate(secp()));
            match (x, y) {
                (None, None) => None,
                (Some(v), None) | (None, Some(v)) => Some(v),
                (Some(x), Some(y)) => x.combine(&y).ok(),
            }
        };
        let (Some(r1), Some(r2)) = (lin(g, a), lin(b, c)) else { return false };
        Self::challenge(a, b, c, g, &r1, &r2, m) == e
    }
}

/// Outer None: scalar not below n. Inner None: infinity.
fn mul_opt(p: &PublicKey, s: &[u8; 32]) -> Option<Option<PublicKey>> {
    if *s == [0u8; 32] {
        return Some(None);
    }
    let sc = Scalar::from_be_bytes(*s).ok()?;
    Some(p.mul_tweak(secp(), &sc).ok())
}

pub fn xonly_key(x: &[u8; 32]) -> Option<XOnlyPublicKey> {
    XOnlyPublicKey::from_slice(x).ok()
}
