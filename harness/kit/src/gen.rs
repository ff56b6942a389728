//! Workload generators: transactions whose inputs mix every script type that matters to BIP352.
use crate::model::{self, even, hash160, p2tr_spk, secp, taproot_output_secret, xonly};
use crate::Rng;
use bitcoin::absolute::LockTime;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{PublicKey, SecretKey};
use bitcoin::transaction::Version;
use bitcoin::{Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum InKind {
    TrKey,
    TrKeyMerkle,
    TrKeyAnnex,
    TrScript,
    TrScriptAnnex,
    TrScriptNums,
    TrScriptNumsAnnex,
    TrScriptNumsDeep,
    Wpkh,
    WpkhUncompressed,
    ShWpkh,
    ShWpkhUncompressed,
    Pkh,
    PkhMalleated,
    PkhUncompressed,
    Pk,
    Wsh,
    ShWsh,
    ShMulti,
    Bare,
    /// P2TR whose output key is not on the curve: consensus cannot spend it, seen only in junk.
    TrBogus,
}

pub const ELIGIBLE: &[InKind] = &[
    InKind::TrKey,
    InKind::TrKeyMerkle,
    InKind::TrKeyAnnex,
    InKind::TrScript,
    InKind::TrScriptAnnex,
    InKind::Wpkh,
    InKind::ShWpkh,
    InKind::Pkh,
    InKind::PkhMalleated,
];
pub const INELIGIBLE: &[InKind] = &[
    InKind::TrScriptNums,
    InKind::TrScriptNumsAnnex,
    InKind::TrScriptNumsDeep,
    InKind::WpkhUncompressed,
    InKind::ShWpkhUncompressed,
    InKind::PkhUncompressed,
    InKind::Pk,
    InKind::Wsh,
    InKind::ShWsh,
    InKind::ShMulti,
    InKind::Bare,
];

#[derive(Clone, Debug)]
pub struct GenInput {
    pub kind: InKind,
    pub txin: TxIn,
    pub prevout: TxOut,
    /// Secret of the public key this input shows (for taproot: the output secret, any parity).
    pub secret: SecretKey,
    /// Taproot only: internal secret and merkle root of the key path.
    pub internal: Option<(SecretKey, Option<[u8; 32]>)>,
    pub eligible: bool,
}

impl GenInput {
    /// The secret in the form the sum uses.
    pub fn summed(&self) -> SecretKey {
        if model::is_p2tr(self.prevout.script_pubkey.as_bytes()) {
            even(self.secret)
        } else {
            self.secret
        }
    }
}

pub fn push(v: &mut Vec<u8>, data: &[u8]) {
    if data.len() <= 75 {
        v.push(data.len() as u8);
    } else if data.len() <= 255 {
        v.push(0x4c);
        v.push(data.len() as u8);
    } else {
        v.push(0x4d);
        v.extend_from_slice(&(data.len() as u16).to_le_bytes());
    }
    v.extend_from_slice(data);
}

pub fn fake_sig(r: &mut Rng) -> Vec<u8> {
    let n = r.range(70, 72);
    let mut s = r.vec(n);
    s[0] = 0x30;
    s[n - 1] = 1;
    s
}

pub fn spk(b: Vec<u8>) -> ScriptBuf {
    ScriptBuf::from_bytes(b)
}
pub fn wpkh_spk(pk: &[u8]) -> ScriptBuf {
    let mut v = vec![0, 0x14];
    v.extend_from_slice(&hash160(pk));
    spk(v)
}
pub fn sh_spk(redeem: &[u8]) -> ScriptBuf {
    let mut v = vec![0xa9, 0x14];
    v.extend_from_slice(&hash160(redeem));
    v.push(0x87);
    spk(v)
}
pub fn pkh_spk(pk: &[u8]) -> ScriptBuf {
    let mut v = vec![0x76, 0xa9, 0x14];
    v.extend_from_slice(&hash160(pk));
    v.extend_from_slice(&[0x88, 0xac]);
    spk(v)
}

/// Outpoints: fresh txids mostly, but often several vouts of one txid, with vouts whose little-endian
/// order differs from their numeric order.
pub fn outpoints(r: &mut Rng, n: usize) -> Vec<OutPoint> {
    let mut v: Vec<OutPoint> = vec![];
    let mode = r.below(4);
    let mut txid = Txid::from_byte_array(r.bytes());
    while v.len() < n {
        let share = match mode {
            0 => false,
            1 => n < 20 || r.vout_mask == u32::MAX,
            _ => r.chance(1, 2),
        };
        if !share {
            let mut b: [u8; 32] = r.bytes();
            match r.below(6) {
                // same leading bytes / same trailing bytes: internal and display order disagree
                0 if !v.is_empty() => {
                    b = *r.pick(&v).txid.as_byte_array();
                    b[0] ^= 1 + r.below(255) as u8;
                }
                1 if !v.is_empty() => {
                    b = *r.pick(&v).txid.as_byte_array();
                    b[31] ^= 1 + r.below(255) as u8;
                }
                2 => {
                    b[0] = 0;
                    b[31] = 0xff;
                }
                _ => {}
            }
            txid = Txid::from_byte_array(b);
        }
        let vout = if r.chance(1, 3) { r.below(6) as u32 } else { r.edgy_u32() };
        let o = OutPoint::new(txid, vout & r.vout_mask);
        if o != OutPoint::null() && !v.contains(&o) {
            v.push(o);
        }
    }
    v
}

pub fn amount(r: &mut Rng) -> Amount {
    Amount::from_sat(match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 330,
        3 => 2_100_000_000_000_000,
        4 => u32::MAX as u64 + r.below(10) as u64,
        _ => r.next() % 5_000_000_000,
    })
}

pub fn input_of(r: &mut Rng, kind: InKind, outpoint: OutPoint, given: Option<SecretKey>) -> GenInput {
    use InKind::*;
    let internal_sk = r.sk();
    let mut secret = given.unwrap_or_else(|| r.sk());
    let mut internal = None;
    let mut script_sig: Vec<u8> = vec![];
    let mut wit: Vec<Vec<u8>> = vec![];
    let pk: PublicKey = secret.public_key(secp());
    let comp = pk.serialize().to_vec();
    let uncomp = pk.serialize_uncompressed().to_vec();
    let schnorr = |r: &mut Rng| {
        let n = if r.chance(1, 2) { 64 } else { 65 };
        let mut s = r.vec(n);
        if n == 65 {
            s[64] = *r.pick(&[1u8, 2, 3, 0x81, 0x82, 0x83]);
        }
        s
    };
    let annex = |r: &mut Rng| {
        let n = *r.pick(&[1usize, 2, 33, 34, 65, 200]);
        let mut a = r.vec(n);
        // an annex can hold anything, also what looks like a control block
        if n >= 33 && r.chance(1, 3) {
            a[1..33].copy_from_slice(&model::NUMS);
        }
        a[0] = 0x50;
        a
    };
    let control = |r: &mut Rng, key: &[u8; 32], depth: usize| {
        // any even leaf version but the annex tag, any parity of the output key
        let mut c = vec![if r.chance(3, 4) { 0xc0 | r.below(2) as u8 } else { *r.pick(&[0xc2u8, 0xc5, 0x66, 0x7e, 0x81, 0xfe]) }];
        c.extend_from_slice(key);
        for _ in 0..depth {
            // the siblings of the leaf are chosen by the spender: anything goes
            let node = match r.below(8) {
                0 => model::NUMS,
                1 => *key,
                _ => r.bytes::<32>(),
            };
            c.extend_from_slice(&node);
        }
        c
    };
    let script_pubkey = match kind {
        TrKey | TrKeyMerkle | TrKeyAnnex | TrScript | TrScriptAnnex | TrScriptNums | TrScriptNumsAnnex
        | TrScriptNumsDeep => {
            let root = if kind == TrKey || (kind == TrKeyAnnex && r.chance(1, 2)) { None } else { Some(r.bytes::<32>()) };
            if given.is_none() {
                secret = taproot_output_secret(&internal_sk, root);
                internal = Some((internal_sk, root));
            }
            let out = secret.public_key(secp());
            match kind {
                TrKey | TrKeyMerkle => wit.push(schnorr(r)),
                TrKeyAnnex => {
                    wit.push(schnorr(r));
                    wit.push(annex(r));
                }
                _ => {
                    for _ in 0..r.below(3) {
                        let n = r.below(80);
                        wit.push(r.vec(n));
                    }
                    let n = r.range(1, 60);
                    let mut leaf = r.vec(n);
                    if r.chance(1, 6) {
                        // a leaf script that looks like a control block
                        leaf = vec![0xc0];
                        leaf.extend_from_slice(&if r.chance(1, 2) { model::NUMS } else { r.bytes::<32>() });
                    }
                    wit.push(leaf);
                    let nums = matches!(kind, TrScriptNums | TrScriptNumsAnnex | TrScriptNumsDeep);
                    let ik = if nums { model::NUMS } else { xonly(&internal_sk.public_key(secp())) };
                    let depth = match kind {
                        TrScriptNumsDeep => r.range(1, 128),
                        _ => r.below(3),
                    };
                    wit.push(control(r, &ik, depth));
                    if matches!(kind, TrScriptAnnex | TrScriptNumsAnnex) {
                        wit.push(annex(r));
                    }
                }
            }
            p2tr_spk(&xonly(&out))
        }
        TrBogus => {
            wit.push(schnorr(r));
            loop {
                let x: [u8; 32] = r.bytes();
                if model::xonly_key(&x).is_none() {
                    break p2tr_spk(&x);
                }
            }
        }
        Wpkh | WpkhUncompressed => {
            let k = if kind == Wpkh { comp } else { uncomp };
            wit.push(fake_sig(r));
            wit.push(k.clone());
            wpkh_spk(&k)
        }
        ShWpkh | ShWpkhUncompressed => {
            let k = if kind == ShWpkh { comp } else { uncomp };
            wit.push(fake_sig(r));
            wit.push(k.clone());
            let redeem = wpkh_spk(&k).into_bytes();
            push(&mut script_sig, &redeem);
            sh_spk(&redeem)
        }
        Pkh => {
            push(&mut script_sig, &fake_sig(r));
            push(&mut script_sig, &comp);
            pkh_spk(&comp)
        }
        PkhMalleated => {
            // extra pushes and drops around the key, other keys next to it
            let other = r.sk().public_key(secp()).serialize().to_vec();
            match r.below(7) {
                4 => {
                    // long data before and after
                    let n = r.range(76, 520);
                    let junk = r.vec(n);
                    push(&mut script_sig, &junk);
                    script_sig.push(0x75);
                    push(&mut script_sig, &fake_sig(r));
                    push(&mut script_sig, &comp);
                    let n = r.range(76, 520);
                    let junk = r.vec(n);
                    push(&mut script_sig, &junk);
                    script_sig.push(0x75);
                }
                5 => {
                    // the key twice, other keys between
                    push(&mut script_sig, &comp);
                    script_sig.push(0x75);
                    push(&mut script_sig, &fake_sig(r));
                    push(&mut script_sig, &other);
                    script_sig.push(0x75);
                    push(&mut script_sig, &comp);
                    push(&mut script_sig, &other);
                    push(&mut script_sig, &other);
                    script_sig.push(0x6d);
                }
                6 => {
                    // key first, swapped; the negated key next to it
                    push(&mut script_sig, &comp);
                    push(&mut script_sig, &fake_sig(r));
                    script_sig.push(0x7c);
                    let mut neg = comp.clone();
                    neg[0] ^= 1;
                    push(&mut script_sig, &neg);
                    script_sig.push(0x75);
                }
                0 => {
                    // sig key OP_0 OP_DROP
                    push(&mut script_sig, &fake_sig(r));
                    push(&mut script_sig, &comp);
                    script_sig.extend_from_slice(&[0x00, 0x75]);
                }
                1 => {
                    // other key pushed first
                    push(&mut script_sig, &other);
                    script_sig.push(0x75);
                    push(&mut script_sig, &fake_sig(r));
                    push(&mut script_sig, &comp);
                }
                2 => {
                    // other key pushed after and dropped
                    push(&mut script_sig, &fake_sig(r));
                    push(&mut script_sig, &comp);
                    push(&mut script_sig, &other);
                    script_sig.push(0x75);
                }
                _ => {
                    push(&mut script_sig, &fake_sig(r));
                    push(&mut script_sig, &comp);
                    let n = r.range(1, 40);
                    let junk = r.vec(n);
                    push(&mut script_sig, &junk);
                    script_sig.push(0x75);
                }
            }
            pkh_spk(&comp)
        }
        PkhUncompressed => {
            push(&mut script_sig, &fake_sig(r));
            push(&mut script_sig, &uncomp);
            pkh_spk(&uncomp)
        }
        Pk => {
            push(&mut script_sig, &fake_sig(r));
            let mut v = vec![];
            push(&mut v, &comp);
            v.push(0xac);
            spk(v)
        }
        Wsh | ShWsh => {
            let mut ws = vec![];
            push(&mut ws, &comp);
            ws.push(0xac);
            wit.push(fake_sig(r));
            wit.push(ws.clone());
            let mut v = vec![0, 0x20];
            v.extend_from_slice(&bitcoin::hashes::sha256::Hash::hash(&ws).to_byte_array());
            if kind == Wsh {
                // now and then a witness script that is 33 bytes and looks like a key
                if r.chance(1, 3) {
                    *wit.last_mut().unwrap() = comp.clone();
                }
                spk(v)
            } else {
                if r.chance(1, 3) {
                    *wit.last_mut().unwrap() = comp.clone();
                }
                if r.chance(1, 3) {
                    // a version 1 program of any length is no key of anybody inside a P2SH
                    let n = if r.chance(2, 3) { 20 } else { r.range(2, 40) };
                    v = vec![0x51, n as u8];
                    v.extend(r.vec(n));
                }
                push(&mut script_sig, &v);
                sh_spk(&v)
            }
        }
        ShMulti => {
            let mut redeem = vec![0x51];
            push(&mut redeem, &comp);
            let other = r.sk().public_key(secp()).serialize().to_vec();
            push(&mut redeem, &other);
            redeem.extend_from_slice(&[0x52, 0xae]);
            script_sig.push(0);
            push(&mut script_sig, &fake_sig(r));
            push(&mut script_sig, &redeem);
            sh_spk(&redeem)
        }
        Bare => {
            let mut v = vec![0x51];
            push(&mut v, &comp);
            v.extend_from_slice(&[0x51, 0xae]);
            script_sig.push(0);
            push(&mut script_sig, &fake_sig(r));
            spk(v)
        }
    };
    GenInput {
        kind,
        txin: TxIn {
            previous_output: outpoint,
            script_sig: spk(script_sig),
            sequence: Sequence(r.edgy_u32()),
            witness: Witness::from_slice(&wit),
        },
        prevout: TxOut { value: amount(r), script_pubkey },
        secret,
        internal,
        eligible: ELIGIBLE.contains(&kind),
    }
}

/// A set of inputs. `min_eligible` of them are eligible.
pub fn inputs(r: &mut Rng, min_eligible: usize, max: usize) -> Vec<GenInput> {
    let n = match r.below(12) {
        0 => 1.max(min_eligible),
        1 if max < 8 || !r.chance(1, 60) => max.max(min_eligible),
        // more than fit in a byte
        1 => r.range(257, 300),
        _ => r.range(1.max(min_eligible), max.min(6).max(min_eligible).max(1)),
    };
    let ops = outpoints(r, n);
    let mut kinds: Vec<InKind> = (0..n)
        .map(|i| {
            if i < min_eligible || r.chance(3, 5) {
                *r.pick(ELIGIBLE)
            } else {
                *r.pick(INELIGIBLE)
            }
        })
        .collect();
    r.shuffle(&mut kinds);
    let mut out: Vec<GenInput> = vec![];
    // reuse of one key over several inputs is common in practice
    let reuse = if r.chance(1, 4) { Some(r.sk()) } else { None };
    for (k, o) in kinds.into_iter().zip(ops) {
        let given = if reuse.is_some() && r.chance(1, 2) { reuse } else { None };
        out.push(input_of(r, k, o, given));
    }
    out
}

/// Add an input that cancels a partial sum of the others without cancelling the whole.
pub fn with_cancelling_pair(r: &mut Rng, ins: &mut Vec<GenInput>) {
    let a = r.sk();
    let na = a.negate();
    let ops = outpoints(r, 2);
    let x = input_of(r, InKind::Wpkh, ops[0], Some(a));
    let y = input_of(r, InKind::Pkh, ops[1], Some(na));
    let at = r.below(ins.len() + 1);
    // next to each other and sometimes in front, so that a running sum passes through zero
    let at = if r.chance(2, 3) { 0 } else { at };
    ins.insert(at, y);
    ins.insert(at, x);
}

pub fn foreign_output(r: &mut Rng) -> ScriptBuf {
    let pk = r.sk().public_key(secp());
    match r.below(9) {
        0 => wpkh_spk(&pk.serialize()),
        1 => pkh_spk(&pk.serialize()),
        2 => sh_spk(&pk.serialize()),
        3 => {
            let n = r.range(0, 80);
            let mut v = vec![0x6a];
            let d = r.vec(n);
            push(&mut v, &d);
            spk(v)
        }
        4 => loop {
            // 34 bytes like p2tr but not a point
            let x: [u8; 32] = r.bytes();
            if model::xonly_key(&x).is_none() {
                break p2tr_spk(&x);
            }
        },
        5 => {
            let mut v = vec![0x52, 0x20];
            v.extend_from_slice(&r.bytes::<32>());
            spk(v)
        }
        6 => {
            let mut v = vec![0x00, 0x20];
            v.extend_from_slice(&r.bytes::<32>());
            spk(v)
        }
        _ => p2tr_spk(&xonly(&pk)),
    }
}

pub fn tx(r: &mut Rng, ins: &[GenInput], outs: Vec<TxOut>) -> Transaction {
    Transaction {
        version: Version(*r.pick(&[1, 2, 2, 2, 3])),
        lock_time: LockTime::from_consensus(r.edgy_u32()),
        input: ins.iter().map(|i| i.txin.clone()).collect(),
        output: outs,
    }
}

pub fn prevouts(ins: &[GenInput]) -> Vec<TxOut> {
    ins.iter().map(|i| i.prevout.clone()).collect()
}

/// Receiver wallet.
#[derive(Clone, Debug)]
pub struct Receiver {
    pub scan: SecretKey,
    pub spend: SecretKey,
    pub labels: Vec<u32>,
}

impl Receiver {
    pub fn new(r: &mut Rng) -> Self {
        let mut labels: Vec<u32> = vec![];
        let n = match r.below(4) {
            _ if r.chance(1, 60) => r.range(17, 120),
            0 => 0,
            1 => 1,
            _ => r.below(6),
        };
        if r.chance(1, 2) {
            labels.push(0);
        }
        let row = r.chance(1, 2);
        while labels.len() < n {
            let m = if row && n > 16 { labels.len() as u32 + 1 } else { r.edgy_u32() };
            if !labels.contains(&m) {
                labels.push(m);
            }
        }
        Self { scan: r.sk(), spend: r.sk(), labels }
    }
    pub fn scan_pk(&self) -> PublicKey {
        self.scan.public_key(secp())
    }
    pub fn spend_pk(&self) -> PublicKey {
        self.spend.public_key(secp())
    }
    /// Spend key of the base address or a labelled one, per the model.
    pub fn b_m(&self, label: Option<u32>) -> PublicKey {
        match label {
            None => self.spend_pk(),
            Some(m) => self.spend_pk().combine(&model::point_of(&model::label_hash(&self.scan, m))).unwrap(),
        }
    }
    pub fn any_label(&self, r: &mut Rng) -> Option<u32> {
        if self.labels.is_empty() || r.chance(2, 5) {
            None
        } else {
            Some(*r.pick(&self.labels))
        }
    }
}
