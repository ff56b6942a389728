use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{scan::Scanner, SpOut};
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Network, ScriptBuf, Transaction, TxOut};
use kit::gen::{self, GenInput, Receiver};
use kit::model::{self, Reported};
use kit::{bad, Bad, Obs, Rng};
use std::collections::BTreeMap;

pub fn label_map(rv: &Receiver) -> BTreeMap<PublicKey, (Scalar, u32)> {
    rv.labels
        .iter()
        .map(|m| {
            let h = model::label_hash(&rv.scan, *m);
            (model::point_of(&h), (Scalar::from_be_bytes(h).unwrap(), *m))
        })
        .collect()
}

pub fn scanner(rv: &Receiver) -> Scanner {
    Scanner::new(rv.scan, rv.spend_pk(), label_map(rv))
}

pub fn code(rv: &Receiver, label: Option<u32>, net: Network) -> Result<SilentPaymentCode, Bad> {
    let base = SilentPaymentCode::new_v0(rv.scan_pk(), rv.spend_pk(), net);
    match label {
        None => Ok(base),
        Some(m) => match base.add_label(SilentPaymentCode::get_label(rv.scan, m)) {
            Ok(c) => Ok(c),
            Err(e) => bad("label-code", format!("labelled code for m={m} refused: {e}")),
        },
    }
}

pub fn nets() -> [Network; 5] {
    [Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest]
}

/// (script, secret) pairs of all inputs a wallet would hand to the derivation.
pub fn pairs(ins: &[GenInput]) -> Vec<(ScriptBuf, SecretKey)> {
    ins.iter().filter(|i| i.eligible).map(|i| (i.prevout.script_pubkey.clone(), i.secret)).collect()
}

pub fn smallest(ins: &[GenInput]) -> [u8; 36] {
    model::smallest_outpoint(ins.iter().map(|i| i.txin.previous_output)).unwrap()
}

pub fn reported(tx: &Transaction, spouts: &[SpOut]) -> Result<Vec<Reported>, Bad> {
    let txid = tx.compute_txid();
    let mut v = vec![];
    for s in spouts {
        if s.outpoint.txid != txid {
            return bad("foreign-outpoint", format!("reported outpoint {} is not of tx {txid}", s.outpoint));
        }
        let Some(o) = tx.output.get(s.outpoint.vout as usize) else {
            return bad("no-such-output", format!("reported outpoint {} does not exist", s.outpoint));
        };
        if o.value != s.amount || o.script_pubkey != s.script_pubkey {
            return bad(
                "wrong-output-data",
                format!("output {}: reported {} / {}, transaction has {} / {}", s.outpoint, s.amount, s.script_pubkey, o.value, o.script_pubkey),
            );
        }
        let t: TxOut = s.into();
        if t != *o {
            return bad("wrong-txout", format!("conversion to TxOut gives {t:?}, transaction has {o:?}"));
        }
        v.push(Reported { vout: s.outpoint.vout, label: s.label, tweak: s.tweak.secret_bytes() });
    }
    Ok(v)
}

/// Recipients list with repeats and interleavings: (receiver index, label).
pub fn recipients(r: &mut Rng, rvs: &[Receiver]) -> Vec<(usize, Option<u32>)> {
    let n = match r.below(10) {
        // the counter of derivations leaves the byte
        _ if r.chance(1, 1500) => r.range(258, 300),
        0 => r.range(10, 24),
        1 => 1,
        _ => r.range(1, 8),
    };
    let mut v: Vec<(usize, Option<u32>)> = vec![];
    // many receivers are there to be paid
    if rvs.len() > 12 {
        for (i, x) in rvs.iter().enumerate() {
            v.push((i, x.any_label(r)));
        }
        r.shuffle(&mut v);
    }
    for _ in 0..n {
        if !v.is_empty() && r.chance(2, 5) {
            v.push(*r.pick(&v.clone()));
        } else {
            let i = r.below(rvs.len());
            let l = rvs[i].any_label(r);
            v.push((i, l));
        }
    }
    v
}

pub fn kinds(ins: &[GenInput]) -> String {
    let mut k: Vec<String> = ins.iter().map(|i| format!("{:?}", i.kind)).collect();
    k.sort();
    k.join("+")
}

pub fn observe_inputs(o: &mut Obs, ins: &[GenInput]) {
    for i in ins {
        o.count(&format!("input:{:?}", i.kind));
    }
}

pub fn cancels(ins: &[GenInput]) -> bool {
    let s: Vec<_> = ins.iter().filter(|i| i.eligible).map(|i| i.summed()).collect();
    model::sum_scalars(&s).is_none()
}

/// Inputs with at least one eligible and a non-zero key sum.
pub fn good_inputs(r: &mut Rng, max: usize) -> Vec<GenInput> {
    loop {
        let mut v = if r.chance(1, 1500) {
            let n = r.range(257, 300);
            gen::inputs(r, n, n)
        } else {
            gen::inputs(r, 1, max)
        };
        if r.chance(1, 12) {
            gen::with_cancelling_pair(r, &mut v);
        }
        if !cancels(&v) {
            return v;
        }
    }
}

/// How many receivers a case has: a few, now and then many.
pub fn many(r: &mut Rng, few: usize) -> usize {
    if r.chance(1, 120) {
        r.range(16, 40)
    } else {
        few
    }
}

/// Receivers with pairwise different scan keys.
pub fn receivers(r: &mut Rng, n: usize) -> Vec<Receiver> {
    let mut v: Vec<Receiver> = vec![];
    while v.len() < n {
        let mut x = Receiver::new(r);
        // relatives of a receiver known already
        if !v.is_empty() && r.chance(1, 8) {
            let y = r.pick(&v).clone();
            match r.below(4) {
                0 => x.scan = y.scan.negate(),
                1 => {
                    x.scan = y.scan.negate();
                    x.spend = y.spend;
                }
                2 => {
                    x.scan = y.spend;
                    x.spend = y.scan;
                }
                _ => x.spend = y.spend.negate(),
            }
        }
        if v.iter().all(|y| y.scan_pk() != x.scan_pk()) {
            v.push(x);
        }
    }
    v
}
