use crate::util::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{compute_tweak_data, extract_pubkey, scan_txouts};
use bdk_sp::{tag_txin, LexMin};
use bitcoin::consensus::{deserialize, serialize};
use bitcoin::{Transaction, TxOut, Witness};
use dleq::dleq_verify_proof;
use kit::gen::{self, Receiver};
use kit::model::secp;
use kit::{bad, guard, run, Bad, Obs, Rng, Spec};
use serde_json::json;

fn no_crash<T>(o: &mut Obs, sig: &str, f: impl FnOnce() -> T) -> Result<T, Bad> {
    o.count(&format!("calls:{sig}"));
    match guard(f) {
        Ok(x) => Ok(x),
        Err(m) => bad(&format!("panic:{sig}"), format!("{sig} crashed on third-party data: {m}")),
    }
}

fn junk_script(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(8),
        2 => r.range(20, 40),
        3 => r.range(100, 600),
        _ => r.range(0, 80),
    };
    let mut v = r.vec(n);
    for b in v.iter_mut() {
        if r.chance(1, 3) {
            *b = *r.pick(&[0u8, 0x14, 0x20, 0x21, 0x4c, 0x4d, 0x4e, 0x50, 0x51, 0x76, 0xa9, 0x87, 0x88, 0xac, 2, 3, 4]);
        }
    }
    v
}

/// Keep the template of the script and damage the rest, or the other way round.
fn damage(r: &mut Rng, tx: &mut Transaction, prevouts: &mut Vec<TxOut>) {
    for _ in 0..r.range(1, 4) {
        let i = r.below(tx.input.len().max(1));
        if tx.input.is_empty() {
            return;
        }
        let mut w = tx.input[i].witness.to_vec();
        match r.below(14) {
            0 => w.clear(),
            1 => {
                let n = r.below(5);
                w = (0..n).map(|_| junk_script(r)).collect();
            }
            2 => {
                if let Some(x) = w.last_mut() {
                    let n = r.below(x.len() + 1);
                    x.truncate(n);
                }
            }
            3 => {
                if !w.is_empty() {
                    let j = r.below(w.len());
                    w[j] = vec![];
                }
            }
            4 => w.push(vec![0x50]),
            5 => w.push(vec![]),
            6 => {
                let n = r.below(34);
                w.push(r.vec(n));
            }
            7 => tx.input[i].script_sig = gen::spk(junk_script(r)),
            8 => {
                let mut b = tx.input[i].script_sig.to_bytes();
                let n = r.below(b.len() + 1);
                b.truncate(n);
                tx.input[i].script_sig = gen::spk(b);
            }
            9 => prevouts[i].script_pubkey = gen::spk(junk_script(r)),
            10 => {
                let mut b = prevouts[i].script_pubkey.to_bytes();
                let n = r.below(b.len() + 1);
                b.truncate(n);
                prevouts[i].script_pubkey = gen::spk(b);
            }
            11 => {
                let j = r.below(prevouts.len());
                prevouts.swap(i, j);
            }
            12 => {
                // a push announcing more than there is
                tx.input[i].script_sig = gen::spk(vec![*r.pick(&[0x21u8, 0x4b, 0x4c, 0x4d, 0x4e]), 0x02]);
            }
            _ => {
                let k = r.below(tx.output.len().max(1));
                if let Some(out) = tx.output.get_mut(k) {
                    out.script_pubkey = gen::spk(junk_script(r));
                }
            }
        }
        tx.input[i].witness = Witness::from_slice(&w);
    }
}

pub fn c17() -> i32 {
    run(
        Spec {
            prop: "C17",
            rule: "third-party data: transactions of all input types with damaged witnesses, scriptSigs, prevout scripts and outputs, byte-level mutants that still decode, transactions without inputs or outputs, too few prevouts, junk code strings, arbitrary proof bytes; every call returns a value or an error (debug assertions and overflow checks on; AddressSanitizer in the thorough tier)",
            quick: 48000,
            thorough: 300000,
            require: &[("calls:scan", 12000), ("calls:code", 12000), ("calls:proof", 3000), ("damaged", 8000), ("byte_mutants", 1000)],
            assumptions: &["the receiver's own keys and labels are well formed"],
            threads: 0,
        },
        |r, o, _| {
            let rv = Receiver::new(r);
            let ins = gen::inputs(r, 0, 5);
            let mut prevouts = gen::prevouts(&ins);
            let n = r.below(6);
            let outs = (0..n).map(|_| TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }).collect();
            let mut tx = gen::tx(r, &ins, outs);
            if r.chance(5, 6) {
                damage(r, &mut tx, &mut prevouts);
                o.count("damaged");
            }
            if r.chance(1, 4) && !tx.input.is_empty() {
                // byte-level mutants
                let mut b = serialize(&tx);
                for _ in 0..r.range(1, 3) {
                    let i = r.below(b.len());
                    b[i] = r.u32() as u8;
                }
                if let Ok(t) = deserialize::<Transaction>(&b) {
                    tx = t;
                    o.count("byte_mutants");
                }
            }
            match r.below(30) {
                0 => tx.input.clear(),
                1 => tx.output.clear(),
                2 => {
                    prevouts.pop();
                }
                3 => prevouts.clear(),
                _ => {}
            }
            o.nontrivial = true;
            o.distinct(&format!("{}|{}", tx.compute_wtxid(), prevouts.len()));
            for (i, p) in tx.input.iter().zip(&prevouts) {
                no_crash(o, "input", || {
                    let _ = tag_txin(i, &p.script_pubkey);
                    let _ = extract_pubkey(i.clone(), &p.script_pubkey);
                })?;
            }
            no_crash(o, "outpoints", || {
                let mut l = LexMin::default();
                for i in &tx.input {
                    l.update(&i.previous_output);
                }
                let _ = l.bytes();
            })?;
            let td = no_crash(o, "tweak", || compute_tweak_data(&tx, &prevouts))?;
            let _ = no_crash(o, "scan", || scanner(&rv).scan_tx(&tx, &prevouts))?;
            let point = td.unwrap_or_else(|_| r.sk().public_key(secp()));
            let _ = no_crash(o, "scan-with-secret", || scan_txouts(rv.spend_pk(), &label_map(&rv), &tx, point))?;
            if r.chance(1, 4) {
                let _ = no_crash(o, "predict", || scanner(&rv).get_spks_from_tweak(&point, 0))?;
            }
            // codes
            let s: String = match r.below(3) {
                0 => {
                    let n = r.below(130);
                    String::from_utf8_lossy(&r.vec(n)).into_owned()
                }
                1 => {
                    // right checksum over arbitrary groups
                    let n = r.below(130);
                    let d: Vec<u8> = (0..n).map(|_| r.below(32) as u8).collect();
                    kit::model::bech32_encode(r.pick(&["sp", "tsp", "sprt", "bc", "x"]), &d, kit::model::BECH32M)
                }
                _ => {
                    let mut s = kit::model::encode_code("sp", r.below(32) as u8, &rv.scan_pk(), &rv.spend_pk());
                    let cut = r.below(s.len());
                    s.truncate(cut);
                    s
                }
            };
            let c = no_crash(o, "code", || SilentPaymentCode::try_from(s.as_str()))?;
            if let Ok(c) = c {
                no_crash(o, "code-use", || {
                    let _ = c.to_string();
                    let _ = c.get_placeholder_p2tr_spk();
                })?;
            }
            // proofs
            if r.chance(1, 3) {
                let mut p = [0u8; 64];
                match r.below(4) {
                    0 => {}
                    1 => p = [0xff; 64],
                    2 => p[63] = 1,
                    _ => r.fill(&mut p),
                }
                let pts: Vec<_> = (0..4).map(|_| r.sk().public_key(secp())).collect();
                let idx: Vec<usize> = (0..4).map(|_| r.below(4)).collect();
                no_crash(o, "proof", || {
                    let _ = dleq_verify_proof(pts[idx[0]], pts[idx[1]], pts[idx[2]], &p, pts[idx[3]], None);
                })?;
            }
            if o.sample.is_none() {
                o.sample = Some(json!({"inputs": kinds(&ins), "code": s}));
            }
            Ok(())
        },
    )
}
