use crate::util::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::send::psbt::derive_sp;
use bdk_sp::send::psbt::sign::{add_sp_data_to_input, sign_sp};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource};
use bitcoin::hashes::Hash;
use bitcoin::key::Secp256k1;
use bitcoin::psbt::{raw::ProprietaryKey, GetKey, KeyRequest, Psbt};
use bitcoin::secp256k1::{Message, PublicKey, Scalar, SecretKey, Signing, XOnlyPublicKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{Network, OutPoint, PrivateKey, ScriptBuf, TapNodeHash, TapSighashType, Transaction, TxIn, TxOut, Txid, Witness};
use kit::gen::{self, GenInput, InKind, Receiver};
use kit::model::{self, secp};
use kit::{bad, ensure, guard, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

/// Key provider of one wallet; refuses request kinds it does not serve, as rust-bitcoin's do.
#[derive(Default, Clone)]
struct Keys {
    by_source: HashMap<KeySource, SecretKey>,
    by_xonly: BTreeMap<XOnlyPublicKey, SecretKey>,
    by_pk: BTreeMap<PublicKey, SecretKey>,
    bip32_errors: bool,
}

impl GetKey for Keys {
    type Error = String;
    fn get_key<C: Signing>(&self, req: KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> {
        let wrap = |s: &SecretKey| PrivateKey::new(*s, Network::Regtest);
        match req {
            KeyRequest::Bip32(_) if self.bip32_errors => Err("not served".into()),
            KeyRequest::Bip32(s) => Ok(self.by_source.get(&s).map(wrap)),
            KeyRequest::Pubkey(p) => Ok(self.by_pk.get(&p.inner).map(wrap)),
            KeyRequest::XOnlyPubkey(x) => Ok(self.by_xonly.get(&x).map(wrap)),
            _ => Err("unknown request".into()),
        }
    }
}

struct Fixture {
    ins: Vec<GenInput>,
    sp_tweaks: Vec<Option<(PublicKey, [u8; 32])>>,
    keys: Keys,
    psbt: Psbt,
    /// recipient codes in the order given, and for each output of the unsigned tx the recipient
    recipients: Vec<SilentPaymentCode>,
    out_for: Vec<Option<SilentPaymentCode>>,
    rvs: Vec<Receiver>,
    recs: Vec<(usize, Option<u32>)>,
}

fn source(r: &mut Rng) -> KeySource {
    let p: Vec<ChildNumber> = (0..r.range(0, 5)).map(|_| ChildNumber::from(r.u32())).collect();
    (Fingerprint::from(r.bytes::<4>()), DerivationPath::from(p))
}

/// A finalized PSBT whose eligible inputs all have keys with the provider.
fn fixture(r: &mut Rng, o: &mut Obs, sp_inputs: bool) -> Fixture {
    // keys of unrelated parties must be unrelated: at most one edge-case key per transaction
    r.edge_keys = r.below(2) as u32;
    loop {
        let n = r.range(1, 6);
        let ops = gen::outpoints(r, n);
        let mut kinds_v: Vec<InKind> = (0..n).map(|i| if i == 0 || r.chance(2, 3) { *r.pick(gen::ELIGIBLE) } else { *r.pick(gen::INELIGIBLE) }).collect();
        r.shuffle(&mut kinds_v);
        let mut ins: Vec<GenInput> = vec![];
        let mut sp_tweaks = vec![];
        let mut keys = Keys { bip32_errors: r.chance(1, 4), ..Default::default() };
        let spend_sks: Vec<SecretKey> = (0..2).map(|_| r.sk()).collect();
        for (k, op) in kinds_v.into_iter().zip(ops) {
            if sp_inputs && r.chance(1, 2) {
                let t = r.sk();
                let sk = *r.pick(&spend_sks);
                if let Ok(out) = sk.add_tweak(&Scalar::from(t)) {
                    ins.push(gen::input_of(r, InKind::TrKey, op, Some(out)));
                    sp_tweaks.push(Some((sk.public_key(secp()), t.secret_bytes())));
                    keys.by_pk.insert(sk.public_key(secp()), sk);
                    o.count("sp_inputs");
                    continue;
                }
            }
            ins.push(gen::input_of(r, k, op, None));
            sp_tweaks.push(None);
        }
        if r.chance(1, 3) {
            // an address paid several times
            let j = r.below(ins.len());
            for _ in 0..r.range(1, 2) {
                let mut again = ins[j].clone();
                again.txin.previous_output = gen::outpoints(r, 1)[0];
                let at = r.below(ins.len() + 1);
                let tweak = sp_tweaks[j];
                if at > j {
                    ins.insert(at, again);
                    sp_tweaks.insert(at, tweak);
                } else {
                    ins.push(again);
                    sp_tweaks.push(tweak);
                }
                o.count("reused_addresses");
            }
        }
        // some inputs come with the whole previous transaction instead of the spent output
        let mut prev_txs: Vec<Option<Transaction>> = vec![None; ins.len()];
        for i in 0..ins.len() {
            if r.chance(1, 3) {
                let vout = if r.chance(1, 60) { r.range(255, 300) } else { r.below(5) };
                let mut outs: Vec<TxOut> = (0..vout + 1 + r.below(3)).map(|_| TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }).collect();
                outs[vout] = ins[i].prevout.clone();
                let op = gen::outpoints(r, 1)[0];
                let t = Transaction {
                    version: bitcoin::transaction::Version::TWO,
                    lock_time: bitcoin::absolute::LockTime::ZERO,
                    input: vec![TxIn { previous_output: op, ..Default::default() }],
                    output: outs,
                };
                ins[i].txin.previous_output = OutPoint::new(t.compute_txid(), vout as u32);
                prev_txs[i] = Some(t);
            }
        }
        if cancels(&ins) {
            continue;
        }
        // recipients
        let nr = r.range(1, 3);
        let nr = many(r, nr);
        let rvs = receivers(r, nr);
        let recs = recipients(r, &rvs);
        let net = *r.pick(&nets());
        let mut codes: Vec<SilentPaymentCode> = vec![];
        for (i, l) in &recs {
            match code(&rvs[*i], *l, net) {
                Ok(c) => codes.push(c),
                Err(_) => return fixture(r, o, sp_inputs),
            }
        }
        let mut outs: Vec<(TxOut, Option<SilentPaymentCode>)> =
            codes.iter().map(|c| (TxOut { value: gen::amount(r), script_pubkey: c.get_placeholder_p2tr_spk() }, Some(c.clone()))).collect();
        for _ in 0..r.below(3) {
            outs.push((TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }, None));
        }
        r.shuffle(&mut outs);
        let unsigned = Transaction {
            version: bitcoin::transaction::Version::TWO,
            lock_time: bitcoin::absolute::LockTime::from_consensus(r.edgy_u32()),
            input: ins.iter().map(|i| TxIn { previous_output: i.txin.previous_output, sequence: i.txin.sequence, ..Default::default() }).collect(),
            output: outs.iter().map(|x| x.0.clone()).collect(),
        };
        let mut psbt = Psbt::from_unsigned_tx(unsigned).unwrap();
        for (i, gi) in ins.iter().enumerate() {
            let pi = &mut psbt.inputs[i];
            match prev_txs[i].take() {
                Some(t) => {
                    pi.non_witness_utxo = Some(t);
                    if r.chance(1, 3) {
                        pi.witness_utxo = Some(gi.prevout.clone());
                    }
                }
                None => pi.witness_utxo = Some(gi.prevout.clone()),
            }
            if let Some((spend_pk, tw)) = &sp_tweaks[i] {
                // silent payment inputs are derived for before they are signed
                let scalar = Scalar::from_be_bytes(*tw).unwrap();
                add_sp_data_to_input(&mut psbt, i, *spend_pk, scalar);
                continue;
            }
            if !gi.txin.witness.is_empty() {
                pi.final_script_witness = Some(gi.txin.witness.clone());
            }
            if !gi.txin.script_sig.is_empty() {
                pi.final_script_sig = Some(gi.txin.script_sig.clone());
            }
            let src = source(r);
            let via_source = !keys.bip32_errors && r.chance(1, 2);
            if let Some((ik, root)) = gi.internal {
                let x = ik.x_only_public_key(secp()).0;
                pi.tap_internal_key = Some(x);
                pi.tap_merkle_root = root.map(TapNodeHash::from_byte_array);
                pi.tap_key_origins.insert(x, (vec![], src.clone()));
                if via_source {
                    keys.by_source.insert(src, ik);
                } else {
                    keys.by_xonly.insert(x, ik);
                }
                if r.chance(1, 4) {
                    // keys of other people in other leaves
                    let leaf = r.sk();
                    let y = leaf.x_only_public_key(secp()).0;
                    let src = source(r);
                    pi.tap_key_origins.insert(y, (vec![], src.clone()));
                    // or another key of this wallet (a recovery leaf, say)
                    if r.chance(1, 2) {
                        o.count("own_leaf_keys");
                        if !keys.bip32_errors && r.chance(1, 2) {
                            keys.by_source.insert(src, leaf);
                        } else {
                            keys.by_xonly.insert(y, leaf);
                        }
                    }
                }
            } else {
                let pk = gi.secret.public_key(secp());
                pi.bip32_derivation.insert(pk, src.clone());
                if via_source {
                    keys.by_source.insert(src, gi.secret);
                } else {
                    keys.by_pk.insert(pk, gi.secret);
                }
                if r.chance(1, 6) {
                    let y = r.sk().public_key(secp());
                    pi.bip32_derivation.insert(y, source(r));
                }
            }
            // unrelated proprietary data of other protocols
            if r.chance(1, 6) {
                let n = r.below(40);
                pi.proprietary.insert(ProprietaryKey { prefix: b"other".to_vec(), subtype: 1, key: r.vec(n) }, r.vec(7));
            }
        }
        if !ins.iter().any(|i| i.eligible) {
            continue;
        }
        observe_inputs(o, &ins);
        return Fixture { ins, sp_tweaks, keys, psbt, recipients: codes, out_for: outs.into_iter().map(|x| x.1).collect(), rvs, recs };
    }
}

/// Is the PSBT after a successful derivation right: outputs replaced by exactly the model's keys,
/// everything else as before? `paid` are the recipients (in derivation order) that have outputs.
fn judge_outputs(o: &mut Obs, before: &Psbt, after: &Psbt, ins: &[GenInput], paid: &[SilentPaymentCode], out_for: &[Option<SilentPaymentCode>]) -> Result<(), Bad> {
    let summed: Vec<SecretKey> = ins.iter().filter(|i| i.eligible).map(|i| i.summed()).collect();
    let recs: Vec<(PublicKey, PublicKey)> = paid.iter().map(|c| (c.scan, c.spend)).collect();
    let Some(keys) = model::sender_keys(&summed, &smallest(ins), &recs) else {
        return bad("zero-sum", "outputs were derived although the input keys sum to zero");
    };
    let (a, b) = (&after.unsigned_tx, &before.unsigned_tx);
    ensure!(a.version == b.version && a.lock_time == b.lock_time && a.input == b.input, "tx-changed", "version, lock time or inputs changed");
    ensure!(a.output.len() == b.output.len(), "tx-changed", "number of outputs changed");
    // codes with the same keys are paid by the same placeholder, whatever network they name
    let mut want: HashMap<(PublicKey, PublicKey), Vec<ScriptBuf>> = HashMap::new();
    for (c, k) in paid.iter().zip(&keys) {
        want.entry((c.scan, c.spend)).or_default().push(model::p2tr_spk(k));
    }
    for (i, (x, y)) in a.output.iter().zip(&b.output).enumerate() {
        ensure!(x.value == y.value, "amount-changed", "output {i}: {} became {}", y.value, x.value);
        match &out_for[i] {
            None => ensure!(x.script_pubkey == y.script_pubkey, "other-output-changed", "output {i} is not a silent payment but changed"),
            Some(c) => {
                let l = want.entry((c.scan, c.spend)).or_default();
                match l.iter().position(|s| *s == x.script_pubkey) {
                    Some(p) => {
                        l.remove(p);
                        o.count("outputs_right");
                    }
                    None => {
                        return bad(
                            "wrong-output",
                            format!("output {i} for {c}: script {:x} is none of the scripts BIP352 derives ({l:x?}); inputs {}", x.script_pubkey, kinds(ins)),
                        )
                    }
                }
            }
        }
    }
    ensure!(want.values().all(|l| l.is_empty()), "wrong-output", "derived payments without output: {want:x?}");
    ensure!(after.inputs == before.inputs, "psbt-changed", "the derivation changed PSBT input data");
    ensure!(after.outputs == before.outputs && after.unknown == before.unknown && after.proprietary == before.proprietary && after.xpub == before.xpub && after.version == before.version, "psbt-changed", "the derivation changed other PSBT data");
    Ok(())
}

pub fn c11() -> i32 {
    run(
        Spec {
            prop: "C11",
            rule: "finalized PSBTs with 1-6 inputs of all script types (keys via BIP32 source, public key or x-only key; witness or full previous transaction; silent payment inputs via proprietary data), several recipients with repeats, placeholders and foreign outputs in random order; after derivation outputs equal the BIP352 model, nothing else changed, and the real recipients find every output",
            quick: 16000,
            thorough: 80000,
            require: &[("derivations", 1800), ("outputs_right", 4000), ("sp_inputs", 800), ("input:ShWpkh", 200), ("input:Pkh", 200), ("recipients_found", 4000)],
            assumptions: &["libsecp256k1 group arithmetic, rust-bitcoin PSBT types are trusted", "the key provider knows the keys of all eligible inputs, as the API demands"],
            threads: 0,
        },
        |r, o, _| {
            let f = fixture(r, o, true);
            let mut f = f;
            if r.chance(1, 6) {
                // the same recipient may be given by codes naming different networks
                for c in f.recipients.iter_mut() {
                    if r.chance(1, 2) {
                        c.network = *r.pick(&nets());
                    }
                }
                let twins = |a: &SilentPaymentCode| f.recipients.iter().any(|b| a.scan == b.scan && a.spend == b.spend && a.network != b.network);
                if f.recipients.iter().any(twins) {
                    o.count("twin_codes");
                }
            }
            let before = f.psbt.clone();
            let mut psbt = f.psbt.clone();
            if let Err(e) = derive_sp(&mut psbt, &f.keys, &f.recipients, secp()) {
                return bad("refused", format!("derivation refused: {e} ({e:?}); inputs {}", kinds(&f.ins)));
            }
            o.count("derivations");
            o.nontrivial = true;
            o.distinct(&format!("{}|{:?}|{:?}", kinds(&f.ins), f.sp_tweaks.iter().map(|x| x.is_some()).collect::<Vec<_>>(), f.recs));
            judge_outputs(o, &before, &psbt, &f.ins, &f.recipients, &f.out_for)?;
            // recipients find their outputs in the transaction that goes to the chain
            let mut tx = psbt.unsigned_tx.clone();
            for (t, g) in tx.input.iter_mut().zip(&f.ins) {
                t.witness = g.txin.witness.clone();
                t.script_sig = g.txin.script_sig.clone();
            }
            let prevouts = gen::prevouts(&f.ins);
            for (ri, rv) in f.rvs.iter().enumerate() {
                let found = scanner(rv).scan_tx(&tx, &prevouts).map_err(|e| Bad { sig: "scan-error".into(), msg: e.to_string(), detail: json!(null) })?;
                let want = f.recs.iter().filter(|x| x.0 == ri).count();
                ensure!(found.len() == want, "not-found", "receiver {ri} was paid {want} outputs by PSBT and finds {}; inputs {}", found.len(), kinds(&f.ins));
                o.add("recipients_found", found.len() as u64);
            }
            if o.sample.is_none() {
                o.sample = Some(json!({"inputs": kinds(&f.ins), "silent_payment_inputs": f.sp_tweaks.iter().flatten().count(), "payments": f.recs.len()}));
            }
            Ok(())
        },
    )
}

pub fn c12() -> i32 {
    run(
        Spec {
            prop: "C12",
            rule: "the PSBTs of C11 with one thing wrong: unknown or wrong key for an eligible input, missing prevout, a previous transaction other than the one spent or contradicting the spent output given, not finalized, more or fewer outputs than payments, recipients without outputs, several of these making up for each other, wrong or malformed silent payment data, keys summing to zero, an unknown segwit version among the inputs; either the result is right for every output or an error leaves the PSBT untouched; never a crash",
            quick: 30000,
            thorough: 150000,
            require: &[("refused_untouched", 1500), ("accepted_right", 200), ("fault:unknown key", 150), ("fault:wrong key", 150), ("fault:extra recipient", 150), ("fault:malformed data", 150), ("wrong_counts_right_total", 40), ("foreign_previous_tx", 150), ("altered_previous_tx", 30), ("contradicting_output", 40)],
            assumptions: &["libsecp256k1 group arithmetic, rust-bitcoin PSBT types are trusted"],
            threads: 0,
        },
        |r, o, _| {
            let mut f = fixture(r, o, true);
            let elig: Vec<usize> = (0..f.ins.len()).filter(|i| f.ins[*i].eligible).collect();
            let plain: Vec<usize> = elig.iter().copied().filter(|i| f.sp_tweaks[*i].is_none()).collect();
            let mut paid = f.recipients.clone();
            let mut recipients = f.recipients.clone();
            let mut must_err = false;
            let mut ins = f.ins.clone();
            let what = match r.below(13) {
                12 => {
                    // the previous transaction is another one than the one spent
                    let i = r.below(f.ins.len());
                    let pi = &mut f.psbt.inputs[i];
                    let vout = f.psbt.unsigned_tx.input[i].previous_output.vout;
                    if let (Some(_), true, 0..=300) = (&pi.non_witness_utxo, r.chance(1, 2), vout) {
                        // it is the right one, but the spent output is said to be another one
                        let mut out = f.ins[i].prevout.clone();
                        if r.chance(1, 2) {
                            out.value = bitcoin::Amount::from_sat(out.value.to_sat() ^ 1);
                        } else {
                            out.script_pubkey = gen::foreign_output(r);
                        }
                        if out == f.ins[i].prevout {
                            return Ok(());
                        }
                        pi.witness_utxo = Some(out);
                        o.count("contradicting_output");
                    } else if let (Some(t), true) = (&mut pi.non_witness_utxo, r.chance(1, 2)) {
                        // changed after the fact
                        match r.below(3) {
                            0 => t.lock_time = bitcoin::absolute::LockTime::from_consensus(7),
                            1 => t.output.push(f.ins[i].prevout.clone()),
                            _ => t.output[vout as usize].script_pubkey = gen::foreign_output(r),
                        }
                        o.count("altered_previous_tx");
                        if t.compute_txid() == f.psbt.unsigned_tx.input[i].previous_output.txid {
                            return Ok(());
                        }
                    } else {
                        let n = if vout > 300 { 1 } else { vout as usize + 1 };
                        let mut t = Transaction {
                            version: bitcoin::transaction::Version::TWO,
                            lock_time: bitcoin::absolute::LockTime::ZERO,
                            input: vec![TxIn { previous_output: gen::outpoints(r, 1)[0], ..Default::default() }],
                            output: vec![f.ins[i].prevout.clone(); n],
                        };
                        if r.chance(1, 2) {
                            t.output[n - 1].script_pubkey = gen::foreign_output(r);
                        }
                        pi.non_witness_utxo = Some(t);
                        if r.chance(1, 2) {
                            pi.witness_utxo = None;
                        }
                        o.count("foreign_previous_tx");
                    }
                    must_err = true;
                    "other previous transaction"
                }
                0 | 1 => {
                    // one eligible input's key is not known
                    let i = *r.pick(&elig);
                    let g = &f.ins[i];
                    let others_need = |sk: &SecretKey| elig.iter().filter(|j| **j != i).any(|j| f.ins[*j].secret == *sk || f.ins[*j].internal.map(|x| x.0) == Some(*sk));
                    let mut gone = vec![g.secret];
                    if let Some((ik, _)) = g.internal {
                        gone.push(ik);
                    }
                    if let Some((spend_pk, _)) = &f.sp_tweaks[i] {
                        if let Some(sk) = f.keys.by_pk.get(spend_pk) {
                            gone.push(*sk);
                        }
                    }
                    if gone.iter().any(others_need) {
                        return Ok(());
                    }
                    f.keys.by_source.retain(|_, v| !gone.contains(v));
                    f.keys.by_xonly.retain(|_, v| !gone.contains(v));
                    f.keys.by_pk.retain(|_, v| !gone.contains(v));
                    must_err = true;
                    "unknown key"
                }
                2 => {
                    // the provider answers with another key for a plain input
                    if plain.is_empty() {
                        return Ok(());
                    }
                    let i = *r.pick(&plain);
                    let mut other = r.sk();
                    if f.ins[i].internal.is_none() && r.chance(1, 3) {
                        // nearly the right one
                        other = f.ins[i].secret.negate();
                        o.count("negated_key");
                    }
                    let pi = &f.psbt.inputs[i];
                    f.keys.bip32_errors = false;
                    for (_, s) in pi.bip32_derivation.iter() {
                        f.keys.by_source.insert(s.clone(), other);
                    }
                    for (_, (_, s)) in pi.tap_key_origins.iter() {
                        f.keys.by_source.insert(s.clone(), other);
                    }
                    must_err = true;
                    "wrong key"
                }
                3 => {
                    let i = r.below(f.ins.len());
                    f.psbt.inputs[i].witness_utxo = None;
                    f.psbt.inputs[i].non_witness_utxo = None;
                    must_err = true;
                    "missing prevout"
                }
                4 => {
                    let i = r.below(f.ins.len());
                    if f.sp_tweaks[i].is_some() {
                        return Ok(());
                    }
                    f.psbt.inputs[i].final_script_witness = None;
                    f.psbt.inputs[i].final_script_sig = None;
                    must_err = true;
                    "not finalized"
                }
                5 => {
                    // one payment more to somebody who has outputs already
                    let mut c = r.pick(&recipients).clone();
                    if r.chance(1, 3) {
                        c.network = *r.pick(&nets());
                    }
                    let at = r.below(recipients.len() + 1);
                    recipients.insert(at, c);
                    must_err = true;
                    "payment without output"
                }
                6 => {
                    let i = r.below(recipients.len());
                    let c = recipients.remove(i);
                    if !recipients.contains(&c) {
                        // nothing is derived for this code: its output stays as it is
                        for x in f.out_for.iter_mut() {
                            if *x == Some(c.clone()) {
                                *x = None;
                            }
                        }
                        paid = recipients.clone();
                        "recipient left out"
                    } else {
                        must_err = true;
                        "output without payment"
                    }
                }
                7 => {
                    // recipients that have no output, among them further codes of a paid scan key
                    for _ in 0..r.range(1, 3) {
                        let mut c = r.pick(&recipients).clone();
                        c.spend = r.sk().public_key(secp());
                        if r.chance(1, 3) {
                            c.scan = r.sk().public_key(secp());
                        }
                        let at = r.below(recipients.len() + 1);
                        recipients.insert(at, c);
                    }
                    "extra recipient"
                }
                8 => {
                    // malformed or wrong silent payment data
                    let i = r.below(f.ins.len());
                    let key = match r.below(4) {
                        0 => r.sk().public_key(secp()).serialize().to_vec(),
                        1 => {
                            let n = r.below(70);
                            r.vec(n)
                        }
                        2 => vec![],
                        _ => match f.keys.by_pk.keys().next() {
                            Some(k) => k.serialize().to_vec(),
                            None => vec![2; 33],
                        },
                    };
                    let val = match r.below(5) {
                        0 => vec![],
                        1 => vec![0xff; 32],
                        2 => {
                            let n = r.below(70);
                            r.vec(n)
                        }
                        3 => vec![0; 32],
                        _ => r.vec(32),
                    };
                    if f.sp_tweaks[i].is_some() && r.chance(1, 2) {
                        f.psbt.inputs[i].proprietary.clear();
                        must_err = true;
                    }
                    f.psbt.inputs[i].proprietary.insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype: 1, key }, val);
                    "malformed data"
                }
                9 => {
                    // input keys that sum to zero
                    let sum = model::sum_scalars(&elig.iter().map(|i| f.ins[*i].summed()).collect::<Vec<_>>());
                    let Some(sum) = sum else { return Ok(()) };
                    let op = gen::outpoints(r, 1)[0];
                    let g = gen::input_of(r, InKind::Wpkh, op, Some(sum.negate()));
                    let pk = g.secret.public_key(secp());
                    f.psbt.unsigned_tx.input.push(TxIn { previous_output: op, ..Default::default() });
                    f.psbt.inputs.push(bitcoin::psbt::Input {
                        witness_utxo: Some(g.prevout.clone()),
                        final_script_witness: Some(g.txin.witness.clone()),
                        bip32_derivation: [(pk, source(r))].into_iter().collect(),
                        ..Default::default()
                    });
                    f.keys.by_pk.insert(pk, g.secret);
                    ins.push(g);
                    must_err = true;
                    "zero sum"
                }
                10 => {
                    // several edits at once, which may make up for each other in total
                    for _ in 0..r.range(2, 5) {
                        match r.below(3) {
                            0 => {
                                let c = r.pick(&f.recipients).clone();
                                let at = r.below(recipients.len() + 1);
                                recipients.insert(at, c);
                            }
                            1 if recipients.len() > 1 => {
                                let at = r.below(recipients.len());
                                recipients.remove(at);
                            }
                            _ => {
                                let c = r.pick(&f.recipients).clone();
                                let at = r.below(recipients.len());
                                recipients[at] = c;
                            }
                        }
                    }
                    let n = |l: &[SilentPaymentCode], c: &SilentPaymentCode| l.iter().filter(|x| *x == c).count();
                    must_err = recipients.iter().any(|c| n(&recipients, c) != n(&f.recipients, c));
                    if must_err && recipients.len() == f.recipients.len() {
                        o.count("wrong_counts_right_total");
                    }
                    for x in f.out_for.iter_mut() {
                        if x.as_ref().is_some_and(|c| !recipients.contains(c)) {
                            *x = None;
                        }
                    }
                    paid = recipients.clone();
                    "payments shuffled about"
                }
                _ => {
                    let op = gen::outpoints(r, 1)[0];
                    let mut g = gen::input_of(r, InKind::TrKey, op, None);
                    let mut v = vec![0x52 + r.below(15) as u8, 0x20];
                    v.extend(r.vec(32));
                    g.prevout.script_pubkey = gen::spk(v);
                    g.eligible = false;
                    f.psbt.unsigned_tx.input.push(TxIn { previous_output: op, ..Default::default() });
                    f.psbt.inputs.push(bitcoin::psbt::Input { witness_utxo: Some(g.prevout.clone()), final_script_witness: Some(g.txin.witness.clone()), ..Default::default() });
                    ins.push(g);
                    must_err = true;
                    "unknown segwit version"
                }
            };
            o.count(&format!("fault:{what}"));
            o.nontrivial = true;
            o.distinct(&format!("{what}|{}|{:?}", kinds(&f.ins), f.recs));
            let before = f.psbt.clone();
            let mut psbt = f.psbt.clone();
            let res = match guard(|| derive_sp(&mut psbt, &f.keys, &recipients, secp())) {
                Ok(x) => x,
                Err(m) => return bad(&format!("panic:{what}"), format!("{what}: derivation crashed: {m}")),
            };
            if o.sample.is_none() {
                o.sample = Some(json!({"fault": what, "inputs": kinds(&f.ins), "result": format!("{res:?}")}));
            }
            match res {
                Err(_) => {
                    o.count("refused_untouched");
                    ensure!(psbt == before, "touched-on-error", "{what}: the derivation failed but changed the PSBT");
                    ensure!(
                        !matches!(what, "extra recipient" | "recipient left out") && (must_err || what != "payments shuffled about"),
                        "refused",
                        "{what}: refused although every output can be derived: {res:?}"
                    );
                    Ok(())
                }
                Ok(()) => {
                    ensure!(!must_err, &format!("accepted:{what}"), "{what}: derivation reports success; inputs {}", kinds(&f.ins));
                    judge_outputs(o, &before, &psbt, &ins, &paid, &f.out_for)?;
                    o.count("accepted_right");
                    Ok(())
                }
            }
        },
    )
}

pub fn c13() -> i32 {
    run(
        Spec {
            prop: "C13",
            rule: "PSBTs mixing silent payment inputs (one or two spend keys, right, wrong, foreign or malformed data, already signed) with other inputs given by output or full transaction; outputs derived first or not; each signature put in place verifies under BIP341 for the final transaction, signed is exactly what can be signed, nothing else changes, never a crash",
            quick: 20000,
            thorough: 100000,
            require: &[("signatures_verified", 3000), ("left_unsigned", 300), ("with_full_prev_tx", 500), ("malformed", 200), ("derived_then_signed", 400), ("presigned_kept", 100), ("unknown_prevout", 300), ("fields_written_by_others", 800), ("sighash_type_given", 800), ("impossible_sighash_type", 60), ("other_spent_script", 400)],
            assumptions: &["libsecp256k1 Schnorr, rust-bitcoin BIP341 sighash and PSBT types are trusted", "what a PSBT says about spent outputs is true where it does not contradict itself"],
            threads: 0,
        },
        |r, o, _| {
            let mut f = fixture(r, o, true);
            // strip signatures: this is the signing stage
            for (i, p) in f.psbt.inputs.iter_mut().enumerate() {
                if f.sp_tweaks[i].is_none() && r.chance(1, 2) {
                    p.final_script_sig = None;
                    p.final_script_witness = None;
                }
            }
            if f.psbt.inputs.iter().any(|p| p.witness_utxo.is_none()) {
                o.count("with_full_prev_tx");
            }
            let mut can: Vec<bool> = f.sp_tweaks.iter().map(|t| t.is_some()).collect();
            let all_sp = can.iter().all(|c| *c);
            if all_sp && derive_sp(&mut f.psbt, &f.keys, &f.recipients, secp()).is_ok() {
                o.count("derived_then_signed");
            }
            let mut malformed = false;
            for i in 0..f.ins.len() {
                match r.below(12) {
                    0 if can[i] => {
                        // spend key not ours
                        let (pk, _) = f.sp_tweaks[i].unwrap();
                        f.keys.by_pk.remove(&pk);
                        for j in 0..f.ins.len() {
                            if f.sp_tweaks[j].map(|t| t.0) == Some(pk) {
                                can[j] = false;
                            }
                        }
                    }
                    1 if can[i] => {
                        // wrong tweak
                        f.psbt.inputs[i].proprietary.clear();
                        let (pk, _) = f.sp_tweaks[i].unwrap();
                        add_sp_data_to_input(&mut f.psbt, i, pk, Scalar::from(r.sk()));
                        can[i] = false;
                    }
                    2 => {
                        malformed = true;
                        let kn = *r.pick(&[0usize, 1, 32, 33, 34, 65]);
                        let vn = *r.pick(&[0usize, 1, 31, 32, 33, 64]);
                        let mut key = r.vec(kn);
                        if r.chance(1, 2) {
                            key = match f.sp_tweaks[i] {
                                // another map entry than the good one, so that the good one stays
                                Some(_) => r.sk().public_key(secp()).serialize().to_vec(),
                                None => f.keys.by_pk.keys().next().map(|k| k.serialize().to_vec()).unwrap_or(key),
                            };
                        }
                        let val = match r.below(3) {
                            0 => vec![0xff; 32],
                            1 => vec![0; 32],
                            _ => r.vec(vn),
                        };
                        f.psbt.inputs[i].proprietary.insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype: 1, key }, val);
                    }
                    3 if can[i] => {
                        // signed before
                        let s = r.sk();
                        let kp = bitcoin::secp256k1::Keypair::from_secret_key(secp(), &s);
                        let sig = secp().sign_schnorr_no_aux_rand(&Message::from_digest(r.bytes()), &kp);
                        f.psbt.inputs[i].tap_key_sig = Some(bitcoin::taproot::Signature { signature: sig, sighash_type: TapSighashType::All });
                        o.count("presigned_kept");
                    }
                    4 if can[i] => {
                        // harmless extra data: other subtype, other prefix
                        f.psbt.inputs[i].proprietary.insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype: 2, key: r.vec(5) }, r.vec(5));
                        f.psbt.inputs[i].proprietary.insert(ProprietaryKey { prefix: b"bip353".to_vec(), subtype: 1, key: r.vec(33) }, r.vec(32));
                    }
                    _ => {}
                }
            }
            if malformed {
                o.count("malformed");
            }
            if r.chance(1, 4) {
                // what other signers and updaters leave behind
                let i = r.below(f.ins.len());
                let (pk, leaf) = (r.sk().public_key(secp()), r.sk().x_only_public_key(secp()).0);
                let pi = &mut f.psbt.inputs[i];
                let sig = secp().sign_ecdsa(&Message::from_digest(r.bytes()), &r.sk());
                match r.below(5) {
                    0 => {
                        pi.partial_sigs.insert(bitcoin::PublicKey::new(pk), bitcoin::ecdsa::Signature::sighash_all(sig));
                    }
                    1 => {
                        pi.bip32_derivation.insert(pk, source(r));
                    }
                    2 => {
                        pi.tap_key_origins.insert(leaf, (vec![], source(r)));
                        pi.tap_internal_key = Some(leaf);
                    }
                    3 => {
                        pi.sha256_preimages.insert(bitcoin::hashes::sha256::Hash::hash(b"x"), vec![1, 2]);
                    }
                    _ => {
                        pi.unknown.insert(bitcoin::psbt::raw::Key { type_value: 0xf0, key: r.vec(3) }, r.vec(9));
                    }
                }
                o.count("foreign_fields");
            }
            if r.chance(1, 3) {
                // data written by another software: the format of the fields is part of the interface
                for (i, t) in f.sp_tweaks.iter().enumerate() {
                    if let (Some((pk, tw)), true) = (t, can[i]) {
                        let key = ProprietaryKey { prefix: b"bip352".to_vec(), subtype: 1, key: pk.serialize().to_vec() };
                        f.psbt.inputs[i].proprietary.retain(|k, _| k.key != pk.serialize());
                        f.psbt.inputs[i].proprietary.insert(key, tw.to_vec());
                        o.count("fields_written_by_others");
                    }
                }
            }
            if r.chance(1, 10) {
                // silent payment data on an input which spends something else, well-formed or not
                let i = r.below(f.ins.len());
                let pk = f.keys.by_pk.keys().next().copied().unwrap_or_else(|| r.sk().public_key(secp()));
                let t = f.sp_tweaks[i].map_or_else(|| r.bytes(), |t| t.1);
                let mut script = f.ins[i].prevout.script_pubkey.to_bytes();
                match r.below(4) {
                    0 => script.truncate(r.below(5)),
                    1 => script = vec![0x6a; r.below(36)],
                    2 if !script.is_empty() => script[0] = *r.pick(&[0x00, 0x52, 0x60, 0x6a]),
                    _ => script.truncate(33),
                }
                f.psbt.inputs[i].non_witness_utxo = None;
                f.psbt.inputs[i].witness_utxo = Some(TxOut { value: f.ins[i].prevout.value, script_pubkey: script.into() });
                f.psbt.inputs[i].proprietary.insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype: 1, key: f.sp_tweaks[i].map_or(pk, |t| t.0).serialize().to_vec() }, t.to_vec());
                can[i] = false;
                o.count("other_spent_script");
            }
            if r.chance(1, 12) {
                // the spent output of some input is not known: no signature can commit to it
                let i = r.below(f.ins.len());
                f.psbt.inputs[i].witness_utxo = None;
                f.psbt.inputs[i].non_witness_utxo = None;
                can.iter_mut().for_each(|c| *c = false);
                o.count("unknown_prevout");
            } else if r.chance(1, 3) {
                // what the signatures have to commit to is asked for, input by input
                for i in 0..f.ins.len() {
                    let t = match r.below(12) {
                        0..=4 => continue,
                        5 => 0x00,
                        6 => 0x01,
                        7 => 0x02,
                        8 => 0x03,
                        9 => *r.pick(&[0x81, 0x82]),
                        10 => 0x83,
                        _ => *r.pick(&[0x04, 0x80, 0x84, 0xff, 0x100, u32::MAX]),
                    };
                    f.psbt.inputs[i].sighash_type = Some(bitcoin::psbt::PsbtSighashType::from_u32(t));
                    if !can[i] {
                        continue;
                    }
                    o.count("sighash_type_given");
                    let single = t & 3 == 3 && i >= f.psbt.unsigned_tx.output.len();
                    if !matches!(t, 0..=3 | 0x81..=0x83) || single {
                        can[i] = false;
                        o.count("impossible_sighash_type");
                    }
                }
            }
            let before = f.psbt.clone();
            let mut psbt = f.psbt.clone();
            if let Err(m) = guard(|| sign_sp(&mut psbt, &f.keys, secp())) {
                return bad(if malformed { "panic:malformed" } else { "panic:sign" }, format!("signing crashed: {m}; inputs {}", kinds(&f.ins)));
            }
            o.nontrivial = can.iter().any(|c| *c);
            if o.nontrivial {
                o.distinct(&format!("{}|{can:?}|{malformed}", kinds(&f.ins)));
            }
            let prevs: Vec<TxOut> = before
                .iter_funding_utxos()
                .enumerate()
                .map(|(i, u)| u.cloned().unwrap_or_else(|_| f.ins[i].prevout.clone()))
                .collect();
            let tx = psbt.unsigned_tx.clone();
            let mut cache = SighashCache::new(&tx);
            for i in 0..f.ins.len() {
                let was = before.inputs[i].tap_key_sig;
                let now = psbt.inputs[i].tap_key_sig;
                if was.is_some() {
                    ensure!(was == now, "signature-replaced", "input {i}: an existing signature was replaced");
                    continue;
                }
                if !can[i] {
                    ensure!(now.is_none(), "signed-foreign", "input {i} ({:?}) was signed although it is not spendable with the given data", f.ins[i].kind);
                    o.count("left_unsigned");
                    continue;
                }
                let Some(sig) = now else {
                    return bad("not-signed", format!("silent payment input {i} was not signed; inputs {}", kinds(&f.ins)));
                };
                let asked = before.inputs[i].taproot_hash_ty().expect("left out above");
                ensure!(sig.sighash_type == asked, "wrong-sighash-type", "input {i} asks for a signature of type {asked}, it got one of type {}", sig.sighash_type);
                let h = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(&prevs), sig.sighash_type).map_err(|e| Bad { sig: "sighash".into(), msg: e.to_string(), detail: json!(null) })?;
                let key = XOnlyPublicKey::from_slice(&f.ins[i].prevout.script_pubkey.as_bytes()[2..]).unwrap();
                ensure!(
                    secp().verify_schnorr(&sig.signature, &Message::from_digest(h.to_byte_array()), &key).is_ok(),
                    "bad-signature",
                    "input {i}: the signature does not verify for the final transaction; inputs {}",
                    kinds(&f.ins)
                );
                o.count("signatures_verified");
            }
            // nothing else changed
            let mut x = psbt.clone();
            for (a, b) in x.inputs.iter_mut().zip(&before.inputs) {
                a.tap_key_sig = b.tap_key_sig;
            }
            ensure!(x == before, "psbt-changed", "signing changed something else in the PSBT");
            // signing again changes nothing
            let mut y = psbt.clone();
            sign_sp(&mut y, &f.keys, secp());
            ensure!(y == psbt, "not-idempotent", "signing twice changes the PSBT");
            if o.sample.is_none() {
                o.sample = Some(json!({"inputs": kinds(&f.ins), "signable": can}));
            }
            let _ = (Witness::new(), Txid::from_byte_array([0; 32]));
            Ok(())
        },
    )
}
