use crate::util::*;
use bdk_sp::receive::{compute_tweak_data, extract_pubkey, get_silentpayment_script_pubkey, scan_txouts};
use bdk_sp::send::create_silentpayment_partial_secret;
use bdk_sp::{tag_txin, LexMin, SpInputs};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{Keypair, Message, PublicKey, SecretKey, XOnlyPublicKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{OutPoint, ScriptBuf, TapSighashType, Transaction, TxIn, TxOut, Txid, Witness};
use kit::gen::{self, GenInput, Receiver};
use kit::model::{self, secp};
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;

fn err(sig: &str, msg: String) -> Bad {
    Bad { sig: sig.into(), msg, detail: json!(null) }
}

/// Outputs of a possibly protocol-violating sender towards `rv`.
fn hostile_outputs(r: &mut Rng, o: &mut Obs, rv: &Receiver, ecdh: &PublicKey) -> Vec<TxOut> {
    let mut keys: Vec<[u8; 32]> = vec![];
    let unknown: Vec<u32> = (0..2).map(|_| r.u32()).filter(|m| !rv.labels.contains(m)).collect();
    let at = |k: u32, l: Option<u32>| -> [u8; 32] {
        model::xonly(&rv.b_m(l).combine(&model::point_of(&model::shared_hash(ecdh, k))).unwrap())
    };
    let len = match r.below(10) {
        _ if r.chance(1, 600) => {
            // more outputs than fit in a byte
            o.count("huge_transactions");
            r.range(257, 300) as u32
        }
        0 => r.range(8, 40) as u32,
        1 => 0,
        _ => r.range(1, 6) as u32,
    };
    for k in 0..len {
        keys.push(at(k, rv.any_label(r)));
    }
    let mut outs: Vec<TxOut> = vec![];
    for _ in 0..r.below(4) {
        match r.below(10) {
            // gap: not to be found unless the sequence reaches it
            0 => {
                o.count("gap_outputs");
                keys.push(at(len + r.range(1, 3) as u32, rv.any_label(r)))
            }
            // unknown label
            1 => {
                if let Some(m) = unknown.first() {
                    o.count("unknown_label_outputs");
                    keys.push(at(len.saturating_sub(1), Some(*m)))
                }
            }
            // several outputs for one k
            2 => {
                if len > 0 {
                    o.count("same_k_outputs");
                    let k = r.below(len as usize) as u32;
                    keys.push(at(k, rv.any_label(r)))
                }
            }
            // the right key under another script template
            3 => {
                let x = at(r.below(len as usize + 1) as u32, None);
                let mut v = match r.below(4) {
                    0 => vec![0x52, 0x20],
                    1 => vec![0x00, 0x20],
                    2 => vec![0x6a, 0x20],
                    _ => vec![0x60, 0x20],
                };
                v.extend_from_slice(&x);
                o.count("wrong_template_outputs");
                outs.push(TxOut { value: gen::amount(r), script_pubkey: gen::spk(v) });
            }
            // the bare spend key, the scan key, the label point
            4 => keys.push(model::xonly(&rv.spend_pk())),
            5 => keys.push(model::xonly(&rv.scan_pk())),
            // near miss: one bit away
            6 => {
                let mut x = at(0, None);
                x[r.below(32)] ^= 1 << r.below(8);
                keys.push(x);
                o.count("near_miss_outputs");
            }
            // sums of the right points with wrong signs, doubled or left out: the holder of the spend
            // key cannot spend these with the tweak of any label
            7 | 8 => {
                let t = model::point_of(&model::shared_hash(ecdh, r.below(len as usize + 1) as u32));
                let label = |r: &mut Rng| -> Option<PublicKey> {
                    let m = if rv.labels.is_empty() { r.u32() } else { *r.pick(&rv.labels) };
                    Some(model::point_of(&model::label_hash(&rv.scan, m)))
                };
                let l = [label(r), if r.chance(1, 3) { label(r) } else { None }];
                let mut parts = vec![];
                for p in [Some(rv.spend_pk()), Some(t), l[0], l[1]].into_iter().flatten() {
                    match r.below(6) {
                        0 => parts.push(p.negate(secp())),
                        1 if r.chance(1, 2) => {}
                        2 if r.chance(1, 2) => parts.extend([p, p]),
                        _ => parts.push(p),
                    }
                }
                if let Some(p) = model::sum_points(&parts) {
                    keys.push(model::xonly(&p));
                    o.count("twisted_outputs");
                }
            }
            // t_k as key without the spend key
            _ => keys.push(model::xonly(&model::point_of(&model::shared_hash(ecdh, 0)))),
        }
    }
    for k in keys {
        outs.push(TxOut { value: gen::amount(r), script_pubkey: model::p2tr_spk(&k) });
    }
    for _ in 0..r.below(5) {
        outs.push(TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) });
    }
    match r.below(4) {
        0 => {}
        1 => outs.reverse(),
        _ => r.shuffle(&mut outs),
    }
    outs
}

pub fn c03() -> i32 {
    run(
        Spec {
            prop: "C03",
            rule: "random transactions (all input types, eligible or not) whose outputs are chosen by an honest or a hostile sender: gaps in k, several outputs per k, unknown labels, right key under the wrong template, near misses, up to 40 payments and now and then up to 300; the reported set is judged against an independent BIP352 scan",
            quick: 10000,
            thorough: 60000,
            require: &[("scans_judged", 2000), ("outputs_found", 3000), ("not_scannable", 30), ("gap_outputs", 100), ("same_k_outputs", 100), ("unknown_label_outputs", 50), ("labelled_found", 300), ("order_independence_checked", 200), ("huge_transactions", 4), ("twisted_outputs", 500)],
            assumptions: &["libsecp256k1 group arithmetic and SHA256 are trusted"],
            threads: 0,
        },
        |r, o, _| {
            let rv = Receiver::new(r);
            let min = if r.chance(1, 15) { 0 } else { 1 };
            let mut ins = if min == 0 { gen::inputs(r, 0, 8) } else { good_inputs(r, 10) };
            if min == 0 && r.chance(1, 2) {
                ins.retain(|i| !i.eligible);
                if ins.is_empty() {
                    let op = gen::outpoints(r, 1)[0];
                    let k = *r.pick(gen::INELIGIBLE);
                    ins.push(gen::input_of(r, k, op, None));
                }
            }
            observe_inputs(o, &ins);
            let prevouts = gen::prevouts(&ins);
            let probe = gen::tx(r, &ins, vec![]);
            let td = model::tweak_data(&probe, &prevouts);
            let sc = scanner(&rv);
            match td {
                None => {
                    // no eligible input: nothing may be reported
                    let n = r.range(1, 3);
                    let outs = (0..n).map(|_| TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }).collect();
                    let tx = gen::tx(r, &ins, outs);
                    o.count("not_scannable");
                    if let Ok(f) = sc.scan_tx(&tx, &prevouts) {
                        ensure!(f.is_empty(), "found-without-inputs", "outputs reported in a transaction without usable inputs: {f:?}");
                    }
                    Ok(())
                }
                Some(td) => {
                    let ecdh = model::mul_point(&td, &rv.scan.secret_bytes());
                    let outs = hostile_outputs(r, o, &rv, &ecdh);
                    let tx = gen::tx(r, &ins, outs);
                    let found = sc.scan_tx(&tx, &prevouts).map_err(|e| err("scan-error", format!("cannot scan: {e}; inputs {}", kinds(&ins))))?;
                    let rep = reported(&tx, &found)?;
                    let n = model::judge_scan(&ecdh, &rv.spend_pk(), &rv.scan, &rv.labels, &tx, &rep)
                        .map_err(|m| err("scan-mismatch", format!("{m}; inputs {}", kinds(&ins))))?;
                    o.count("scans_judged");
                    o.add("outputs_found", n as u64);
                    o.add("labelled_found", rep.iter().filter(|x| x.label.is_some()).count() as u64);
                    o.nontrivial = n > 0;
                    if n > 0 {
                        o.distinct(&format!("{}|{}|{:?}", kinds(&ins), tx.output.len(), rep.iter().map(|x| (x.vout, x.label.is_some())).collect::<Vec<_>>()));
                    }
                    if o.sample.is_none() && n > 1 {
                        o.sample = Some(json!({"inputs": kinds(&ins), "outputs": tx.output.len(), "found": n}));
                    }
                    let shared = sc.get_shared_secret(&tx, &prevouts).map_err(|e| err("scan-error", e.to_string()))?;
                    ensure!(shared == ecdh, "shared-secret", "the shared secret is {ecdh}, the scanner says {shared}; inputs {}", kinds(&ins));
                    let f1 = sc.scan_txouts(&tx, shared).map_err(|e| err("scan-error", e.to_string()))?;
                    let rep1 = reported(&tx, &f1)?;
                    model::judge_scan(&ecdh, &rv.spend_pk(), &rv.scan, &rv.labels, &tx, &rep1).map_err(|m| err("scan-mismatch", m))?;
                    // scanning with a shared secret known beforehand gives an equally right answer
                    let f2 = scan_txouts(rv.spend_pk(), &label_map(&rv), &tx, ecdh).map_err(|e| err("scan-error", e.to_string()))?;
                    let rep2 = reported(&tx, &f2)?;
                    model::judge_scan(&ecdh, &rv.spend_pk(), &rv.scan, &rv.labels, &tx, &rep2).map_err(|m| err("scan-mismatch", m))?;
                    // and so does another order of the outputs
                    if r.chance(1, 3) {
                        let mut t2 = tx.clone();
                        r.shuffle(&mut t2.output);
                        let f3 = sc.scan_tx(&t2, &prevouts).map_err(|e| err("scan-error", e.to_string()))?;
                        let rep3 = reported(&t2, &f3)?;
                        model::judge_scan(&ecdh, &rv.spend_pk(), &rv.scan, &rv.labels, &t2, &rep3).map_err(|m| err("scan-mismatch", m))?;
                        o.count("order_independence_checked");
                    }
                    Ok(())
                }
            }
        },
    )
}

pub fn c04() -> i32 {
    run(
        Spec {
            prop: "C04",
            rule: "outputs detected in random transactions (honest and hostile senders, labels, k up to 40); for each the spend secret plus the reported tweak signs a spending transaction under BIP341 and the signature is verified against the output key in the script",
            quick: 6000,
            thorough: 40000,
            require: &[("outputs_spent", 2500), ("labelled_spent", 400), ("odd_output_secret", 500), ("even_output_secret", 500)],
            assumptions: &["libsecp256k1 Schnorr and rust-bitcoin BIP341 sighash are trusted"],
            threads: 0,
        },
        |r, o, _| {
            let rv = Receiver::new(r);
            let ins = good_inputs(r, 6);
            let prevouts = gen::prevouts(&ins);
            let probe = gen::tx(r, &ins, vec![]);
            let td = model::tweak_data(&probe, &prevouts).unwrap();
            let ecdh = model::mul_point(&td, &rv.scan.secret_bytes());
            let outs = hostile_outputs(r, o, &rv, &ecdh);
            let tx = gen::tx(r, &ins, outs);
            let found = scanner(&rv).scan_tx(&tx, &prevouts).map_err(|e| err("scan-error", e.to_string()))?;
            if found.is_empty() {
                return Ok(());
            }
            o.nontrivial = true;
            o.distinct(&format!("{}|{:?}", kinds(&ins), found.iter().map(|f| (f.outpoint.vout, f.label.is_some())).collect::<Vec<_>>()));
            let txid = tx.compute_txid();
            // spend them all in one transaction
            let spend = Transaction {
                input: found
                    .iter()
                    .map(|f| TxIn { previous_output: f.outpoint, witness: Witness::new(), ..Default::default() })
                    .collect(),
                output: vec![TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }],
                ..probe.clone()
            };
            // what the chain says about those outputs
            let mut prevs = vec![];
            for f in &found {
                ensure!(f.outpoint.txid == txid, "foreign-outpoint", "{} not of {txid}", f.outpoint);
                match tx.output.get(f.outpoint.vout as usize) {
                    Some(t) => prevs.push(t.clone()),
                    None => return bad("no-such-output", format!("{}", f.outpoint)),
                }
            }
            let mut cache = SighashCache::new(&spend);
            for (i, f) in found.iter().enumerate() {
                let sk = rv.spend.add_tweak(&f.tweak.into()).map_err(|e| err("unspendable", format!("tweak cannot be added: {e}")))?;
                let kp = Keypair::from_secret_key(secp(), &sk);
                if sk.public_key(secp()).serialize()[0] == 3 {
                    o.count("odd_output_secret");
                } else {
                    o.count("even_output_secret");
                }
                let h = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(&prevs), TapSighashType::Default).unwrap();
                let msg = Message::from_digest(h.to_byte_array());
                let sig = secp().sign_schnorr_no_aux_rand(&msg, &kp);
                let spk = prevs[i].script_pubkey.as_bytes();
                let key = XOnlyPublicKey::from_slice(&spk[2..]).map_err(|e| err("unspendable", format!("output {i} has no key: {e}")))?;
                ensure!(model::is_p2tr(spk), "unspendable", "reported output {} is not P2TR", f.outpoint);
                ensure!(
                    secp().verify_schnorr(&sig, &msg, &key).is_ok(),
                    "unspendable",
                    "output {} (label {:?}): the reported tweak with the spend key does not sign for it",
                    f.outpoint,
                    f.label
                );
                o.count("outputs_spent");
                if f.label.is_some() {
                    o.count("labelled_spent");
                }
            }
            if o.sample.is_none() {
                o.sample = Some(json!({"found": found.len(), "labelled": found.iter().filter(|f| f.label.is_some()).count()}));
            }
            Ok(())
        },
    )
}

fn kind_of(s: SpInputs) -> model::Kind {
    match s {
        SpInputs::Tr => model::Kind::Tr,
        SpInputs::Wpkh => model::Kind::Wpkh,
        SpInputs::ShWpkh => model::Kind::ShWpkh,
        SpInputs::Pkh => model::Kind::Pkh,
    }
}

fn judge_input(o: &mut Obs, txin: &TxIn, spk: &ScriptBuf, what: &str) -> Result<(), Bad> {
    let want = model::eligible(txin, spk);
    let got = extract_pubkey(txin.clone(), spk).map(|(k, p)| (kind_of(k), p));
    o.count("inputs_judged");
    if want.is_some() {
        o.count("eligible_judged");
    } else {
        o.count("ineligible_judged");
    }
    ensure!(
        got == want,
        "eligibility",
        "{what}: input contributes {got:?}, BIP352 says {want:?}; script_pubkey {spk:x}, script_sig {:x}, witness {:02x?}",
        txin.script_sig,
        txin.witness.to_vec()
    );
    if let Some((k, _)) = want {
        let t = tag_txin(txin, spk).map(kind_of);
        ensure!(t == Some(k), "tag", "{what}: input of kind {k:?} tagged {t:?}");
    }
    Ok(())
}

pub fn c05() -> i32 {
    run(
        Spec {
            prop: "C05",
            rule: "inputs of every script type spent in every way (key path, script path, NUMS internal key at any depth, annex, malleated P2PKH, uncompressed keys, P2SH/P2WSH/bare), plus mutations of witness, scriptSig and prevout script of those; the contributed key is compared with a byte-level model of the BIP352 input rules",
            quick: 80000,
            thorough: 400000,
            require: &[("inputs_judged", 20000), ("eligible_judged", 8000), ("ineligible_judged", 8000), ("mutated", 5000)],
            assumptions: &["inputs are consensus-valid or differ from such by the listed mutations; scriptSigs of P2SH-P2WPKH inputs carry the single push that consensus demands"],
            threads: 0,
        },
        |r, o, _| {
            let kind = if r.chance(1, 25) {
                gen::InKind::TrBogus
            } else if r.chance(1, 2) {
                *r.pick(gen::ELIGIBLE)
            } else {
                *r.pick(gen::INELIGIBLE)
            };
            let op = gen::outpoints(r, 1)[0];
            let gi = gen::input_of(r, kind, op, None);
            o.count(&format!("input:{kind:?}"));
            o.nontrivial = true;
            o.distinct(&format!("{kind:?}|{}|{:?}", gi.txin.script_sig.len(), gi.txin.witness.iter().map(|w| w.len()).collect::<Vec<_>>()));
            judge_input(o, &gi.txin, &gi.prevout.script_pubkey, &format!("{kind:?}"))?;
            if gi.eligible {
                let want = if model::is_p2tr(gi.prevout.script_pubkey.as_bytes()) { model::even(gi.secret) } else { gi.secret };
                let got = extract_pubkey(gi.txin.clone(), &gi.prevout.script_pubkey).map(|x| x.1);
                ensure!(got == Some(want.public_key(secp())), "eligibility", "{kind:?}: key {got:?} is not the spender's");
            }
            if o.sample.is_none() {
                o.sample = Some(json!({"kind": format!("{kind:?}"), "witness": gi.txin.witness.len()}));
            }
            // mutations
            let mut t = gi.txin.clone();
            let mut spk = gi.prevout.script_pubkey.clone();
            let mut w = t.witness.to_vec();
            let m = r.below(12);
            match m {
                0 => w.clear(),
                1 => t.script_sig = ScriptBuf::new(),
                2 => {
                    // another prevout of another type under the same spend data
                    let k2 = *r.pick(&[gen::InKind::Pkh, gen::InKind::Wpkh, gen::InKind::TrKey, gen::InKind::Wsh, gen::InKind::Pk]);
                    spk = gen::input_of(r, k2, op, None).prevout.script_pubkey;
                }
                3 => {
                    if let Some(l) = w.last_mut() {
                        if !l.is_empty() {
                            let n = r.below(l.len());
                            l[n] ^= 1 << r.below(8);
                        }
                    }
                }
                4 => {
                    let n = r.below(40);
                    w.push(r.vec(n));
                }
                5 => {
                    w.pop();
                }
                6 => {
                    // P2PKH scriptSig bytes flipped
                    let mut b = t.script_sig.to_bytes();
                    if !b.is_empty() && !model::is_p2sh(spk.as_bytes()) {
                        let n = r.below(b.len());
                        b[n] ^= 1 << r.below(8);
                    }
                    t.script_sig = gen::spk(b);
                }
                7 => {
                    // prevout hash flipped
                    let mut b = spk.to_bytes();
                    let n = b.len() - 1 - r.below(b.len().min(20));
                    b[n] ^= 1 << r.below(8);
                    if !model::is_p2sh(&b) {
                        spk = gen::spk(b);
                    }
                }
                8 => {
                    // truncated prevout script
                    let mut b = spk.to_bytes();
                    b.truncate(r.below(b.len() + 1));
                    spk = gen::spk(b);
                }
                9 => {
                    // a scriptSig next to a native segwit spend
                    if !model::is_p2sh(spk.as_bytes()) {
                        t.script_sig = gen::spk(vec![0x51]);
                    }
                }
                10 => {
                    let n = r.below(6);
                    w = (0..n).map(|_| { let l = r.below(70); r.vec(l) }).collect();
                }
                _ => {
                    // annex on whatever there is
                    let n = r.below(40);
                    let mut a = vec![0x50];
                    a.extend(r.vec(n));
                    w.push(a);
                }
            }
            t.witness = Witness::from_slice(&w);
            o.count("mutated");
            judge_input(o, &t, &spk, &format!("{kind:?} mutation {m}"))
        },
    )
}

fn lexmin_of(ops: &[OutPoint]) -> Result<[u8; 36], Bad> {
    let mut l = LexMin::default();
    for op in ops {
        l.update(op);
    }
    l.bytes().map_err(|e| err("lexmin", e.to_string()))
}

pub fn c06() -> i32 {
    run(
        Spec {
            prop: "C06",
            rule: "random transactions, inputs in random orders, outpoints sharing a txid with vouts around byte boundaries, running key sums that pass through zero, sums that are zero, no eligible inputs, inputs spending unknown segwit versions; public tweak data is compared with the model and with the sender's partial secret",
            quick: 16000,
            thorough: 80000,
            require: &[("tweaks_compared", 3000), ("refused", 200), ("sender_receiver_agree", 3000), ("permutations", 1500), ("lexmin_sets", 3000)],
            assumptions: &["libsecp256k1 group arithmetic and SHA256 are trusted"],
            threads: 0,
        },
        |r, o, _| {
            // the smallest outpoint on its own, over larger sets
            let n = r.range(1, 40);
            let ops = gen::outpoints(r, n);
            let want = model::smallest_outpoint(ops.iter().copied()).unwrap();
            ensure!(lexmin_of(&ops)? == want, "smallest-outpoint", "smallest of {ops:?}: {:02x?}", lexmin_of(&ops)?);
            o.count("lexmin_sets");

            let mut ins: Vec<GenInput> = match r.below(12) {
                0 => {
                    let mut v = vec![];
                    gen::with_cancelling_pair(r, &mut v);
                    v
                }
                1 => gen::inputs(r, 0, 5).into_iter().filter(|i| !i.eligible).collect(),
                2 | 3 => {
                    let mut v = gen::inputs(r, 1, 8);
                    gen::with_cancelling_pair(r, &mut v);
                    v
                }
                _ if r.chance(1, 400) => {
                    o.count("many_inputs");
                    let n = r.range(257, 400);
                    gen::inputs(r, n, n)
                }
                _ => gen::inputs(r, 1, 20),
            };
            if ins.is_empty() {
                return Ok(());
            }
            let future = r.chance(1, 20);
            if future {
                // an input that spends a witness program of version 2..16
                let i = r.below(ins.len());
                let mut v = vec![0x52 + r.below(15) as u8];
                let n = *r.pick(&[2usize, 20, 32, 40]);
                v.push(n as u8);
                v.extend(r.vec(n));
                let op = ins[i].txin.previous_output;
                let mut g = gen::input_of(r, gen::InKind::TrKey, op, None);
                g.prevout.script_pubkey = gen::spk(v);
                g.eligible = false;
                let at = r.below(ins.len() + 1);
                g.txin.previous_output = gen::outpoints(r, 1)[0];
                ins.insert(at, g);
                o.count("future_segwit");
            }
            observe_inputs(o, &ins);
            let prevouts = gen::prevouts(&ins);
            let n_out = r.range(0, 3);
            let outs = (0..n_out).map(|_| TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }).collect();
            let tx = gen::tx(r, &ins, outs);
            let want = model::tweak_data(&tx, &prevouts);
            let got = compute_tweak_data(&tx, &prevouts);
            match (want, got) {
                (None, Err(_)) => {
                    o.count("refused");
                    return Ok(());
                }
                (None, Ok(p)) => return bad(if future { "future-segwit" } else { "tweak-without-inputs" }, format!("tweak data {p} computed for a transaction that must not be scanned; inputs {}", kinds(&ins))),
                (Some(_), Err(e)) => return bad("tweak-refused", format!("no tweak data: {e}; inputs {}", kinds(&ins))),
                (Some(w), Ok(g)) => {
                    ensure!(w == g, "tweak-data", "tweak data {g}, BIP352 gives {w}; inputs {} outpoints {:?}", kinds(&ins), ins.iter().map(|i| i.txin.previous_output).collect::<Vec<_>>());
                    o.count("tweaks_compared");
                    o.nontrivial = true;
                    o.distinct(&format!("{}|{}", kinds(&ins), &w.to_string()[..12]));
                    if o.sample.is_none() {
                        o.sample = Some(json!({"inputs": kinds(&ins), "tweak": w.to_string()}));
                    }
                    // the sender's view of the same inputs
                    let ps = create_silentpayment_partial_secret(&smallest(&ins), &pairs(&ins))
                        .map_err(|e| err("sender-refuses", format!("{e}; inputs {}", kinds(&ins))))?;
                    ensure!(ps.public_key(secp()) == w, "sender-receiver", "sender's partial secret does not correspond to the receiver's tweak data; inputs {}", kinds(&ins));
                    o.count("sender_receiver_agree");
                    // order of inputs, signatures' presence elsewhere, outputs, sequences do not matter
                    if r.chance(1, 2) {
                        let mut v = ins.clone();
                        r.shuffle(&mut v);
                        for i in v.iter_mut() {
                            i.txin.sequence = bitcoin::Sequence(r.u32());
                            i.prevout.value = gen::amount(r);
                        }
                        let outs = vec![TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }];
                        let t2 = gen::tx(r, &v, outs);
                        let g2 = compute_tweak_data(&t2, &gen::prevouts(&v)).map_err(|e| err("tweak-refused", format!("refused after reordering inputs: {e}")))?;
                        ensure!(g2 == w, "tweak-order", "reordering the inputs changes the tweak data; inputs {}", kinds(&v));
                        let mut ps_in = pairs(&v);
                        r.shuffle(&mut ps_in);
                        let p2 = create_silentpayment_partial_secret(&smallest(&v), &ps_in).map_err(|e| err("sender-refuses", format!("refused after reordering: {e}")))?;
                        ensure!(p2 == ps, "partial-order", "reordering the inputs changes the partial secret");
                        o.count("permutations");
                    }
                }
            }
            Ok(())
        },
    )
}

pub fn c10() -> i32 {
    run(
        Spec {
            prop: "C10",
            rule: "random transactions paying receivers with any labels and k; from the public tweak alone the light-client derivation must contain the on-chain script of every payment, must be exactly the scripts the model lists, and must not contain anybody else's",
            quick: 10000,
            thorough: 50000,
            require: &[("payments_predicted", 3000), ("scripts_compared", 8000), ("strangers", 2000)],
            assumptions: &["libsecp256k1 group arithmetic and SHA256 are trusted"],
            threads: 0,
        },
        |r, o, _| {
            let rv = Receiver::new(r);
            let ins = good_inputs(r, 6);
            let tx = gen::tx(r, &ins, vec![]);
            let prevouts = gen::prevouts(&ins);
            let tweak = compute_tweak_data(&tx, &prevouts).map_err(|e| err("tweak-refused", e.to_string()))?;
            let ecdh = model::mul_point(&model::tweak_data(&tx, &prevouts).unwrap(), &rv.scan.secret_bytes());
            let sc = scanner(&rv);
            let k = match r.below(4) {
                0 => 0,
                1 => r.below(10) as u32,
                _ => r.edgy_u32(),
            };
            let got: Vec<ScriptBuf> = sc.get_spks_from_tweak(&tweak, k);
            let mut want: Vec<ScriptBuf> = vec![];
            for l in std::iter::once(None).chain(rv.labels.iter().map(|m| Some(*m))) {
                let p = rv.b_m(l).combine(&model::point_of(&model::shared_hash(&ecdh, k))).unwrap();
                want.push(model::p2tr_spk(&model::xonly(&p)));
                // one by one
                let lp = l.map(|m| model::point_of(&model::label_hash(&rv.scan, m)));
                let one = get_silentpayment_script_pubkey(&rv.spend_pk(), &ecdh, k, lp.as_ref());
                ensure!(one == *want.last().unwrap(), "script", "label {l:?}, k={k}: script {one:x}, expected {:x}", want.last().unwrap());
            }
            o.add("scripts_compared", want.len() as u64);
            let (mut g, mut w) = (got.clone(), want.clone());
            g.sort();
            w.sort();
            ensure!(g == w, "script-set", "k={k}, labels {:?}: derived {g:x?}, expected {w:x?}", rv.labels);
            // what a real sender pays at k=0 is among them
            let l = rv.any_label(r);
            let c = code(&rv, l, bitcoin::Network::Bitcoin)?;
            let ps = create_silentpayment_partial_secret(&smallest(&ins), &pairs(&ins)).map_err(|e| err("sender-refuses", e.to_string()))?;
            let n = r.range(1, 4);
            let m = bdk_sp::send::create_silentpayment_scriptpubkeys(ps, &vec![c.clone(); n]);
            for (k, x) in m[&c].iter().enumerate() {
                let s = model::p2tr_spk(&x.serialize());
                ensure!(sc.get_spks_from_tweak(&tweak, k as u32).contains(&s), "payment-not-predicted", "payment number {k} to label {l:?} is not predicted from the tweak");
                o.count("payments_predicted");
            }
            // an unrelated receiver's scripts are different
            let other = Receiver::new(r);
            if other.scan_pk() != rv.scan_pk() {
                let os = scanner(&other).get_spks_from_tweak(&tweak, k);
                ensure!(os.iter().all(|s| !want.contains(s)), "stranger-script", "an unrelated receiver derives the same script");
                o.count("strangers");
            }
            o.nontrivial = true;
            o.distinct(&format!("{}|{}|{k}", kinds(&ins), rv.labels.len()));
            if o.sample.is_none() {
                o.sample = Some(json!({"labels": rv.labels, "k": k, "scripts": want.len()}));
            }
            let _ = (Txid::from_byte_array([0; 32]), SecretKey::from_slice(&[1; 32]), Rng::new(0));
            Ok(())
        },
    )
}
