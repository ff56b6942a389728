use crate::util::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::SpOut;
use bdk_sp::send::bip32::XprivSilentPaymentSender;
use bdk_sp::send::bip352::SpSender;
use bdk_sp::send::{create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys};
use bdk_sp::LexMin;
use bitcoin::bip32::{DerivationPath, Xpriv};
use bitcoin::secp256k1::{PublicKey, SecretKey, XOnlyPublicKey};
use bitcoin::{Network, OutPoint, ScriptBuf, TxOut};
use kit::gen::{self, GenInput, Receiver};
use kit::model::{self, secp};
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

/// Sender output keys in recipient order: the map returned per code is consumed front to back.
fn in_order(
    map: &HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>,
    codes: &[SilentPaymentCode],
) -> Result<Vec<[u8; 32]>, Bad> {
    let mut used: HashMap<&SilentPaymentCode, usize> = HashMap::new();
    let mut v = vec![];
    for c in codes {
        let n = used.entry(c).or_default();
        match map.get(c).and_then(|l| l.get(*n)) {
            Some(k) => v.push(k.serialize()),
            None => return bad("missing-derivation", format!("no derived key number {n} for code {c}")),
        }
        *n += 1;
    }
    for (c, l) in map {
        let n = used.get(c).copied().unwrap_or(0);
        ensure!(n == l.len(), "extra-derivation", "{} keys derived for {c}, which is paid {n} times", l.len());
    }
    Ok(v)
}

fn lexmin(ins: &[GenInput]) -> Result<[u8; 36], Bad> {
    let mut l = LexMin::default();
    for i in ins {
        l.update(&i.txin.previous_output);
    }
    match l.bytes() {
        Ok(b) => Ok(b),
        Err(e) => bad("lexmin", format!("no smallest outpoint over {} inputs: {e}", ins.len())),
    }
}

/// Interleave derived outputs with foreign ones, in random order.
fn outputs(r: &mut Rng, keys: &[[u8; 32]]) -> Vec<(TxOut, Option<usize>)> {
    let mut outs: Vec<(TxOut, Option<usize>)> = keys
        .iter()
        .enumerate()
        .map(|(i, k)| (TxOut { value: gen::amount(r), script_pubkey: model::p2tr_spk(k) }, Some(i)))
        .collect();
    let n = r.below(5);
    for _ in 0..n {
        outs.push((TxOut { value: gen::amount(r), script_pubkey: gen::foreign_output(r) }, None));
    }
    r.shuffle(&mut outs);
    outs
}

/// Build the transaction and let every receiver scan it; exactly the paid outputs are reported.
fn everyone_finds(
    r: &mut Rng,
    o: &mut Obs,
    ins: &[GenInput],
    keys: &[[u8; 32]],
    rvs: &[Receiver],
    recs: &[(usize, Option<u32>)],
) -> Result<(), Bad> {
    let outs = outputs(r, keys);
    let tx = gen::tx(r, ins, outs.iter().map(|x| x.0.clone()).collect());
    let prevouts = gen::prevouts(ins);
    for (ri, rv) in rvs.iter().enumerate() {
        let found = match scanner(rv).scan_tx(&tx, &prevouts) {
            Ok(f) => f,
            Err(e) => return bad("scan-error", format!("receiver {ri} cannot scan: {e}")),
        };
        let mut got: BTreeMap<u32, Option<u32>> = BTreeMap::new();
        for rep in reported(&tx, &found)? {
            ensure!(got.insert(rep.vout, rep.label).is_none(), "double-report", "output {} reported twice", rep.vout);
        }
        let mut want: BTreeMap<u32, Option<u32>> = BTreeMap::new();
        for (vout, (_, who)) in outs.iter().enumerate() {
            if let Some(i) = who {
                if recs[*i].0 == ri {
                    want.insert(vout as u32, recs[*i].1);
                }
            }
        }
        o.add("outputs_paid", want.len() as u64);
        o.add("outputs_found", got.len() as u64);
        ensure!(
            got == want,
            "paid-not-found",
            "receiver {ri} (labels {:?}): paid {want:?}, found {got:?}; inputs {}; recipients {recs:?}",
            rv.labels,
            kinds(ins)
        );
    }
    // a stranger finds nothing
    let st = loop {
        let s = Receiver::new(r);
        if rvs.iter().all(|x| x.scan_pk() != s.scan_pk()) {
            break s;
        }
    };
    let f = scanner(&st).scan_tx(&tx, &prevouts).map_err(|e| Bad {
        sig: "scan-error".into(),
        msg: format!("stranger cannot scan: {e}"),
        detail: json!(null),
    })?;
    o.count("stranger_scans");
    ensure!(f.is_empty(), "stranger-found", "an unrelated receiver detects outputs {f:?}");
    Ok(())
}

pub fn c01() -> i32 {
    run(
        Spec {
            prop: "C01",
            rule: "random transactions over all input script types, 1-4 receivers with 0-6 labels, 1-24 payments with repeats and interleaving; the real sender derives, the real scanner of every receiver scans; a case is distinct by its multiset of input kinds and its payment pattern",
            quick: 10000,
            thorough: 60000,
            require: &[("outputs_paid", 2000), ("outputs_found", 2000), ("stranger_scans", 500), ("receivers_sharing_scan_key", 20)],
            assumptions: &["libsecp256k1 group arithmetic and rust-bitcoin transaction types are trusted"],
            threads: 0,
        },
        |r, o, _| {
            let ins = good_inputs(r, 12);
            observe_inputs(o, &ins);
            let n = r.range(1, 4);
            let n = many(r, n);
            let mut rvs = receivers(r, n);
            // two spend keys behind one scan key would share the k sequence and BIP352 receivers
            // are identified by their scan key: not generated here, see C02
            if r.chance(1, 10) && rvs.len() > 1 {
                // same spend key, different scan key
                let s = rvs[0].spend;
                rvs[1].spend = s;
                o.count("receivers_sharing_spend_key");
            }
            let recs = recipients(r, &rvs);
            let net = *r.pick(&nets());
            let mut codes = vec![];
            for (i, l) in &recs {
                let c = code(&rvs[*i], *l, net)?;
                // the sender sees only the text form
                let c2 = match SilentPaymentCode::try_from(c.to_string().as_str()) {
                    Ok(c) => c,
                    Err(e) => return bad("code-roundtrip", format!("own code {c} does not parse: {e}")),
                };
                codes.push(c2);
            }
            let mut scans: Vec<&PublicKey> = codes.iter().map(|c| &c.scan).collect();
            scans.sort();
            let all = scans.len();
            scans.dedup();
            if scans.len() < all {
                o.count("receivers_sharing_scan_key");
            }
            o.nontrivial = true;
            o.distinct(&format!("{}|{:?}", kinds(&ins), recs.iter().map(|x| (x.0, x.1.is_some())).collect::<Vec<_>>()));
            let ps = match create_silentpayment_partial_secret(&lexmin(&ins)?, &pairs(&ins)) {
                Ok(p) => p,
                Err(e) => return bad("sender-refuses", format!("sender cannot derive although keys sum to non-zero: {e}; inputs {}", kinds(&ins))),
            };
            let map = create_silentpayment_scriptpubkeys(ps, &codes);
            let keys = in_order(&map, &codes)?;
            if o.sample.is_none() {
                o.sample = Some(json!({"inputs": kinds(&ins), "payments": recs.len(), "receivers": rvs.len()}));
            }
            everyone_finds(r, o, &ins, &keys, &rvs, &recs)
        },
    )
}

pub fn c02() -> i32 {
    run(
        Spec {
            prop: "C02",
            rule: "random keys, outpoints and recipient lists (codes sharing scan keys with different spend keys, labelled codes, repeats, all networks); the derived key of every recipient position is compared with an independent BIP352 model",
            quick: 16000,
            thorough: 80000,
            require: &[("keys_compared", 8000), ("k_above_0", 500), ("shared_scan_other_spend", 200), ("zero_sum_refused", 20)],
            assumptions: &["libsecp256k1 group arithmetic and SHA256 are trusted"],
            threads: 0,
        },
        |r, o, _| {
            // inputs, sometimes cancelling altogether
            let zero = r.chance(1, 30);
            let mut ins = if zero {
                let mut v = vec![];
                gen::with_cancelling_pair(r, &mut v);
                v
            } else {
                good_inputs(r, 16)
            };
            r.shuffle(&mut ins);
            if r.chance(1, 6) {
                // put ineligible scripts with their keys into the list handed to the sender as well
                o.count("ineligible_pairs_given");
            }
            let mut given = pairs(&ins);
            if r.chance(1, 6) {
                for i in ins.iter().filter(|i| {
                    !i.eligible
                        && matches!(i.kind, gen::InKind::Pk | gen::InKind::Wsh | gen::InKind::Bare)
                }) {
                    let at = r.below(given.len() + 1);
                    given.insert(at, (i.prevout.script_pubkey.clone(), i.secret));
                }
            }
            let summed: Vec<SecretKey> = ins.iter().filter(|i| i.eligible).map(|i| i.summed()).collect();
            let op = smallest(&ins);
            ensure!(lexmin(&ins)? == op, "smallest-outpoint", "smallest outpoint over {:?}: {:02x?} expected {op:02x?}", ins.iter().map(|i| i.txin.previous_output).collect::<Vec<_>>(), lexmin(&ins)?);
            // recipients
            let n = r.range(1, 4);
            let n = many(r, n);
            let rvs = receivers(r, n);
            let recs = recipients(r, &rvs);
            let extra_spends: Vec<PublicKey> = (0..3).map(|_| r.sk().public_key(secp())).collect();
            let net = *r.pick(&nets());
            let mut codes = vec![];
            for (i, l) in &recs {
                let mut c = code(&rvs[*i], *l, net)?;
                if r.chance(1, 5) {
                    c.spend = *r.pick(&extra_spends);
                    o.count("shared_scan_other_spend");
                }
                if r.chance(1, 30) {
                    c.network = *r.pick(&nets());
                }
                codes.push(c);
            }
            let rec_pks: Vec<(PublicKey, PublicKey)> = codes.iter().map(|c| (c.scan, c.spend)).collect();
            let want = model::sender_keys(&summed, &op, &rec_pks);
            let ps = create_silentpayment_partial_secret(&op, &given);
            match (ps, want) {
                (Err(_), None) => {
                    o.count("zero_sum_refused");
                    Ok(())
                }
                (Ok(_), None) => bad("zero-sum", "a derivation was produced although the input keys sum to zero"),
                (Err(e), Some(_)) => bad("sender-refuses", format!("refused although keys sum to non-zero: {e}")),
                (Ok(ps), Some(want)) => {
                    let map = create_silentpayment_scriptpubkeys(ps, &codes);
                    let got = in_order(&map, &codes)?;
                    o.nontrivial = true;
                    o.distinct(&format!("{}|{:?}", kinds(&ins), recs.iter().map(|x| (x.0, x.1.is_some())).collect::<Vec<_>>()));
                    o.add("keys_compared", got.len() as u64);
                    for i in 0..got.len() {
                        let k = rec_pks[..i].iter().filter(|x| x.0 == rec_pks[i].0).count();
                        if k > 0 {
                            o.count("k_above_0");
                        }
                        ensure!(got[i] == want[i], "wrong-key", "recipient {i} of {} (k={k}): derived {:02x?}, BIP352 gives {:02x?}; inputs {}", got.len(), got[i], want[i], kinds(&ins));
                    }
                    if o.sample.is_none() {
                        o.sample = Some(json!({"inputs": kinds(&ins), "recipients": got.len()}));
                    }
                    Ok(())
                }
            }
        },
    )
}

/// Wallet senders: HD keys over all single-sig script types, and silent payment outputs re-spent.
pub fn c14() -> i32 {
    run(
        Spec {
            prop: "C14",
            rule: "an HD wallet holding P2TR, P2WPKH, P2SH-P2WPKH and P2PKH coins at random paths, and a silent payment wallet holding detected outputs (labelled and not), each pay random recipients; every recipient scans the resulting transaction; chains of hops re-spend what was found",
            quick: 4800,
            thorough: 25000,
            require: &[("outputs_paid", 1500), ("outputs_found", 1500), ("hd_sends", 300), ("sp_sends", 300), ("hops", 300), ("related_paths", 200)],
            assumptions: &["libsecp256k1 and BIP32 derivation of rust-bitcoin are trusted", "the HD wallet's taproot coins are single-key BIP86 outputs"],
            threads: 0,
        },
        |r, o, _| {
            if r.chance(1, 2) {
                hd_send(r, o)
            } else {
                hops(r, o)
            }
        },
    )
}

/// A path near one in use: the same (of a coin with another type of script, say), its parent, a
/// child, the same numbers hardened otherwise, the next index.
fn related_path(r: &mut Rng, req: &[(OutPoint, (ScriptBuf, DerivationPath))]) -> DerivationPath {
    use bitcoin::bip32::ChildNumber;
    let mut p: Vec<ChildNumber> = r.pick(req).1 .1.clone().into();
    match r.below(5) {
        0 | 1 => {}
        2 => {
            p.pop();
        }
        3 => p.push(ChildNumber::from_normal_idx(r.below(3) as u32).unwrap()),
        _ => {
            let at = r.below(p.len().max(1));
            if let Some(c) = p.get_mut(at) {
                *c = match *c {
                    ChildNumber::Normal { index } if r.chance(1, 2) => ChildNumber::from_hardened_idx(index).unwrap(),
                    ChildNumber::Hardened { index } if r.chance(1, 2) => ChildNumber::from_normal_idx(index).unwrap(),
                    ChildNumber::Normal { index } => ChildNumber::from_normal_idx((index ^ 1) & 0x7fff_ffff).unwrap(),
                    ChildNumber::Hardened { index } => ChildNumber::from_hardened_idx((index ^ 1) & 0x7fff_ffff).unwrap(),
                };
            }
        }
    }
    p.into()
}

fn hd_send(r: &mut Rng, o: &mut Obs) -> Result<(), Bad> {
    let xpriv = Xpriv::new_master(Network::Regtest, &r.bytes::<32>()).unwrap();
    let n = r.range(1, 6);
    let ops = gen::outpoints(r, n);
    let mut ins: Vec<GenInput> = vec![];
    let mut req: Vec<(OutPoint, (ScriptBuf, DerivationPath))> = vec![];
    for op in ops {
        let path = if !req.is_empty() && r.chance(1, 3) {
            o.count("related_paths");
            related_path(r, &req)
        } else {
            (0..r.range(1, 5))
                .map(|_| {
                    let i = r.edgy_u32() & 0x7fff_ffff;
                    if r.chance(1, 2) {
                        bitcoin::bip32::ChildNumber::from_hardened_idx(i).unwrap()
                    } else {
                        bitcoin::bip32::ChildNumber::from_normal_idx(i).unwrap()
                    }
                })
                .collect::<Vec<_>>()
                .into()
        };
        let sk = xpriv.derive_priv(secp(), &path).unwrap().private_key;
        let kind = *r.pick(&[gen::InKind::TrKey, gen::InKind::TrKey, gen::InKind::Wpkh, gen::InKind::ShWpkh, gen::InKind::Pkh]);
        let secret = if kind == gen::InKind::TrKey { model::taproot_output_secret(&sk, None) } else { sk };
        let gi = gen::input_of(r, kind, op, Some(secret));
        o.count(&format!("hd_input:{kind:?}"));
        req.push((op, (gi.prevout.script_pubkey.clone(), path)));
        ins.push(gi);
    }
    if r.chance(1, 3) {
        // an address paid several times
        let j = r.below(ins.len());
        for _ in 0..r.range(1, 2) {
            let op = gen::outpoints(r, 1)[0];
            let mut gi = ins[j].clone();
            gi.txin.previous_output = op;
            let q = req[j].1.clone();
            ins.push(gi);
            req.push((op, q));
            o.count("reused_addresses");
        }
    }
    if cancels(&ins) {
        return Ok(());
    }
    let nr = r.range(1, 3);
    let rvs = receivers(r, nr);
    let recs = recipients(r, &rvs);
    let mut codes = vec![];
    for (i, l) in &recs {
        codes.push(code(&rvs[*i], *l, Network::Regtest)?);
    }
    let map = match XprivSilentPaymentSender::new(xpriv).send_to(&req, &codes) {
        Ok(m) => m,
        Err(e) => return bad("hd-refuses", format!("HD sender refuses: {e}; inputs {}", kinds(&ins))),
    };
    let keys = in_order(&map, &codes)?;
    o.count("hd_sends");
    o.nontrivial = true;
    o.distinct(&format!("hd|{}|{}", kinds(&ins), recs.len()));
    if o.sample.is_none() {
        o.sample = Some(json!({"sender": "hd", "inputs": kinds(&ins), "payments": recs.len()}));
    }
    // the order in which the caller lists the coins must not matter
    if r.chance(1, 3) {
        let mut req2 = req.clone();
        r.shuffle(&mut req2);
        let map2 = XprivSilentPaymentSender::new(xpriv).send_to(&req2, &codes).map_err(|e| Bad {
            sig: "hd-refuses".into(),
            msg: format!("HD sender refuses the same coins in another order: {e}"),
            detail: json!(null),
        })?;
        ensure!(in_order(&map2, &codes)? == keys, "order-dependent", "listing the coins in another order changes the outputs");
    }
    everyone_finds(r, o, &ins, &keys, &rvs, &recs)
}

fn hops(r: &mut Rng, o: &mut Obs) -> Result<(), Bad> {
    // first transaction pays the wallets from ordinary inputs, then each hop spends what was found
    let nr = r.range(2, 3);
    let rvs = receivers(r, nr);
    let ins = good_inputs(r, 4);
    let recs = recipients(r, &rvs);
    let mut codes = vec![];
    for (i, l) in &recs {
        codes.push(code(&rvs[*i], *l, Network::Signet)?);
    }
    let ps = create_silentpayment_partial_secret(&smallest(&ins), &pairs(&ins)).map_err(|e| Bad { sig: "sender-refuses".into(), msg: e.to_string(), detail: json!(null) })?;
    let map = create_silentpayment_scriptpubkeys(ps, &codes);
    let mut keys = in_order(&map, &codes)?;
    let mut cur_ins = ins;
    let mut cur_recs = recs;
    let nhops = r.range(1, 3);
    for hop in 0..nhops {
        let outs = outputs(r, &keys);
        let tx = gen::tx(r, &cur_ins, outs.iter().map(|x| x.0.clone()).collect());
        let prevs = gen::prevouts(&cur_ins);
        let mut purses: Vec<Vec<SpOut>> = vec![];
        for rv in &rvs {
            let f = scanner(rv).scan_tx(&tx, &prevs).map_err(|e| Bad { sig: "scan-error".into(), msg: e.to_string(), detail: json!(null) })?;
            purses.push(f);
        }
        for (ri, p) in purses.iter().enumerate() {
            let want = outs.iter().filter(|x| x.1.is_some_and(|i| cur_recs[i].0 == ri)).count();
            ensure!(p.len() == want, "paid-not-found", "hop {hop}: receiver {ri} was paid {want} outputs, found {}", p.len());
        }
        let Some(who) = (0..rvs.len()).find(|i| !purses[*i].is_empty()) else { return Ok(()) };
        let mut purse = purses.swap_remove(who);
        r.shuffle(&mut purse);
        let take = r.range(1, purse.len());
        purse.truncate(take);
        while r.chance(1, 4) {
            // somebody paid the same output script once more
            let mut again = r.pick(&purse).clone();
            again.outpoint = gen::outpoints(r, 1)[0];
            again.amount = bitcoin::Amount::from_sat(r.range(330, 1_000_000) as u64);
            let at = r.below(purse.len() + 1);
            purse.insert(at, again);
            o.count("reused_scripts");
        }
        // spend them
        cur_recs = recipients(r, &rvs);
        let mut codes = vec![];
        for (i, l) in &cur_recs {
            codes.push(code(&rvs[*i], *l, Network::Signet)?);
        }
        let map = match SpSender::new(rvs[who].spend).send_to(&purse, &codes) {
            Ok(m) => m,
            Err(e) => return bad("sp-refuses", format!("silent payment wallet cannot send: {e}")),
        };
        o.count("sp_sends");
        o.count("hops");
        if purse.iter().any(|p| p.label.is_some()) {
            o.count("spends_of_labelled_outputs");
        }
        keys = in_order(&map, &codes)?;
        cur_ins = purse
            .iter()
            .map(|s| {
                let mut gi = gen::input_of(r, gen::InKind::TrKey, s.outpoint, Some(model::add_sk(&rvs[who].spend, &s.tweak.secret_bytes())));
                // what is on chain decides, not what the model would make of the tweak
                gi.prevout = TxOut { value: s.amount, script_pubkey: s.script_pubkey.clone() };
                gi
            })
            .collect();
        o.distinct(&format!("sp|{}|{}|{:?}", take, cur_recs.len(), purse.iter().map(|p| p.label.is_some()).collect::<Vec<_>>()));
        if o.sample.is_none() {
            o.sample = Some(json!({"sender": "silent payment outputs", "spent": take, "payments": cur_recs.len(), "hops": nhops}));
        }
    }
    o.nontrivial = true;
    everyone_finds(r, o, &cur_ins, &keys, &rvs, &cur_recs)
}
