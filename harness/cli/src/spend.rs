//! C27: transactions the wallet builds and signs.
use crate::cli::Cli;
use crate::scan::{network, world, Sim};
use bitcoin::bip32::{DerivationPath, Xpriv};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{Message, SecretKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{
    absolute, transaction, Address, Amount, Network, NetworkKind, OutPoint, Psbt, PubkeyHash, ScriptBuf, ScriptHash, Sequence, TapSighashType, Transaction, TxIn,
    TxOut, WPubkeyHash, Witness, WitnessProgram, WitnessVersion, XOnlyPublicKey,
};
use kit::gen::{self, Receiver};
use kit::model;
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

const ALGOS: &[&str] = &["largest-first", "smallest-first", "oldest-first", "newest-first", "bnb"];

pub fn foreign(net: Network) -> Network {
    if net == Network::Bitcoin {
        Network::Testnet
    } else {
        Network::Bitcoin
    }
}

pub fn address(r: &mut Rng, net: Network) -> (String, ScriptBuf, &'static str) {
    let (spk, what) = match r.below(6) {
        0 => (ScriptBuf::new_p2pkh(&PubkeyHash::from_byte_array(r.bytes())), "p2pkh"),
        1 => (ScriptBuf::new_p2sh(&ScriptHash::from_byte_array(r.bytes())), "p2sh"),
        2 => (ScriptBuf::new_p2wpkh(&WPubkeyHash::from_byte_array(r.bytes())), "p2wpkh"),
        3 => (ScriptBuf::new_witness_program(&WitnessProgram::new(WitnessVersion::V0, &r.bytes::<32>()).unwrap()), "p2wsh"),
        4 => (ScriptBuf::new_witness_program(&WitnessProgram::new(WitnessVersion::V2, &r.bytes::<32>()).unwrap()), "future"),
        _ => (model::p2tr_spk(&model::xonly(&r.sk().public_key(model::secp()))), "p2tr"),
    };
    let a = Address::from_script(&spk, net).unwrap();
    (a.to_string(), spk, what)
}

/// Outputs of `tx` that a receiver finds, with the labels they were paid to.
pub fn found(rv: &Receiver, tx: &Transaction, prevouts: &[TxOut], labels: &[u32]) -> Vec<(u32, Option<u32>, [u8; 32])> {
    // as it will be once signed: all inputs are key path spends
    let mut tx = tx.clone();
    for i in &mut tx.input {
        i.witness = Witness::from_slice(&[vec![1u8; 64]]);
    }
    let tx = &tx;
    let Some(t) = model::tweak_data(tx, prevouts) else { return vec![] };
    let ecdh = model::mul_point(&t, &rv.scan.secret_bytes());
    let mut v = vec![];
    for k in 0.. {
        let m = model::matches_at(&ecdh, &rv.spend_pk(), &rv.scan, labels, tx, k);
        if m.is_empty() {
            break;
        }
        v.extend(m.into_iter().map(|m| (m.vout, m.label, m.tweak)));
    }
    v
}

/// Every input signed by the wallet is validly signed.
fn check_signatures(psbt: &Psbt, prevouts: &[TxOut], mine: &[bool]) -> Result<Transaction, Bad> {
    let mut tx = psbt.unsigned_tx.clone();
    let mut cache = SighashCache::new(&psbt.unsigned_tx);
    for (i, p) in psbt.inputs.iter().enumerate() {
        if !mine[i] {
            ensure!(p.tap_key_sig.is_none(), "signs-foreign", "input {i} is not the wallet's, yet it has a signature");
            continue;
        }
        let Some(sig) = &p.tap_key_sig else { return bad("unsigned", format!("input {i} of {} is not signed", mine.len())) };
        let sh = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(prevouts), TapSighashType::Default).unwrap();
        let key = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]).unwrap();
        let ok = model::secp().verify_schnorr(&sig.signature, &Message::from_digest(sh.to_byte_array()), &key).is_ok();
        ensure!(ok && sig.sighash_type == TapSighashType::Default, "bad-signature", "the signature of input {i} of {} is not valid", mine.len());
        tx.input[i].witness = Witness::from_slice(&[sig.serialize().to_vec()]);
    }
    Ok(tx)
}

/// One `new-psbt`, its signature, and perhaps its way to the chain.
fn pay_once(r: &mut Rng, o: &mut Obs, s: &mut Sim) -> Result<String, Bad> {
    let cli = s.cli;
    let Some(coins) = s.unspent(&s.wals[0].clone()) else { return Ok("ambiguous".into()) };
    let total: u64 = coins.iter().map(|c| c.1).sum();
    let value = match r.below(12) {
        0 => total.saturating_sub(r.below(3000) as u64),
        1 => total + r.below(100_000) as u64,
        2 => {
            // about one coin, so that there may be no change
            let v = coins.first().map(|_| r.pick(&coins).1).unwrap_or(5000);
            v.saturating_sub(r.range(100, 1500) as u64)
        }
        3 => {
            let v = if coins.len() > 1 { r.pick(&coins).1 + r.pick(&coins).1 } else { 5000 };
            v.saturating_sub(r.range(0, 3000) as u64)
        }
        _ => 1000 + (r.next() % (total.max(1) * 11 / 10)),
    }
    .max(1000);
    let algo = *r.pick(ALGOS);
    enum To {
        Spk(ScriptBuf),
        Own(Option<u32>),
        Other(usize, Option<u32>),
    }
    let vs = value.to_string();
    let mut args: Vec<String> = vec!["new-psbt".into(), vs];
    let (to, kind) = match r.below(8) {
        0 | 1 => {
            let l = if r.chance(1, 2) { None } else { Some(*r.pick(&s.reg)) };
            args.extend(["--code".into(), cli.code_of(&s.w, l)]);
            (To::Own(l), "own")
        }
        2..=4 => {
            let i = r.below(s.w.others.len());
            let l = s.w.others[i].any_label(r);
            let x = &s.w.others[i];
            args.extend(["--code".into(), model::encode_code(cli.hrp(), 0, &x.scan_pk(), &x.b_m(l))]);
            (To::Other(i, l), "code")
        }
        5 => {
            let (a, _, _) = address(r, foreign(cli.net));
            let mut args = args.clone();
            args.extend([a.clone(), "-c".into(), algo.into(), "--spend".into(), cli.spend_d.clone()]);
            let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
            let out = cli.run(&args);
            ensure!(!out.ok, "wrong-network", "the wallet on {} pays {a}", cli.net);
            o.count("wrong_network_refused");
            return Ok("wrong-network".into());
        }
        _ => {
            let (a, spk, what) = address(r, cli.net);
            args.push(a);
            (To::Spk(spk), what)
        }
    };
    args.extend(["-c".into(), algo.into(), "--spend".into(), cli.spend_d.clone()]);
    let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let out = cli.run(&args);
    let what = format!("{kind}/{algo}");
    o.note(format!("new-psbt {value} of {total} in {} coins to {what}: ok {}", coins.len(), out.ok));
    // one input 58 vB, and everything else below 300 vB
    let dear = coins.len() as u64 * 60 + 300;
    if !out.ok {
        ensure!(value + dear + 100 > total, "cannot-pay", "{value} of {total} sat in {} coins ({what}) cannot be paid: {}", coins.len(), out.why());
        ensure!(out.text("psbt").is_none(), "refused-yet-made", "a refused payment still prints a transaction");
        o.count("insufficient_refused");
        return Ok(format!("{kind}!"));
    }
    let (Some(p), Some(fee)) = (out.text("psbt"), out.field("fee").and_then(|v| v.as_u64())) else {
        return bad("psbt-format", format!("new-psbt prints {:?}", out.out));
    };
    let Ok(psbt) = Psbt::from_str(&p) else { return bad("psbt-format", format!("the transaction does not parse: {p}")) };
    o.count("built");
    o.count(&format!("built_{algo}"));
    let tx = &psbt.unsigned_tx;
    // inputs
    let have: BTreeMap<OutPoint, u64> = coins.iter().map(|c| (c.0, c.1)).collect();
    let ins: BTreeSet<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
    ensure!(ins.len() == tx.input.len() && !ins.is_empty(), "inputs", "inputs repeat or are missing: {:?}", tx.input);
    let mut sum = 0;
    let mut prevouts = vec![];
    for (i, x) in tx.input.iter().enumerate() {
        let Some(v) = have.get(&x.previous_output) else {
            return bad("spends-unavailable", format!("input {i} {} is not an unspent coin of the wallet", x.previous_output));
        };
        sum += v;
        let t = s.w.coins[&x.previous_output].txout.clone();
        ensure!(psbt.inputs[i].witness_utxo.as_ref() == Some(&t), "witness-utxo", "input {i} describes another output: {:?}", psbt.inputs[i].witness_utxo);
        prevouts.push(t);
        ensure!(!x.sequence.is_relative_lock_time(), "sequence", "input {i} is time locked: {}", x.sequence);
        ensure!(x.sequence.is_rbf(), "sequence", "input {i} does not signal that the transaction can be replaced: {}", x.sequence);
    }
    o.add("inputs", ins.len() as u64);
    // the coins asked for are taken first
    if algo != "bnb" {
        let v = &s.wals[0];
        let heights: BTreeMap<usize, u64> =
            v.chain.iter().enumerate().flat_map(|(h, b)| s.content[b].iter().map(move |i| (*i, h as u64))).collect();
        // smaller ranks go first
        let rank = |c: &(OutPoint, u64, bool, Option<u32>)| -> i128 {
            let age = heights.get(&s.by_id[&c.0.txid]).copied().unwrap_or(u32::MAX as u64) as i128;
            match algo {
                "largest-first" => -(c.1 as i128),
                "smallest-first" => c.1 as i128,
                "oldest-first" => age,
                _ => -age,
            }
        };
        let last = coins.iter().filter(|c| ins.contains(&c.0)).map(rank).max().unwrap();
        if let Some(c) = coins.iter().find(|c| !ins.contains(&c.0) && rank(c) < last) {
            return bad("coin-choice", format!("with {algo}, {} of {} sat is left out although another taken comes after it", c.0, c.1));
        }
        o.count("choices_checked");
    }
    let height = s.wals[0].chain.len() as u32 - 1;
    ensure!(
        !tx.is_lock_time_enabled() || tx.lock_time.is_satisfied_by(absolute::Height::from_consensus(height).unwrap(), absolute::Time::MIN),
        "lock-time",
        "the transaction is locked until {}, the tip is at {height}",
        tx.lock_time
    );
    // outputs
    let outs: u64 = tx.output.iter().map(|x| x.value.to_sat()).sum();
    ensure!(outs + fee == sum, "fee", "inputs are {sum}, outputs {outs}, and the fee shown {fee}");
    let mine = found(&s.w.rv, tx, &prevouts, &s.reg);
    let mut left: BTreeSet<u32> = (0..tx.output.len() as u32).collect();
    match &to {
        To::Spk(k) => {
            let Some(v) = left.iter().find(|v| tx.output[**v as usize].script_pubkey == *k && tx.output[**v as usize].value.to_sat() == value).copied() else {
                return bad("recipient", format!("no output pays {value} to the address ({what})"));
            };
            left.remove(&v);
        }
        To::Own(l) => {
            let Some(v) = mine.iter().find(|m| m.1 == *l && tx.output[m.0 as usize].value.to_sat() == value).map(|m| m.0) else {
                return bad("recipient", format!("no output pays {value} to the wallet's own code with label {l:?}: {mine:?}"));
            };
            left.remove(&v);
        }
        To::Other(i, l) => {
            let x = &s.w.others[*i];
            let f = found(x, tx, &prevouts, &x.labels);
            let Some(v) = f.iter().find(|m| m.1 == *l && tx.output[m.0 as usize].value.to_sat() == value).map(|m| m.0) else {
                return bad("recipient", format!("the recipient does not find {value} sat paid to label {l:?}: {f:?}"));
            };
            left.remove(&v);
        }
    }
    ensure!(left.len() <= 1, "outputs", "there are {} outputs", tx.output.len());
    let change = left.first().copied();
    if let Some(v) = change {
        let m = mine.iter().find(|m| m.0 == v);
        ensure!(m.is_some_and(|m| m.1 == Some(0)), "change-lost", "output {v} of {} is not change of the wallet: {mine:?}", tx.output[v as usize].value);
        ensure!(tx.output[v as usize].value.to_sat() >= 300, "change-dust", "the change is {}", tx.output[v as usize].value);
        o.count("with_change");
    }
    o.count(&format!("to_{kind}"));
    // sign
    let signed = cli.must(&["sign-psbt", "--psbt", &p, "--spend", &cli.spend_d], "sign-psbt")?;
    let Some(sp) = signed.text("psbt").and_then(|x| Psbt::from_str(&x).ok()) else { return bad("psbt-format", format!("sign-psbt prints {:?}", signed.out)) };
    ensure!(sp.unsigned_tx == *tx, "sign-changes", "signing changes the transaction");
    let fin = check_signatures(&sp, &prevouts, &vec![true; prevouts.len()])?;
    let vsize = fin.vsize() as u64;
    ensure!(fee >= vsize, "fee-low", "the fee is {fee} for {vsize} vB, below 1 sat/vB ({what})");
    let cap = vsize + vsize / 10 + 20 + if change.is_some() { 0 } else { 1000 };
    ensure!(fee <= cap, "fee-high", "the fee is {fee} for {vsize} vB ({what}, change {})", change.is_some());
    o.count("signed");
    // join with an input of someone else: the wallet signs its own only
    if r.chance(1, 3) {
        let mut j = psbt.clone();
        let n = r.below(j.inputs.len() + 1);
        let mut own_by_transaction = false;
        let k = r.sk();
        let pk = k.public_key(model::secp());
        let hash = bitcoin::key::PublicKey::new(pk);
        let spk = match r.below(3) {
            0 => ScriptBuf::new_p2pkh(&hash.pubkey_hash()),
            1 => ScriptBuf::new_p2wpkh(&hash.wpubkey_hash().unwrap()),
            _ => model::p2tr_spk(&model::xonly(&pk)),
        };
        let t = TxOut { value: Amount::from_sat(r.range(1000, 100_000) as u64), script_pubkey: spk };
        // the transaction it spends from, or its output only
        let mut other = bitcoin::psbt::Input::default();
        let mut spent = OutPoint::new(bitcoin::Txid::from_byte_array(r.bytes()), r.below(4) as u32);
        if t.script_pubkey.is_p2pkh() || r.chance(1, 3) {
            let mut from = Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::ZERO, input: vec![], output: vec![] };
            from.input.push(TxIn { previous_output: spent, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() });
            let at = r.below(4);
            from.output = (0..at + 1 + r.below(3)).map(|i| if i == at { t.clone() } else { TxOut { value: Amount::from_sat(777), script_pubkey: prevouts[0].script_pubkey.clone() } }).collect();
            spent = OutPoint::new(from.compute_txid(), at as u32);
            other.non_witness_utxo = Some(from);
            o.count("joined_by_transaction");
        }
        if !t.script_pubkey.is_p2pkh() && (other.non_witness_utxo.is_none() || r.chance(1, 3)) {
            other.witness_utxo = Some(t.clone());
        }
        if r.chance(1, 3) {
            // signed by its owner already
            if t.script_pubkey.is_p2tr() {
                other.final_script_witness = Some(Witness::from_slice(&[r.vec(64)]));
            } else {
                other.final_script_witness = t.script_pubkey.is_p2wpkh().then(|| Witness::from_slice(&[r.vec(71), pk.serialize().to_vec()]));
                other.final_script_sig = t.script_pubkey.is_p2pkh().then(|| ScriptBuf::from_bytes(r.vec(107)));
            }
        }
        if r.chance(1, 3) {
            // the wallet's own coin by the transaction it is an output of
            let i = r.below(prevouts.len());
            let o = tx.input[i].previous_output;
            if let Some(t) = s.w.txs.iter().find(|t| t.txid == o.txid) {
                j.inputs[i].non_witness_utxo = Some((*t.tx).clone());
                j.inputs[i].witness_utxo = None;
                own_by_transaction = true;
            }
        }
        j.unsigned_tx.input.insert(n, TxIn { previous_output: spent, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() });
        other.unknown.insert(bitcoin::psbt::raw::Key { type_value: 0xf0, key: r.vec(2) }, r.vec(5));
        j.inputs.insert(n, other);
        let mut prev = prevouts.clone();
        prev.insert(n, t);
        let out = cli.must(&["sign-psbt", "--psbt", &j.to_string(), "--spend", &cli.spend_d], "sign-psbt")?;
        let Some(sp) = out.text("psbt").and_then(|x| Psbt::from_str(&x).ok()) else { return bad("psbt-format", format!("sign-psbt prints {:?}", out.out)) };
        let own: Vec<bool> = (0..prev.len()).map(|i| i != n).collect();
        ensure!(sp.unsigned_tx == j.unsigned_tx && sp.inputs[n] == j.inputs[n], "sign-changes", "signing changes the transaction or the input of another");
        check_signatures(&sp, &prev, &own)?;
        o.count("joined");
        if own_by_transaction {
            o.count("own_by_transaction");
        }
    }
    if r.chance(1, 2) {
        let i = s.w.adopt(fin);
        s.sync_world();
        let mut chain = s.chain();
        s.mine(r, &mut chain, &[i], &BTreeSet::new(), 1);
        s.node.st().chain = chain;
        s.scan(o, BTreeMap::new())?;
        s.check_balance(o)?;
        o.count("mined");
    }
    Ok(what)
}

/// `to-silent-payment`: an output of a transaction with inputs of an ordinary wallet becomes a
/// silent payment.
fn replace_once(r: &mut Rng, o: &mut Obs, cli: &Cli, rv: &Receiver) -> Result<String, Bad> {
    let secp = model::secp();
    let seed: [u8; 32] = r.bytes();
    let m = Xpriv::new_master(NetworkKind::from(cli.net), &seed).unwrap();
    let fp = m.fingerprint(secp);
    let n = if r.chance(1, 8) { r.range(6, 12) } else { r.range(1, 4) };
    let mut tx = Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::ZERO, input: vec![], output: vec![] };
    let mut inputs = vec![];
    let mut keys: Vec<SecretKey> = vec![];
    let mut sum = 0;
    // what keeps the wallet from deriving the output
    let mut spoiled: Option<&str> = None;
    let mut kinds = String::new();
    r.vout_mask = 0x1ff;
    let ops = gen::outpoints(r, n);
    for (i, op) in ops.iter().enumerate() {
        let mut op = *op;
        let path: DerivationPath = format!("m/{}h/1h/0h/{}/{}", [44, 49, 84, 86][r.below(4)], r.below(2), r.edgy_u32() & 0x7fff_ffff).parse().unwrap();
        let sk = m.derive_priv(secp, &path).unwrap().private_key;
        let pk = sk.public_key(secp);
        let bytes = pk.serialize();
        let value = Amount::from_sat(r.range(10_000, 10_000_000) as u64);
        sum += value.to_sat();
        let mut p = bitcoin::psbt::Input::default();
        let kind = r.below(4);
        let origin = (fp, path.clone());
        let wpkh = gen::wpkh_spk(&bytes);
        let spk = match kind {
            0 => wpkh.clone(),
            1 => gen::pkh_spk(&bytes),
            2 => gen::sh_spk(wpkh.as_bytes()),
            _ => {
                let out = model::taproot_output_secret(&sk, None);
                model::p2tr_spk(&model::xonly(&out.public_key(secp)))
            }
        };
        kinds.push(['w', 'p', 's', 't'][kind]);
        let txout = TxOut { value, script_pubkey: spk.clone() };
        match kind {
            2 => p.redeem_script = Some(wpkh),
            3 => {
                p.tap_internal_key = Some(pk.x_only_public_key().0);
                p.tap_key_origins.insert(pk.x_only_public_key().0, (vec![], origin.clone()));
            }
            _ => {}
        }
        if kind != 3 {
            p.bip32_derivation.insert(pk, origin);
        } else if r.chance(1, 3) {
            // described twice
            p.bip32_derivation.insert(pk, origin);
        }
        if kind == 1 || r.chance(1, 4) {
            // the whole previous transaction
            let at = r.below(4);
            let prev = Transaction {
                version: transaction::Version::TWO,
                lock_time: absolute::LockTime::from_consensus(r.u32()),
                input: vec![TxIn { previous_output: OutPoint::new(bitcoin::Txid::from_byte_array(r.bytes()), 1), script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() }],
                output: (0..4)
                    .map(|j| if j == at { txout.clone() } else { TxOut { value: Amount::from_sat(1 + r.below(1000) as u64), script_pubkey: gen::foreign_output(r) } })
                    .collect(),
            };
            op = OutPoint::new(prev.compute_txid(), at as u32);
            p.non_witness_utxo = Some(prev);
            if kind != 1 && r.chance(1, 2) {
                p.witness_utxo = Some(txout.clone());
            }
        } else {
            p.witness_utxo = Some(txout.clone());
        }
        let spoil = |r: &mut Rng, p: &mut bitcoin::psbt::Input| match r.below(5) {
            0 => {
                p.bip32_derivation.clear();
                p.tap_key_origins.clear();
                "no-keys"
            }
            1 => {
                let other = bitcoin::bip32::Fingerprint::from([fp[0] ^ 1, fp[1], fp[2], fp[3]]);
                for v in p.bip32_derivation.values_mut() {
                    v.0 = other;
                }
                for v in p.tap_key_origins.values_mut() {
                    v.1 .0 = other;
                }
                "foreign-keys"
            }
            2 if kind == 3 => {
                p.tap_merkle_root = Some(bitcoin::taproot::TapNodeHash::from_byte_array(r.bytes()));
                "script-tree"
            }
            3 => {
                // a script of several keys
                let wsh = gen::spk([&[0u8, 0x20][..], &r.bytes::<32>()].concat());
                p.redeem_script = None;
                p.non_witness_utxo = None;
                let s = match r.below(3) {
                    0 => wsh,
                    1 => {
                        // wrapped
                        p.redeem_script = Some(wsh.clone());
                        gen::sh_spk(wsh.as_bytes())
                    }
                    _ => {
                        // bare multisig in a script hash
                        let m = gen::spk([&[0x51u8, 0x21][..], &pk.serialize(), &[0x21], &r.sk().public_key(secp).serialize(), &[0x52, 0xae]].concat());
                        p.redeem_script = Some(m.clone());
                        gen::sh_spk(m.as_bytes())
                    }
                };
                p.witness_utxo = Some(TxOut { value, script_pubkey: s });
                "script-hash"
            }
            _ => {
                p.witness_utxo = None;
                p.non_witness_utxo = None;
                "no-utxo"
            }
        };
        if r.chance(1, 4 * n + 4) || (i + 1 == n && spoiled.is_none() && r.chance(1, 6)) {
            spoiled = Some(spoil(r, &mut p));
        }
        keys.push(if kind == 3 { model::even(model::taproot_output_secret(&sk, None)) } else { sk });
        tx.input.push(TxIn { previous_output: op, script_sig: ScriptBuf::new(), sequence: Sequence::ENABLE_RBF_NO_LOCKTIME, witness: Witness::new() });
        inputs.push(p);
    }
    let dummy = model::p2tr_spk(&model::xonly(&r.sk().public_key(secp)));
    let amount = r.range(330, (sum / 2) as usize) as u64;
    let mut outs = vec![TxOut { value: Amount::from_sat(amount), script_pubkey: dummy.clone() }];
    for _ in 0..r.below(3) {
        let v = r.range(1, (sum / 8) as usize) as u64;
        if v != amount {
            outs.push(TxOut {
                value: Amount::from_sat(v),
                // now and then the same script with another amount
                script_pubkey: if r.chance(1, 3) { dummy.clone() } else { gen::foreign_output(r) },
            });
        }
    }
    r.shuffle(&mut outs);
    let at = outs.iter().position(|x| x.value.to_sat() == amount).unwrap();
    let no_tr = spoiled.is_none() && r.chance(1, 12);
    if no_tr {
        outs[at].script_pubkey = gen::wpkh_spk(&[2; 33]);
        spoiled = Some("no-taproot-output");
    }
    tx.output = outs.clone();
    let mut psbt = Psbt::from_unsigned_tx(tx.clone()).unwrap();
    psbt.inputs = inputs;
    let label = rv.any_label(r);
    let code = model::encode_code(cli.hrp(), 0, &rv.scan_pk(), &rv.b_m(label));
    let desc = if r.chance(1, 2) { format!("wpkh([{fp}]{m}/84h/1h/0h/0/*)") } else { format!("tr([{fp}]{m}/86h/1h/0h/0/*)") };
    let res = cli.run(&["to-silent-payment", "--code", &code, "--amount", &amount.to_string(), "--psbt", &psbt.to_string(), "--descriptor", &desc]);
    o.note(format!("to-silent-payment of {n} inputs {kinds}, {spoiled:?}: ok {}", res.ok));
    let want = model::sender_keys(&keys, &model::smallest_outpoint(tx.input.iter().map(|i| i.previous_output)).unwrap(), &[(rv.scan_pk(), rv.b_m(label))]);
    if let Some(why) = spoiled {
        ensure!(!res.ok, "derived-anyway", "an output is derived although {why} ({kinds}): funds sent there are lost");
        o.count(&format!("refused_{why}"));
        return Ok(format!("tsp-{why}"));
    }
    let Some(want) = want else { return Ok("tsp-cancel".into()) };
    ensure!(res.ok, "replace-fails", "to-silent-payment with inputs {kinds} fails: {}", res.why());
    let Some(got) = res.text("psbt").and_then(|x| Psbt::from_str(&x).ok()) else { return bad("psbt-format", format!("to-silent-payment prints {:?}", res.out)) };
    let mut expect = tx;
    expect.output[at].script_pubkey = model::p2tr_spk(&want[0]);
    for (i, (g, e)) in got.unsigned_tx.output.iter().zip(&expect.output).enumerate() {
        ensure!(g == e, "replaced-output", "output {i} (replaced: {at}) is {g:?}, should be {e:?} (inputs {kinds})");
    }
    ensure!(got.unsigned_tx == expect && got.inputs == psbt.inputs, "replace-changes", "more than the output changes");
    let total: u64 = expect.output.iter().map(|x| x.value.to_sat()).sum();
    ensure!(res.field("fee").and_then(|v| v.as_u64()) == Some(sum - total), "fee", "the fee shown is {:?}, it is {}", res.field("fee"), sum - total);
    o.count("replaced");
    Ok(format!("tsp-{kinds}"))
}

pub fn c27() -> i32 {
    run(
        Spec {
            prop: "C27",
            rule: "one wallet that received coins builds, signs and mines payments (to codes, labelled and own ones, and addresses of all types; every coin selection), and replaces outputs of ordinary transactions; every transaction is checked against the model and every signature verified; distinct by sequence of payments",
            quick: 1500,
            thorough: 25000,
            require: &[
                ("built", 2500), ("signed", 2500), ("with_change", 1800), ("joined_by_transaction", 200), ("own_by_transaction", 100), ("joined", 600), ("mined", 1000), ("insufficient_refused", 200), ("wrong_network_refused", 250),
                ("choices_checked", 1500), ("to_own", 500), ("to_code", 800), ("built_bnb", 400), ("built_oldest-first", 400), ("replaced", 500), ("refused_no-keys", 15), ("refused_foreign-keys", 15), ("inputs", 4000),
                ("refused_script-hash", 10), ("refused_no-utxo", 10),
            ],
            assumptions: &["the sender's wallet is up to date with the best chain"],
            threads: 0,
        },
        |r, o, _| {
            let net = network(r);
            let cli = Cli::new(r, net);
            let mut w = world(r, &cli)?;
            w.reuse = (0, 1);
            w.cap = *r.pick(&[10_000, 1_000_000, 1_000_000_000]);
            w.pay(r);
            let n = r.range(1, 9);
            w.grow(r, n);
            cli.setup(r, &w)?;
            let mut s = Sim::new(r, &cli, w);
            for m in s.w.rv.labels.clone() {
                if m != 0 {
                    s.register(o, m)?;
                }
            }
            let mut chain = s.chain();
            for _ in 0..r.range(1, 4) {
                let max = r.below(8);
                s.mine(r, &mut chain, &[], &BTreeSet::new(), max);
            }
            s.node.st().chain = chain;
            s.scan(o, BTreeMap::new())?;
            if r.chance(1, 5) {
                // some coins are pending again
                let c = s.chain();
                if let Some(f) = s.fork(r, &c) {
                    s.node.st().chain = f;
                    s.scan(o, BTreeMap::new())?;
                }
            }
            s.check_balance(o)?;
            let mut pattern = String::new();
            for _ in 0..r.range(2, 6) {
                let what = if r.chance(1, 4) {
                    let i = r.below(3);
                    let rv = if i == 2 { s.w.rv.clone() } else { s.w.others[i].clone() };
                    replace_once(r, o, &cli, &rv)?
                } else {
                    pay_once(r, o, &mut s)?
                };
                pattern.push_str(&what);
                pattern.push(' ');
            }
            o.distinct(&pattern);
            o.nontrivial = true;
            if r.chance(1, 100) {
                o.sample = Some(json!({"payments": pattern.trim(), "coins": s.wals[0].coins.len(), "network": net.to_string()}));
            }
            Ok(())
        },
    )
}
