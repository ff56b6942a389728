//! C30: payments the second program makes.
use crate::cli::Cli;
use crate::scan::{network, world, Sim};
use crate::spend::{address, foreign, found};
use bitcoin::consensus::encode::deserialize_hex;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{schnorr::Signature, Message};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{absolute, OutPoint, ScriptBuf, TapSighashType, Transaction, XOnlyPublicKey};
use kit::{bad, ensure, model, run, Obs, Rng, Spec};
use kit::Bad;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

enum To {
    Spk(ScriptBuf),
    Own(Option<u32>),
    Other(usize, Option<u32>),
}

fn pay_once(r: &mut Rng, o: &mut Obs, s: &mut Sim) -> Result<String, Bad> {
    let cli = s.cli;
    let Some(coins) = s.unspent(&s.wals[0].clone()) else { return Ok("ambiguous".into()) };
    let total: u64 = coins.iter().map(|c| c.1).sum();
    let n = *r.pick(&[1, 1, 1, 2, 2, 3, 5]);
    let mut left = match r.below(10) {
        0 => total.saturating_sub(r.below(3000) as u64),
        1 => total + r.below(100_000) as u64,
        2 => coins.first().map(|_| r.pick(&coins).1).unwrap_or(5000).saturating_sub(r.range(100, 1500) as u64),
        _ => 1000 + (r.next() % (total.max(1) * 11 / 10)),
    }
    .max(1000);
    let rate = *r.pick(&[1u64, 1, 2, 3, 10, 25]);
    let mut args: Vec<String> = vec!["new-tx".into()];
    let mut tos: Vec<(To, u64)> = vec![];
    let mut refuse: Option<&str> = None;
    let mut kinds = String::new();
    let mut same: Option<(usize, Option<u32>)> = None;
    for k in 0..n {
        let value = if k + 1 == n { left } else { (left / (n - k) as u64).max(400) };
        left = left.saturating_sub(value).max(400);
        match r.below(9) {
            0 | 1 => {
                // the code for change is never shown
                let l = Some(*r.pick(&s.reg)).filter(|m| *m != 0 && r.chance(1, 2));
                args.extend(["--to-sp".into(), format!("{}:{value}", cli.code_of(&s.w, l))]);
                tos.push((To::Own(l), value));
                kinds.push('o');
            }
            2..=5 => {
                // one recipient may be paid several times, to different codes or to one
                let (i, l) = match same {
                    Some(x) if r.chance(1, 2) => x,
                    _ => {
                        let i = r.below(s.w.others.len());
                        (i, s.w.others[i].any_label(r))
                    }
                };
                same = Some((i, l));
                let x = &s.w.others[i];
                args.extend(["--to-sp".into(), format!("{}:{value}", model::encode_code(cli.hrp(), 0, &x.scan_pk(), &x.b_m(l)))]);
                tos.push((To::Other(i, l), value));
                kinds.push('c');
            }
            6 if r.chance(1, 3) => {
                refuse = Some("wrong-network");
                if r.chance(1, 2) {
                    let (a, _, _) = address(r, foreign(cli.net));
                    args.extend(["--to".into(), format!("{a}:{value}")]);
                } else {
                    let hrp = *r.pick(&["sp", "tsp", "sprt"].into_iter().filter(|h| *h != cli.hrp()).collect::<Vec<_>>());
                    args.extend(["--to-sp".into(), format!("{}:{value}", model::encode_code(hrp, 0, &s.w.others[0].scan_pk(), &s.w.others[0].b_m(None)))]);
                }
                kinds.push('x');
            }
            _ => {
                let (a, spk, _) = address(r, cli.net);
                args.extend(["--to".into(), format!("{a}:{value}")]);
                tos.push((To::Spk(spk), value));
                kinds.push('a');
            }
        }
    }
    let data = r.chance(1, 5).then(|| (0..*r.pick(&[1, 20, 60, 80, 200, 600])).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>());
    if let Some(d) = &data {
        args.extend(["--data".into(), d.clone()]);
        kinds.push('d');
    }
    args.extend(["--fee-rate".into(), rate.to_string(), "--".into()]);
    if refuse.is_none() && r.chance(1, 25) {
        refuse = Some("foreign-key");
        args.push(Cli::new_two(r, cli.net).tr_d.clone());
    } else {
        args.push(cli.tr_d.clone());
    }
    let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let out = cli.run(&args);
    let value: u64 = tos.iter().map(|t| t.1).sum();
    o.note(format!("new-tx {value} of {total} in {} coins to {kinds} at {rate}: ok {}", coins.len(), out.ok));
    let hex = out.text("tx");
    if let Some(why) = refuse {
        ensure!(!out.ok && hex.is_none(), why, "a payment to {kinds} on {} with {why} is made", cli.net);
        o.count(&format!("refused_{why}"));
        return Ok(format!("{kinds}!"));
    }
    let dear = rate * (coins.len() as u64 * 58 + 43 * (n as u64 + 1) + 100 + data.as_ref().map_or(0, |d| d.len() as u64));
    if !out.ok {
        ensure!(value + dear + 500 > total, "cannot-pay", "{value} of {total} sat in {} coins to {kinds} at {rate} sat/vB cannot be paid: {}", coins.len(), out.why());
        ensure!(hex.is_none(), "refused-yet-made", "a refused payment still prints a transaction");
        o.count("insufficient_refused");
        return Ok(format!("{kinds}?"));
    }
    let Some(tx) = hex.as_ref().and_then(|h| deserialize_hex::<Transaction>(h).ok()) else { return bad("tx-format", format!("new-tx prints {:?}", out.out)) };
    o.count("built");
    let have: BTreeMap<OutPoint, u64> = coins.iter().map(|c| (c.0, c.1)).collect();
    let ins: BTreeSet<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
    ensure!(ins.len() == tx.input.len() && !ins.is_empty(), "inputs", "inputs repeat or are missing: {:?}", tx.input);
    let mut sum = 0;
    let mut prevouts = vec![];
    for (i, x) in tx.input.iter().enumerate() {
        let Some(v) = have.get(&x.previous_output) else {
            return bad("spends-unavailable", format!("input {i} {} is not an unspent coin of the wallet", x.previous_output));
        };
        sum += v;
        prevouts.push(s.w.coins[&x.previous_output].txout.clone());
        ensure!(!x.sequence.is_relative_lock_time(), "sequence", "input {i} is time locked: {}", x.sequence);
        ensure!(x.sequence.is_rbf(), "sequence", "input {i} does not signal that the transaction can be replaced: {}", x.sequence);
    }
    o.add("inputs", ins.len() as u64);
    let height = s.wals[0].chain.len() as u32 - 1;
    ensure!(
        !tx.is_lock_time_enabled() || tx.lock_time.is_satisfied_by(absolute::Height::from_consensus(height).unwrap(), absolute::Time::MIN),
        "lock-time",
        "the transaction is locked until {}, the tip is at {height}",
        tx.lock_time
    );
    // outputs
    let mine = found(&s.w.rv, &tx, &prevouts, &s.reg);
    let theirs: Vec<_> = s.w.others.iter().map(|x| found(x, &tx, &prevouts, &x.labels)).collect();
    let mut left: BTreeSet<u32> = (0..tx.output.len() as u32).collect();
    for (t, value) in &tos {
        let at = |v: u32| left.contains(&v) && tx.output[v as usize].value.to_sat() == *value;
        let v = match t {
            To::Spk(k) => left.iter().copied().find(|v| at(*v) && tx.output[*v as usize].script_pubkey == *k),
            To::Own(l) => mine.iter().find(|m| m.1 == *l && at(m.0)).map(|m| m.0),
            To::Other(i, l) => theirs[*i].iter().find(|m| m.1 == *l && at(m.0)).map(|m| m.0),
        };
        let Some(v) = v else {
            let who = match t {
                To::Spk(k) => format!("the script {k:x}"),
                To::Own(l) => format!("the wallet itself, label {l:?}, which finds {mine:?}"),
                To::Other(i, l) => format!("the code of recipient {i}, label {l:?}, who finds {:?}", theirs[*i]),
            };
            return bad("recipient", format!("no output pays {value} to {who} (all: {kinds})"));
        };
        left.remove(&v);
    }
    if let Some(d) = &data {
        let v = left.iter().copied().find(|v| {
            let x = &tx.output[*v as usize];
            let pushed: Vec<Vec<u8>> = x.script_pubkey.instructions().skip(1).map(|i| i.ok().and_then(|i| i.push_bytes().map(|b| b.as_bytes().to_vec())).unwrap_or_default()).collect();
            x.script_pubkey.is_op_return() && x.value.to_sat() == 0 && pushed == [d.as_bytes()]
        });
        let Some(v) = v else { return bad("data", format!("the data {d} are not in the transaction")) };
        left.remove(&v);
        o.count("with_data");
    }
    ensure!(left.len() <= 1, "outputs", "{} outputs are left over", left.len());
    let change = left.first().copied();
    if let Some(v) = change {
        let m = mine.iter().find(|m| m.0 == v);
        ensure!(m.is_some_and(|m| m.1 == Some(0)), "change-lost", "output {v} of {} is not change of the wallet: {mine:?}", tx.output[v as usize].value);
        ensure!(tx.output[v as usize].value.to_sat() >= 300, "change-dust", "the change is {}", tx.output[v as usize].value);
        o.count("with_change");
    } else {
        o.count("without_change");
    }
    // signatures
    let mut cache = SighashCache::new(&tx);
    for i in 0..tx.input.len() {
        let w = &tx.input[i].witness;
        ensure!(w.len() == 1 && (w[0].len() == 64 || w[0].len() == 65) && tx.input[i].script_sig.is_empty(), "unsigned", "input {i} of {} is not signed", tx.input.len());
        let (sig, ty) = w[0].split_at(64);
        let ty = if ty.is_empty() { TapSighashType::Default } else { TapSighashType::from_consensus_u8(ty[0]).unwrap_or(TapSighashType::None) };
        ensure!(matches!(ty, TapSighashType::Default | TapSighashType::All), "sighash-type", "input {i} is signed with {ty}");
        let sh = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(&prevouts), ty).unwrap();
        let key = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]).unwrap();
        let ok = Signature::from_slice(sig).is_ok_and(|g| model::secp().verify_schnorr(&g, &Message::from_digest(sh.to_byte_array()), &key).is_ok());
        ensure!(ok, "bad-signature", "the signature of input {i} of {} is not valid", tx.input.len());
    }
    o.count("signed");
    let outs: u64 = tx.output.iter().map(|x| x.value.to_sat()).sum();
    ensure!(outs <= sum, "fee", "inputs are {sum}, outputs {outs}");
    let (fee, vsize) = (sum - outs, tx.vsize() as u64);
    ensure!(fee + 1 >= rate * vsize, "fee-low", "the fee is {fee} for {vsize} vB at {rate} sat/vB");
    let cap = rate * (vsize + vsize / 10 + 20) + if change.is_some() { 0 } else { 1000 + rate * 120 };
    ensure!(fee <= cap, "fee-high", "the fee is {fee} for {vsize} vB at {rate} sat/vB, change {}", change.is_some());
    if tos.iter().any(|t| matches!(t.0, To::Spk(_))) && tos.iter().any(|t| !matches!(t.0, To::Spk(_))) {
        o.count("mixed");
    }
    if kinds.matches('c').count() > 1 {
        o.count("several_codes");
    }
    for k in kinds.chars() {
        o.count(&format!("to_{k}"));
    }
    if r.chance(2, 3) {
        let i = s.w.adopt(tx);
        s.sync_world();
        let mut chain = s.chain();
        s.mine(r, &mut chain, &[i], &BTreeSet::new(), 1);
        s.node.st().chain = chain;
        s.scan(o, BTreeMap::new())?;
        s.check_balance(o)?;
        o.count("mined");
    }
    Ok(kinds)
}

pub fn c30() -> i32 {
    run(
        Spec {
            prop: "C30",
            rule: "one wallet of the second program that received coins pays codes (labelled, own, one recipient several times) and addresses in one transaction, with data and at several fee rates; every transaction printed is checked against the model, every signature verified, most are mined; distinct by sequence of payments",
            quick: 700,
            thorough: 15000,
            require: &[
                ("built", 1200), ("signed", 1200), ("with_change", 1000), ("without_change", 10), ("mined", 700), ("insufficient_refused", 150), ("refused_wrong-network", 60), ("refused_foreign-key", 40),
                ("mixed", 200), ("several_codes", 200), ("with_data", 150), ("to_o", 400), ("to_c", 800), ("to_a", 300), ("inputs", 2000),
            ],
            assumptions: &["the sender's wallet is up to date with the best chain", "bdk_tx, which cannot be fetched, is replaced by a stand-in with the same interface, which selects coins with bdk_coin_select"],
            threads: 0,
        },
        |r, o, _| {
            let net = network(r);
            let cli = Cli::create(r, net)?;
            let mut w = world(r, &cli)?;
            w.reuse = (0, 1);
            w.cap = *r.pick(&[10_000, 1_000_000, 1_000_000_000]);
            w.pay(r);
            let n = r.range(1, 9);
            w.grow(r, n);
            cli.setup(r, &w)?;
            let mut s = Sim::new(r, &cli, w);
            for m in s.w.rv.labels.clone() {
                if m != 0 {
                    s.register(o, m)?;
                }
            }
            let mut chain = s.chain();
            while chain.len() < cli.birthday {
                s.mine(r, &mut chain, &[], &BTreeSet::new(), 0);
            }
            for _ in 0..r.range(1, 4) {
                let max = r.below(8);
                s.mine(r, &mut chain, &[], &BTreeSet::new(), max);
            }
            s.node.st().chain = chain;
            s.scan(o, BTreeMap::new())?;
            if r.chance(1, 5) {
                // some coins are pending again
                let c = s.chain();
                if let Some(f) = s.fork(r, &c) {
                    s.node.st().chain = f;
                    s.scan(o, BTreeMap::new())?;
                }
            }
            s.check_balance(o)?;
            let mut pattern = String::new();
            for _ in 0..r.range(2, 6) {
                pattern.push_str(&pay_once(r, o, &mut s)?);
                pattern.push(' ');
            }
            o.distinct(&pattern);
            o.nontrivial = true;
            if r.chance(1, 100) {
                o.sample = Some(json!({"payments": pattern.trim(), "coins": s.wals[0].coins.len(), "network": net.to_string()}));
            }
            Ok(())
        },
    )
}
