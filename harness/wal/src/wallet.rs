//! C28: the wallet library, in the same process.
use crate::cli::Cli;
use crate::scan::{network, world, Sim, Wal};
use bdk_chain::bitcoin::constants::genesis_block;
use bdk_chain::local_chain::CheckPoint;
use bdk_chain::{BlockId, Merge};
use bdk_sp_wallet::signers::{get_spend_sk, populate_sp_keymap};
use bdk_sp_wallet::{ChangeSet, SpWallet, SpWalletError};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::PublicKey;
use bitcoin::{BlockHash, NetworkKind, OutPoint, ScriptBuf, Txid};
use kit::{bad, ensure, model, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// As the file store keeps it.
fn stored(c: &ChangeSet) -> ChangeSet {
    bincode::deserialize(&bincode::serialize(c).expect("serialize")).expect("deserialize")
}

/// The pieces taken, put together again.
fn restore(r: &mut Rng, pieces: &[ChangeSet], merged: bool) -> Result<SpWallet, Bad> {
    let mut it = pieces.iter().map(stored);
    let mut all = if merged { ChangeSet::default() } else { it.next().expect("never empty") };
    // pieces may be put together before they are added
    let mut rest: Vec<ChangeSet> = it.collect();
    if rest.len() > 2 && r.chance(1, 3) {
        let n = r.range(0, rest.len() - 2);
        let b = rest.remove(n + 1);
        rest[n].merge(b);
    }
    for p in rest {
        all.merge(p);
    }
    match SpWallet::try_from(all) {
        Ok(w) => Ok(w),
        Err(()) => bad("restore-fails", format!("the wallet cannot be restored from {} change sets", pieces.len())),
    }
}

fn refused(o: &mut Obs, pieces: &[ChangeSet]) -> Result<(), Bad> {
    ensure!(SpWallet::try_from(ChangeSet::default()).is_err(), "restored-from-nothing", "a wallet is made of an empty change set");
    // without the first piece there are neither keys nor a network
    let mut it = pieces.iter().skip(1).map(stored);
    if let Some(mut c) = it.next() {
        it.for_each(|x| c.merge(x));
        ensure!(SpWallet::try_from(c).is_err(), "restored-without-keys", "a wallet is made of change sets without its keys");
        o.count("refused");
    }
    Ok(())
}

fn check(o: &mut Obs, s: &Sim, v: &Wal, w: &mut SpWallet, birthday: BlockId, when: &str) -> Result<(), Bad> {
    ensure!(w.birthday == birthday && w.network() == s.cli.net, "birthday", "{when}: birthday {:?} and network {} became {:?} and {}", birthday, s.cli.net, w.birthday, w.network());
    let tip = w.chain().tip();
    ensure!(tip.hash() == *v.chain.last().unwrap() && tip.height() as usize == v.chain.len() - 1, "tip", "{when}: the tip is {} at {}, should be at {}", tip.hash(), tip.height(), v.chain.len() - 1);
    for cp in tip.iter() {
        ensure!(v.chain[cp.height() as usize] == cp.hash(), "chain", "{when}: block {} of the wallet's chain is of another chain", cp.height());
    }
    // codes
    let code = |m: Option<u32>, got: String| -> Result<(), Bad> {
        let want = s.cli.code_of(&s.w, m);
        ensure!(got == want, "code", "{when}: the code with label {m:?} is {got}, the keys make {want}");
        Ok(())
    };
    code(None, w.get_address().to_string())?;
    code(Some(0), w.get_change_address().to_string())?;
    for m in &s.reg {
        // known without being handed out again
        ensure!(w.indexer().index().get_label(*m).is_some(), "label-lost", "{when}: the wallet has forgotten label {m}");
        if *m != 0 {
            code(Some(*m), w.get_labelled_address(*m).expect("not reserved").to_string())?;
        }
    }
    ensure!(matches!(w.get_labelled_address(0), Err(SpWalletError::ReservedLabel)), "change-label", "{when}: the code for change is given out");
    let index = w.indexer().index();
    // keys for whatever the wallet was paid
    let keymap = populate_sp_keymap(&get_spend_sk(&s.cli.tr_d, s.cli.net), index, s.cli.net);
    let mut scripts = BTreeSet::new();
    for op in v.coins.keys() {
        let c = &s.w.coins[op];
        scripts.insert(c.txout.script_pubkey.clone());
        let x = bitcoin::XOnlyPublicKey::from_slice(&c.txout.script_pubkey.as_bytes()[2..]).unwrap();
        let Some(k) = keymap.get(&x) else { return bad("no-key", format!("{when}: there is no key for the coin {op}")) };
        ensure!(k.inner.x_only_public_key(model::secp()).0 == x && k.network == NetworkKind::from(s.cli.net), "wrong-key", "{when}: the key for {op} makes another output");
    }
    ensure!(keymap.len() == scripts.len(), "foreign-key", "{when}: {} keys for {} scripts", keymap.len(), scripts.len());
    for k in &scripts {
        ensure!(index.get_by_script(k).is_some(), "no-key", "{when}: no tweak for the script {k:x}");
    }
    let Some((conf, stale)) = s.canonical(v) else {
        o.count("ambiguous");
        return Ok(());
    };
    let coins = s.unspent(v).unwrap();
    // transactions
    let want: BTreeMap<Txid, Option<u32>> = conf
        .iter()
        .map(|i| (s.w.txs[*i].txid, v.chain.iter().position(|b| s.content[b].contains(i)).map(|h| h as u32)))
        .chain(stale.iter().map(|i| (s.w.txs[*i].txid, None)))
        .collect();
    let got: Vec<(Txid, Option<u32>)> = w.canonical_txs().map(|(t, st)| (t.compute_txid(), st.map(|x| x.height.to_consensus_u32()))).collect();
    let n = got.len();
    let got: BTreeMap<_, _> = got.into_iter().collect();
    ensure!(n == got.len() && got == want, "transactions", "{when}: the wallet's transactions are {got:?}, should be {want:?}");
    o.add("transactions", n as u64);
    // balance
    let b = w.balance();
    let m = s.balance_of(v).unwrap();
    ensure!(
        (b.confirmed.to_sat(), b.trusted_pending.to_sat(), b.untrusted_pending.to_sat(), b.immature.to_sat()) == (m.confirmed, m.trusted, m.untrusted, 0),
        "balance",
        "{when}: the balance is {b:?}, should be {m:?}"
    );
    // what can be spent is what the balance counts
    let mut spks: Vec<[u8; 34]> = w.unspent_spks();
    spks.sort();
    spks.dedup();
    let mut want: Vec<[u8; 34]> = coins.iter().map(|c| s.w.coins[&c.0].txout.script_pubkey.to_bytes().try_into().unwrap()).collect();
    want.sort();
    want.dedup();
    ensure!(spks == want, "unspent-scripts", "{when}: {} scripts are said to hold coins, {} do", spks.len(), want.len());
    let cands = w.all_candidates();
    let mut got: Vec<OutPoint> = cands.inputs().map(|i| i.outpoint).collect();
    got.sort();
    let want: Vec<OutPoint> = coins.iter().map(|c| c.0).collect::<BTreeSet<_>>().into_iter().collect();
    ensure!(got == want, "candidates", "{when}: the coins to choose from are {got:?}, should be {want:?}");
    for i in cands.inputs() {
        let c = &s.w.coins[&i.outpoint];
        ensure!(i.txout == c.txout, "candidates", "{when}: {} is offered as {:?}", i.outpoint, i.txout);
        let x: ScriptBuf = i.plan.witness_version().map(|_| c.txout.script_pubkey.clone()).unwrap_or_default();
        ensure!(x == c.txout.script_pubkey, "plan", "{when}: no plan to spend {}", i.outpoint);
        let h = conf.contains(&s.by_id[&i.outpoint.txid]).then(|| v.chain.iter().position(|b| s.content[b].contains(&s.by_id[&i.outpoint.txid])).unwrap() as u32);
        ensure!(i.status.map(|x| x.height.to_consensus_u32()) == h, "candidates", "{when}: {} was confirmed at {h:?}, offered as {:?}", i.outpoint, i.status);
    }
    let mut by: BTreeMap<&ScriptBuf, usize> = BTreeMap::new();
    for op in v.coins.keys() {
        *by.entry(&s.w.coins[op].txout.script_pubkey).or_default() += 1;
    }
    if by.values().any(|n| *n > 1) {
        o.count("checks_with_script_paid_twice");
    }
    o.count("checks");
    o.add("coins", coins.len() as u64);
    if !stale.is_empty() {
        o.count("checks_with_pending");
    }
    Ok(())
}

fn tweaks(r: &mut Rng, s: &Sim, hash: &BlockHash) -> HashMap<Txid, PublicKey> {
    let mut m = HashMap::new();
    let thin = r.chance(1, 3);
    for i in &s.content[hash] {
        let t = &s.w.txs[*i];
        if let Some(k) = &t.tweak {
            // a server may leave out what cannot pay anyone
            let own = !s.w.expected(t, Some(k), &s.reg).is_empty();
            if own || !thin {
                m.insert(t.txid, *k);
            }
        }
    }
    m
}

fn checkpoint(v: &Wal) -> CheckPoint {
    CheckPoint::from_block_ids(v.chain.iter().enumerate().map(|(h, b)| BlockId { height: h as u32, hash: *b })).expect("blocks in order")
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), Bad> {
    let net = network(r);
    let cli = Cli::new_two(r, net);
    let birthday = BlockId { height: if r.chance(1, 4) { 0 } else { r.edgy_u32() & 0xff_ffff }, hash: BlockHash::from_byte_array(r.bytes()) };
    let genesis = genesis_block(net).block_hash();
    let Ok(mut w) = SpWallet::new(birthday, genesis, &cli.tr_d, net) else { return bad("new", "the wallet cannot be made") };
    if r.chance(1, 8) {
        let d = cli.tr_d.clone();
        let public = {
            let m: bitcoin::bip32::Xpriv = d.trim_end_matches(')').rsplit(']').next().unwrap().parse().unwrap();
            format!("tr({})", bitcoin::bip32::Xpub::from_priv(model::secp(), &m))
        };
        ensure!(matches!(SpWallet::new(birthday, genesis, &public, net), Err(SpWalletError::PrivateDataNotAvailable)), "public-accepted", "a wallet is made without private keys");
        ensure!(matches!(SpWallet::new(birthday, genesis, &d.replacen("tr(", "wpkh(", 1), net), Err(SpWalletError::NonTaprootDescriptor)), "wpkh-accepted", "a wallet is made of another kind of descriptor");
        o.count("descriptors_refused");
    }
    let mut wd = world(r, &cli)?;
    wd.reuse = if r.chance(1, 3) { (1, 3) } else { (0, 1) };
    if r.chance(1, 6) {
        wd.dust = (2, 3);
    }
    wd.pay(r);
    let n = r.range(3, 14);
    wd.grow(r, n);
    let mut s = Sim::new(r, &cli, wd);
    let mut v = s.wals[0].clone();
    let mut pieces: Vec<ChangeSet> = vec![];
    let mut later: Vec<u32> = s.w.rv.labels.iter().copied().filter(|m| *m != 0).collect();
    r.shuffle(&mut later);
    let mut pattern = String::new();
    let mut fresh = true;
    // blocks on the wallet's chain and on no other so far
    let full = r.chance(1, 2);
    let take = |w: &mut SpWallet, pieces: &mut Vec<ChangeSet>, o: &mut Obs| {
        if let Some(c) = w.take_staged() {
            pieces.push(c);
            o.count("pieces");
        }
        if w.staged().is_some() {
            return bad("staged", "changes are still staged after they were taken");
        }
        Ok(())
    };
    check(o, &s, &v, &mut w, birthday, "new")?;
    let early = if r.chance(1, 2) { later.len() } else { r.below(later.len() + 1) };
    let steps = early + r.range(4, 14);
    for step in 0..steps {
        let name = match if step < early { 5 } else if step == early { 0 } else { r.below(12) } {
            0..=2 => {
                let mut chain = s.chain();
                for _ in 0..r.range(1, 4) {
                    let max = r.below(5);
                    s.mine(r, &mut chain, &[], &BTreeSet::new(), max);
                }
                s.node.st().chain = chain;
                "mine"
            }
            3 | 4 => {
                let c = s.chain();
                let Some(f) = s.fork(r, &c) else { continue };
                s.node.st().chain = f;
                o.count("reorgs");
                "reorg"
            }
            5 => {
                let Some(m) = later.pop() else { continue };
                s.reg.push(m);
                let got = w.get_labelled_address(m).map(|c| c.to_string()).unwrap_or_default();
                let want = s.cli.code_of(&s.w, Some(m));
                ensure!(got == want, "code", "the code with label {m} is {got}, the keys make {want}");
                o.count("labels");
                "label"
            }
            6 => {
                take(&mut w, &mut pieces, o)?;
                "take"
            }
            7 => {
                take(&mut w, &mut pieces, o)?;
                let merged = r.chance(1, 3);
                let mut again = restore(r, &pieces, merged)?;
                check(o, &s, &v, &mut again, birthday, "restored")?;
                if fresh && r.chance(1, 5) {
                    refused(o, &pieces)?;
                }
                o.count("restored");
                if r.chance(1, 2) {
                    // go on with the restored one, which hands out everything again
                    w = again;
                    fresh = false;
                    if r.chance(1, 2) {
                        pieces.clear();
                        take(&mut w, &mut pieces, o)?;
                    }
                    "restore"
                } else {
                    "look"
                }
            }
            _ => {
                // the wallet catches up with part of the best chain
                let target = s.chain();
                let common = v.chain.iter().zip(&target).take_while(|(a, b)| a == b).count();
                if common == target.len() {
                    continue;
                }
                let forked = common < v.chain.len();
                let all = forked && !full;
                let upto = if all || r.chance(2, 3) { target.len() } else { r.range(common + 1, target.len()) };
                if all {
                    // what is left of the other chain is told apart by a complete one only
                    let mut t = v.clone();
                    s.connect(&mut t, target[upto - 1]);
                    w.update_chain(checkpoint(&t));
                }
                for (k, h) in target[common..upto].iter().enumerate() {
                    let height = (common + k) as u32;
                    let partial = tweaks(r, &s, h);
                    let relevant = !s.content[h].is_empty();
                    let skip = !relevant && !full && !forked && r.chance(1, 2) && k + 1 + common < upto;
                    s.connect(&mut v, *h);
                    if skip {
                        o.count("blocks_left_out");
                        continue;
                    }
                    let cp = if full { checkpoint(&v) } else { w.chain().tip().insert(BlockId { height, hash: *h }) };
                    let block = s.node.st().blocks[h].0.clone();
                    let late = !all && r.chance(1, 3);
                    if !late && !all {
                        w.update_chain(cp.clone());
                    }
                    w.apply_block_relevant(&block, partial.clone(), height);
                    if late {
                        w.update_chain(cp);
                    }
                    if r.chance(1, 8) {
                        // the same block again changes nothing
                        w.apply_block_relevant(&block, partial, height);
                        o.count("blocks_again");
                    }
                    o.count("blocks");
                }
                if r.chance(1, 6) {
                    take(&mut w, &mut pieces, o)?;
                }
                check(o, &s, &v, &mut w, birthday, "synced")?;
                if forked {
                    "resync"
                } else {
                    "sync"
                }
            }
        };
        o.note(format!("{step}: {name}, node at {}, wallet at {}", s.chain().len() - 1, v.chain.len() - 1));
        pattern.push_str(name);
        pattern.push('.');
    }
    take(&mut w, &mut pieces, o)?;
    let mut again = restore(r, &pieces, false)?;
    check(o, &s, &v, &mut w, birthday, "at the end")?;
    check(o, &s, &v, &mut again, birthday, "restored at the end")?;
    o.distinct(&pattern);
    o.nontrivial = !v.coins.is_empty();
    if o.nontrivial && r.chance(1, 200) {
        o.sample = Some(json!({"events": pattern, "coins": v.coins.len(), "height": v.chain.len() - 1, "network": net.to_string()}));
    }
    Ok(())
}

pub fn c28() -> i32 {
    run(
        Spec {
            prop: "C28",
            rule: "history of one wallet of the library: labels, blocks with and without payments applied in either order with the chain, reorganisations, change sets taken, stored, put together and restored; after each step codes, balance, transactions, scripts, candidates and keys are the model's; distinct by sequence of events",
            quick: 2800,
            thorough: 80000,
            require: &[
                ("checks", 10000), ("restored", 1500), ("pieces", 4000), ("reorgs", 3000), ("labels", 700), ("blocks", 15000), ("checks_with_pending", 500), ("checks_with_script_paid_twice", 250),
                ("refused", 60), ("descriptors_refused", 200), ("blocks_left_out", 200), ("blocks_again", 800),
            ],
            assumptions: &["labels are registered before payments to them are looked for", "bdk_tx, which cannot be fetched, is replaced by a stand-in with the same interface"],
            threads: 0,
        },
        |r, o, _| case(r, o),
    )
}
