use crate::world::*;
use bdk_chain::{BlockId, ConfirmationBlockTime, Merge};
use bitcoin::block::{Header, Version};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::PublicKey;
use bitcoin::{Block, CompactTarget, Network, OutPoint, Transaction, TxMerkleNode, TxOut, Txid};
use indexer::v2::{ChangeSet, SpIndexerV2};
use kit::{bad, ensure, model, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub type A = ConfirmationBlockTime;
pub type Ix = SpIndexerV2<A>;

pub fn coinbase(r: &mut Rng) -> Transaction {
    Transaction {
        version: bitcoin::transaction::Version(2),
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input: vec![bitcoin::TxIn {
            previous_output: OutPoint::null(),
            script_sig: kit::gen::spk(r.vec(8)),
            sequence: bitcoin::Sequence::MAX,
            witness: Default::default(),
        }],
        output: vec![TxOut { value: bitcoin::Amount::from_sat(5_000_000_000), script_pubkey: kit::gen::foreign_output(r) }],
    }
}

pub fn block_of(r: &mut Rng, prev: bitcoin::BlockHash, time: u32, txs: Vec<Transaction>) -> Block {
    let mut txdata = vec![coinbase(r)];
    txdata.extend(txs);
    let mut b = Block {
        header: Header {
            version: Version::TWO,
            prev_blockhash: prev,
            merkle_root: TxMerkleNode::all_zeros(),
            time,
            bits: CompactTarget::from_consensus(0x207f_ffff),
            nonce: r.u32(),
        },
        txdata,
    };
    b.header.merkle_root = b.compute_merkle_root().unwrap();
    b
}

pub fn anchor(r: &mut Rng, height: u32) -> A {
    A { block_id: BlockId { height, hash: block_hash(r) }, confirmation_time: r.u32() as u64 }
}

/// An anchor that keeps where in its block a transaction was.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PosAnchor(BlockId, usize);

impl bdk_chain::Anchor for PosAnchor {
    fn anchor_block(&self) -> BlockId {
        self.0
    }
}

impl<'b> From<bdk_chain::TxPosInBlock<'b>> for PosAnchor {
    fn from(p: bdk_chain::TxPosInBlock<'b>) -> Self {
        PosAnchor(p.block_id, p.tx_pos)
    }
}

/// Every transaction kept from a block is anchored at its own place in it.
fn positions(r: &mut Rng, o: &mut Obs, w: &World) -> Result<(), Bad> {
    let mut ix = SpIndexerV2::<PosAnchor>::new(w.rv.scan, w.rv.spend_pk());
    for l in &w.rv.labels {
        let _ = ix.add_label(*l);
    }
    let prev = block_hash(r);
    let block = block_of(r, prev, 7, w.txs.iter().map(|t| (*t.tx).clone()).collect());
    let secrets: HashMap<Txid, PublicKey> = w.txs.iter().filter_map(|t| Some((t.txid, t.tweak?))).collect();
    let height = r.below(1 << 20) as u32;
    let all = r.chance(1, 2);
    let _ = if all { ix.apply_block(&block, secrets, height) } else { ix.apply_block_relevant(&block, secrets, height) };
    let id = BlockId { height, hash: block.block_hash() };
    for (t, v) in ix.graph().all_anchors() {
        let at = block.txdata.iter().position(|x| x.compute_txid() == *t).unwrap();
        ensure!(v.iter().eq([&PosAnchor(id, at)]), "anchor-position", "transaction {t} is number {at} of block {id:?}, its anchors are {v:?}");
        o.count("positions_in_block");
    }
    Ok(())
}

/// Content of a graph. The first-seen time is left out: bdk_chain itself (a dependency) does not
/// restore it from a change set.
pub fn content(g: &bdk_chain::TxGraph<A>) -> bdk_chain::tx_graph::ChangeSet<A> {
    let mut c = g.initial_changeset();
    c.first_seen.clear();
    c
}

/// What the index and its graph have to contain.
#[derive(Default, Clone)]
pub struct Model {
    pub owned: BTreeMap<OutPoint, (Option<u32>, [u8; 32], TxOut)>,
    pub secrets: BTreeMap<Txid, PublicKey>,
    pub txs: BTreeSet<Txid>,
    pub anchors: BTreeSet<(Txid, A)>,
    pub seen: BTreeMap<Txid, u64>,
}

impl Model {
    fn index(&mut self, w: &World, t: &WTx, tweak: &PublicKey, labels: &[u32]) -> usize {
        let v = w.spouts(t, Some(tweak), labels);
        for s in &v {
            self.owned.insert(s.outpoint, (s.label, s.tweak.secret_bytes(), TxOut::from(s)));
        }
        if !v.is_empty() {
            self.secrets.insert(t.txid, *tweak);
        }
        v.len()
    }
    pub fn relevant(&self, t: &WTx) -> bool {
        self.owned.keys().any(|o| o.txid == t.txid)
            || t.tx.input.iter().any(|i| self.owned.contains_key(&i.previous_output))
    }
    fn insert(&mut self, t: &WTx) {
        self.txs.insert(t.txid);
    }
    fn see(&mut self, txid: Txid, at: u64) {
        let e = self.seen.entry(txid).or_insert(at);
        *e = (*e).max(at);
    }
}

pub fn compare_index(m: &Model, ix: &Ix, when: &str) -> Result<(), Bad> {
    let i = ix.index();
    for (op, (l, t, _)) in &m.owned {
        match i.by_shared_secret.get(op) {
            None => return bad("payment-missed", format!("{when}: output {op} belongs to the wallet (label {l:?}) but is not indexed")),
            Some(x) => ensure!(x.secret_bytes() == *t, "wrong-tweak", "{when}: output {op} has another spend tweak than derived"),
        }
    }
    for op in i.by_shared_secret.keys() {
        ensure!(m.owned.contains_key(op), "foreign-output", "{when}: output {op} is indexed but not the wallet's");
    }
    let by_label: BTreeSet<(Option<u32>, OutPoint)> = i.by_label.iter().copied().collect();
    let want: BTreeSet<(Option<u32>, OutPoint)> = m.owned.iter().map(|(o, (l, ..))| (*l, *o)).collect();
    ensure!(by_label == want, "label-index", "{when}: outputs by label are {by_label:?}, should be {want:?}");
    // two transactions spending the same coins may pay the same script: either output will do
    let scripts: BTreeSet<_> = m.owned.values().map(|(.., t)| t.script_pubkey.clone()).collect();
    let got: BTreeSet<_> = i.by_script.keys().cloned().collect();
    ensure!(got == scripts, "script-index", "{when}: indexed scripts are {got:?}, should be {scripts:?}");
    for (s, op) in &i.by_script {
        ensure!(m.owned.get(op).is_some_and(|(.., t)| t.script_pubkey == *s), "script-index", "{when}: script {s} is mapped to {op}, which is not an output with it");
    }
    for (op, (.., t, o)) in &m.owned {
        ensure!(i.get_by_script(&o.script_pubkey).map(|s| s.secret_bytes()) == Some(*t), "get-by-script", "{when}: no or wrong tweak by the script of {op}");
    }
    let x: BTreeSet<_> = i.by_xonly().map(|(x, o)| (x.serialize().to_vec(), *o)).collect();
    let want: BTreeSet<_> = i.by_script.iter().map(|(s, o)| (s.as_bytes()[2..].to_vec(), *o)).collect();
    ensure!(x == want, "by-xonly", "{when}: outputs by x-only key differ");
    for txid in &m.txs {
        let got: Vec<_> = i.txouts_in_tx(*txid).map(|s| s.secret_bytes()).collect();
        let want: Vec<_> = m.owned.iter().filter(|(o, _)| o.txid == *txid).map(|(_, (_, t, _))| *t).collect();
        ensure!(got == want, "txouts-in-tx", "{when}: outputs in {txid} differ");
    }
    ensure!(i.txid_to_partial_secret == m.secrets, "partial-secrets", "{when}: tweaks kept are {:?}, should be {:?}", i.txid_to_partial_secret, m.secrets);
    Ok(())
}

pub fn compare_graph(m: &Model, ix: &Ix, when: &str) -> Result<(), Bad> {
    let got: BTreeSet<Txid> = ix.graph().full_txs().map(|n| n.txid).collect();
    for t in &m.txs {
        ensure!(got.contains(t), "relevant-tx-missed", "{when}: {t} is relevant but not in the graph");
    }
    for t in &got {
        ensure!(m.txs.contains(t), "irrelevant-tx", "{when}: {t} is in the graph but has nothing to do with the wallet");
    }
    let got: BTreeSet<(Txid, A)> = ix.graph().all_anchors().iter().flat_map(|(t, v)| v.iter().map(|a| (*t, *a))).collect();
    ensure!(got == m.anchors, "anchors", "{when}: anchors are {got:?}, should be {:?}", m.anchors);
    let seen: BTreeMap<Txid, u64> = ix.graph().full_txs().filter_map(|n| n.last_seen.map(|l| (n.txid, l))).collect();
    ensure!(seen == m.seen, "last-seen", "{when}: last seen times are {seen:?}, should be {:?}", m.seen);
    Ok(())
}

/// What feeding an item had to give, for the workload to keep its own books.
pub struct Feeder<'a> {
    pub w: &'a World,
    pub reg: Vec<u32>,
    pub m: Model,
    pub height: u32,
    pub time: u64,
}

impl<'a> Feeder<'a> {
    pub fn new(w: &'a World, reg: Vec<u32>) -> Self {
        Self { w, reg, m: Model::default(), height: 0, time: 1000 }
    }

    /// A tweak to go with transaction t: the right one, or (only sometimes) a wrong one.
    fn tweak(&self, r: &mut Rng, o: &mut Obs, t: &WTx, junk: bool) -> PublicKey {
        match t.tweak {
            Some(x) if !junk || !r.chance(1, 8) => x,
            _ => {
                o.count("junk_tweaks");
                World::junk_tweak(r)
            }
        }
    }

    /// One feeding operation on some transactions; returns the change set and a name.
    pub fn op(&mut self, r: &mut Rng, o: &mut Obs, ix: &mut Ix, which: &[usize], only_persistent: bool, junk: bool) -> (ChangeSet<A>, &'static str) {
        let w = self.w;
        let ts: Vec<&WTx> = which.iter().map(|i| &w.txs[*i]).collect();
        let tw: Vec<PublicKey> = ts.iter().map(|t| self.tweak(r, o, t, junk)).collect();
        let kind = r.below(if only_persistent { 5 } else { 7 });
        if self.time < 1 << 32 && r.chance(1, 30) {
            // times do not end in 2106
            self.time += 1 << 32;
        }
        match kind {
            0 => {
                // with anchors
                let items: Vec<(Arc<Transaction>, PublicKey, Vec<A>)> = ts
                    .iter()
                    .zip(&tw)
                    .map(|(t, k)| {
                        let n = r.below(3);
                        (t.tx.clone(), *k, (0..n).map(|_| { self.height += 1; anchor(r, self.height) }).collect())
                    })
                    .collect();
                for (t, k) in ts.iter().zip(&tw) {
                    self.m.index(w, t, k, &self.reg);
                }
                for (t, (_, _, a)) in ts.iter().zip(&items) {
                    if self.m.relevant(t) {
                        self.m.insert(t);
                        self.m.anchors.extend(a.iter().map(|a| (t.txid, *a)));
                    }
                }
                (ix.batch_insert_relevant(items), "batch_insert_relevant")
            }
            1 => {
                let items: Vec<_> = ts.iter().zip(&tw).map(|(t, k)| { self.time += r.below(5) as u64; (t.tx.clone(), *k, self.time) }).collect();
                for (t, k) in ts.iter().zip(&tw) {
                    self.m.index(w, t, k, &self.reg);
                }
                for (t, (.., at)) in ts.iter().zip(&items) {
                    if self.m.relevant(t) {
                        self.m.insert(t);
                        self.m.see(t.txid, *at);
                    }
                }
                (ix.batch_insert_relevant_unconfirmed(items), "batch_insert_relevant_unconfirmed")
            }
            2 => {
                let items: Vec<_> = ts.iter().zip(&tw).map(|(t, k)| { self.time += r.below(5) as u64; (t.tx.clone(), *k, self.time) }).collect();
                for (t, (_, k, at)) in ts.iter().zip(&items) {
                    self.m.index(w, t, k, &self.reg);
                    self.m.insert(t);
                    self.m.see(t.txid, *at);
                }
                (ix.batch_insert_unconfirmed(items), "batch_insert_unconfirmed")
            }
            3 | 4 | 5 => {
                self.height += 1;
                // a block has each transaction once, in an order where parents come first
                let mut idx: Vec<(usize, PublicKey)> = vec![];
                for (i, k) in which.iter().zip(&tw) {
                    if !idx.iter().any(|(j, _)| j == i) {
                        idx.push((*i, *k));
                    }
                }
                idx.sort_by_key(|(i, _)| *i);
                let prev = block_hash(r);
                let time = r.u32();
                let block = block_of(r, prev, time, idx.iter().map(|(i, _)| (*w.txs[*i].tx).clone()).collect());
                let mut secrets: HashMap<Txid, PublicKey> = HashMap::new();
                for (i, k) in &idx {
                    let t = &w.txs[*i];
                    let pays = t.tweak.is_some() && !w.expected(t, t.tweak.as_ref(), &self.reg).is_empty();
                    // light clients get no tweak for many transactions
                    if pays || r.chance(2, 3) {
                        secrets.insert(t.txid, *k);
                    } else {
                        o.count("tweaks_omitted");
                    }
                }
                // tweaks of transactions in other blocks do no harm
                for _ in 0..r.below(3) {
                    secrets.insert(Txid::from_byte_array(r.bytes()), World::junk_tweak(r));
                }
                let odd = |t: &Transaction| t.compute_txid().to_byte_array()[0] % 2 == 1;
                let a = A { block_id: BlockId { height: self.height, hash: block.block_hash() }, confirmation_time: time as u64 };
                for (i, _) in &idx {
                    let t = &w.txs[*i];
                    if let Some(k) = secrets.get(&t.txid) {
                        self.m.index(w, t, k, &self.reg);
                    }
                    let keep = match kind {
                        3 => self.m.relevant(t),
                        4 => true,
                        _ => odd(&t.tx),
                    };
                    if keep {
                        self.m.insert(t);
                        self.m.anchors.insert((t.txid, a));
                    }
                }
                o.count("blocks");
                match kind {
                    3 => (ix.apply_block_relevant(&block, secrets, self.height), "apply_block_relevant"),
                    4 => (ix.apply_block(&block, secrets, self.height), "apply_block"),
                    _ => (ix.apply_block_with_filter(&block, secrets, self.height, |_, t| odd(t)), "apply_block_with_filter"),
                }
            }
            _ => {
                let (t, k) = (ts[0], tw[0]);
                self.m.index(w, t, &k, &self.reg);
                (ix.index_tx(&t.tx, &k), "index_tx")
            }
        }
    }
}

pub fn c20() -> i32 {
    run(
        Spec {
            prop: "C20",
            rule: "history of feeding operations (single transactions, batches, blocks, with right, wrong and missing tweaks, repeats) after each of which index and graph equal the model; distinct by sequence of operations and what they carried",
            quick: 1500,
            thorough: 20000,
            require: &[
                ("operations", 6000), ("owned_outputs", 2000), ("blocks", 1500), ("junk_tweaks", 500), ("tweaks_omitted", 100), ("relevant_spends", 500),
                ("op:batch_insert_relevant", 500), ("op:batch_insert_relevant_unconfirmed", 500), ("op:batch_insert_unconfirmed", 500),
                ("op:apply_block_relevant", 500), ("op:apply_block", 500), ("op:apply_block_with_filter", 500), ("op:index_tx", 500),
                ("no_trace", 500), ("positions_in_block", 400), ("spend_before_payment_in_batch", 50),
            ],
            assumptions: &["secp256k1, rust-bitcoin and bdk_chain's transaction graph are correct"],
            threads: 0,
        },
        |r, o, _| {
            let mut w = World::new(r, 0);
            let n = r.range(3, 10);
            w.grow(r, n);
            if r.chance(1, 8) {
                positions(r, o, &w)?;
            }
            let all = w.rv.labels.clone();
            let reg = subset(r, &all);
            let mut ix = Ix::new(w.rv.scan, w.rv.spend_pk());
            for l in &reg {
                let _ = ix.add_label(*l);
            }
            let mut f = Feeder::new(&w, reg);
            let mut pattern = String::new();
            for step in 0..r.range(2, 8) {
                if f.reg.len() < all.len() && r.chance(1, 8) {
                    let l = *all.iter().find(|l| !f.reg.contains(l)).unwrap();
                    f.reg.push(l);
                    let _ = ix.add_label(l);
                    o.count("labels_added_later");
                }
                let k = r.range(1, 5).min(w.txs.len());
                let mut which: Vec<usize> = (0..k).map(|_| r.below(w.txs.len())).collect();
                match r.below(3) {
                    0 => which.sort(),
                    1 => {
                        which.sort();
                        which.reverse()
                    }
                    _ => {}
                }
                let (im, gm) = (ix.index().clone(), ix.graph().clone());
                let (before, seen_before) = (f.m.owned.len(), f.m.clone());
                let (cs, name) = f.op(r, o, &mut ix, &which, false, true);
                let when = format!("step {step} ({name} of {:?})", which.iter().map(|i| format!("{}:{:?}", w.txs[*i].txid, w.txs[*i].kind)).collect::<Vec<_>>());
                o.note(when.clone());
                compare_index(&f.m, &ix, &when)?;
                compare_graph(&f.m, &ix, &when)?;
                o.count("operations");
                o.count(&format!("op:{name}"));
                o.add("owned_outputs", (f.m.owned.len() - before) as u64);
                for i in &which {
                    let t = &w.txs[*i];
                    let spends = t.tx.input.iter().any(|i| f.m.owned.contains_key(&i.previous_output));
                    if spends && f.m.txs.contains(&t.txid) {
                        o.count("relevant_spends");
                    }
                }
                if name.starts_with("batch_insert_relevant") {
                    // a spend listed before the payment it spends
                    for (a, i) in which.iter().enumerate() {
                        for j in which[a + 1..].iter() {
                            let p = w.txs[*j].txid;
                            if !seen_before.txs.contains(&p) && f.m.txs.contains(&p) && w.txs[*i].tx.input.iter().any(|x| x.previous_output.txid == p && f.m.owned.contains_key(&x.previous_output)) {
                                o.count("spend_before_payment_in_batch");
                            }
                        }
                    }
                }
                // what came back is what changed
                if ix.index() == &im && ix.graph() == &gm {
                    ensure!(cs.graph.is_empty(), "changeset-without-change", "{when}: nothing changed in the graph, but the change set is {:?}", cs.graph);
                    o.count("no_trace");
                } else if ix.graph() != &gm {
                    let mut g = gm.clone();
                    g.apply_changeset(cs.graph.clone());
                    ensure!(content(&g) == content(ix.graph()), "changeset-incomplete", "{when}: the returned change set does not describe the change of the graph");
                }
                pattern.push_str(&format!("{name}{}>{}.", which.len(), f.m.owned.len() - before));
            }
            o.distinct(&pattern);
            o.nontrivial = !f.m.owned.is_empty();
            if o.nontrivial && r.chance(1, 50) {
                o.sample = Some(json!({"operations": pattern, "owned": f.m.owned.len(), "graph": f.m.txs.len()}));
            }
            Ok(())
        },
    )
}

fn via(r: &mut Rng, c: &ChangeSet<A>) -> Result<ChangeSet<A>, Bad> {
    Ok(match r.below(3) {
        0 => c.clone(),
        1 => {
            let j = serde_json::to_string(c).map_err(|e| Bad { sig: "json-write".into(), msg: format!("{e}"), detail: json!(null) })?;
            match serde_json::from_str(&j) {
                Ok(x) => x,
                Err(e) => return bad("json-read", format!("change set not readable from its own JSON: {e}")),
            }
        }
        _ => {
            let j = bincode::serialize(c).map_err(|e| Bad { sig: "bincode-write".into(), msg: format!("{e}"), detail: json!(null) })?;
            match bincode::deserialize(&j) {
                Ok(x) => x,
                Err(e) => return bad("bincode-read", format!("change set not readable from its own binary form: {e}")),
            }
        }
    })
}

/// The original's knowledge is kept; a restore may only know more where that is right.
fn compare_restored(w: &World, labels: &[u32], a: &Ix, b: &Ix, when: &str) -> Result<(), Bad> {
    ensure!(a.scan_sk() == b.scan_sk() && a.spend_pk() == b.spend_pk(), "keys-lost", "{when}: keys differ after a restore");
    let (x, y) = (a.index(), b.index());
    ensure!(x.label_lookup == y.label_lookup && x.num_to_label == y.num_to_label, "labels-lost", "{when}: labels differ after a restore: {:?} was {:?}", y.num_to_label.keys(), x.num_to_label.keys());
    for (op, s) in &x.by_shared_secret {
        ensure!(y.by_shared_secret.get(op) == Some(s), "output-lost", "{when}: output {op} or its tweak is lost by a restore");
    }
    for l in &x.by_label {
        ensure!(y.by_label.contains(l), "output-label-lost", "{when}: label of an output lost by a restore: {l:?}");
    }
    for (s, op) in &x.by_script {
        let same = y.by_script.get(s).is_some_and(|o| y.by_shared_secret.get(o) == x.by_shared_secret.get(op));
        ensure!(same, "output-script-lost", "{when}: script of output {op} lost by a restore");
    }
    for (t, k) in &x.txid_to_partial_secret {
        ensure!(y.txid_to_partial_secret.get(t) == Some(k), "tweak-lost", "{when}: tweak of {t} lost by a restore");
    }
    for (op, s) in &y.by_shared_secret {
        let Some(t) = w.txs.iter().find(|t| t.txid == op.txid) else {
            return bad("foreign-output", format!("{when}: the restored index owns unknown output {op}"));
        };
        let ok = w.spouts(t, t.tweak.as_ref(), labels).iter().any(|z| z.outpoint == *op && z.tweak == *s);
        ensure!(ok, "foreign-output", "{when}: the restored index owns {op}, which is not the wallet's");
    }
    ensure!(content(a.graph()) == content(b.graph()), "graph-lost", "{when}: graph differs after a restore");
    Ok(())
}

pub fn c21() -> i32 {
    run(
        Spec {
            prop: "C21",
            rule: "history of feeding operations with crashes: index restored from the change sets so far (merged in order, some through serialization, empty ones skipped), compared with the original and continued; distinct by sequence of operations and crash points",
            quick: 1200,
            thorough: 15000,
            require: &[("operations", 4000), ("restores", 2500), ("restored_outputs", 3000), ("labels_added_later", 300), ("continued", 2000), ("skipped_empty", 300), ("single_field_changesets", 5000), ("merge_laws", 1000), ("evictions", 200), ("keyless_refused", 500), ("copies_compared", 4000)],
            assumptions: &["serde_json, bincode and bdk_chain's transaction graph are correct", "a label is registered with add_label (see the known finding on get_labeled_address)"],
            threads: 0,
        },
        |r, o, i| {
            if i % 50 == 49 {
                return label_of_address(r, o);
            }
            let mut w = World::new(r, 0);
            let n = r.range(3, 9);
            w.grow(r, n);
            let all = w.rv.labels.clone();
            let mut ix = Ix::new(w.rv.scan, w.rv.spend_pk());
            let mut stored: ChangeSet<A> = via(r, &ix.initial_changeset())?;
            let mut parts: Vec<ChangeSet<A>> = vec![stored.clone()];
            ensure!(!stored.is_empty(), "keys-are-empty", "a change set with the wallet's keys counts as empty");
            let mut f = Feeder::new(&w, vec![]);
            let mut pattern = String::new();
            let steps = r.range(2, 9);
            let mut twin: Option<Ix> = None;
            // a copy kept up to date by applying each change set as it comes
            let mut copy = ix.clone();
            for step in 0..steps {
                let before = ix.clone();
                let (cs, name) = match r.below(10) {
                    0 | 1 if f.reg.len() < all.len() => {
                        let l = *all.iter().find(|l| !f.reg.contains(l)).unwrap();
                        f.reg.push(l);
                        o.count("labels_added_later");
                        (ix.add_label(l), "add_label")
                    }
                    2 if !f.m.txs.is_empty() => {
                        let v: Vec<Txid> = f.m.txs.iter().copied().collect();
                        let t = *r.pick(&v);
                        f.time += 1;
                        let at = f.time;
                        match r.below(4) {
                            0 => {
                                o.count("evictions");
                                // also of what has not been heard of yet
                                let t = if r.chance(1, 4) { r.pick(&w.txs).txid } else { t };
                                (ix.insert_evicted_at(t, at), "insert_evicted_at")
                            }
                            1 => {
                                o.count("evictions");
                                let unknown = Txid::from_byte_array(r.bytes());
                                (ix.batch_insert_relevant_evicted_at([(t, at), (unknown, at)]), "batch_insert_relevant_evicted_at")
                            }
                            2 => (ix.insert_seen_at(t, at), "insert_seen_at"),
                            _ => {
                                f.height += 1;
                                (ix.insert_anchor(t, anchor(r, f.height)), "insert_anchor")
                            }
                        }
                    }
                    _ => {
                        let k = r.range(1, 4).min(w.txs.len());
                        let which: Vec<usize> = (0..k).map(|_| r.below(w.txs.len())).collect();
                        // relevance is judged by the operation; the twin below repeats it
                        f.op(r, o, &mut ix, &which, true, true)
                    }
                };
                o.count("operations");
                pattern.push_str(name);
                let mut piece = via(r, &cs)?;
                piece.scan_sk = Some(w.rv.scan);
                piece.spend_pk = Some(w.rv.spend_pk());
                copy.apply_changeset(piece);
                compare_restored(&w, &f.reg, &ix, &copy, &format!("step {step} ({name}), copy fed with the change sets one by one"))?;
                o.count("copies_compared");
                let changed = before.index() != ix.index() || before.graph() != ix.graph();
                if cs.is_empty() {
                    ensure!(!changed, "empty-but-changed", "step {step} ({name}): the wallet changed but the change set counts as empty");
                    o.count("skipped_empty");
                } else {
                    stored.merge(via(r, &cs)?);
                    parts.push(cs);
                }
                // crash here?
                if r.chance(1, 2) || step + 1 == steps {
                    pattern.push('!');
                    let src = via(r, &stored)?;
                    let Ok(back) = Ix::try_from(src) else {
                        return bad("restore-refused", format!("step {step} ({name}): the stored change set does not restore"));
                    };
                    compare_restored(&w, &f.reg, &ix, &back, &format!("step {step} ({name})"))?;
                    o.count("restores");
                    o.add("restored_outputs", back.index().by_shared_secret.len() as u64);
                    // a snapshot restores as well
                    if let Ok(snap) = Ix::try_from(via(r, &ix.initial_changeset())?) {
                        compare_restored(&w, &f.reg, &ix, &snap, &format!("step {step} ({name}), snapshot"))?;
                                            } else {
                        return bad("restore-refused", format!("step {step} ({name}): the snapshot does not restore"));
                    }
                    // applying the same change sets again to the original changes nothing it knew
                    let mut again = back.clone();
                    again.apply_changeset(stored.clone());
                    ensure!(again.index() == back.index() && content(again.graph()) == content(back.graph()), "apply-twice", "step {step} ({name}): applying the change set twice differs from once");
                    if r.chance(1, 2) {
                        // the process goes on from the restored state, in place of the original
                        twin = Some(ix.clone());
                        ix = back;
                        copy = ix.clone();
                        f.m.owned.clear();
                        f.m.secrets.clear();
                        for (op, s) in &ix.index().by_shared_secret {
                            let t = w.txs.iter().find(|t| t.txid == op.txid).unwrap();
                            let l = w.spouts(t, t.tweak.as_ref(), &f.reg).into_iter().find(|z| z.outpoint == *op).map(|z| z.label).unwrap();
                            f.m.owned.insert(*op, (l, s.secret_bytes(), t.tx.output[op.vout as usize].clone()));
                        }
                        f.m.secrets = ix.index().txid_to_partial_secret.clone();
                    }
                }
            }
            // both go on to find the same payments
            let Ok(mut back) = Ix::try_from(stored.clone()) else { return bad("restore-refused", "final restore refused") };
            let mut one = twin.filter(|t| t.index().label_lookup == ix.index().label_lookup).unwrap_or(ix);
            for t in &w.txs {
                let Some(k) = t.tweak else { continue };
                let _ = one.batch_insert_relevant([(t.tx.clone(), k, Vec::<A>::new())]);
                let _ = back.batch_insert_relevant([(t.tx.clone(), k, Vec::<A>::new())]);
                let (x, y): (Vec<_>, Vec<_>) = (one.index().txouts_in_tx(t.txid).copied().collect(), back.index().txouts_in_tx(t.txid).copied().collect());
                let want: BTreeSet<_> = w.spouts(t, Some(&k), &f.reg).iter().map(|s| s.tweak.secret_bytes()).collect();
                let sx: BTreeSet<_> = x.iter().map(|s| s.secret_bytes()).collect();
                let sy: BTreeSet<_> = y.iter().map(|s| s.secret_bytes()).collect();
                ensure!(sx == want, "continue-original", "the original does not find {} of {}", want.len(), t.txid);
                ensure!(sy == want, "continue-restored", "the restored index does not find the payments of {}", t.txid);
                o.count("continued");
            }
            laws(r, o, &parts)?;
            o.distinct(&pattern);
            o.nontrivial = !back.index().by_shared_secret.is_empty();
            if o.nontrivial && r.chance(1, 50) {
                o.sample = Some(json!({"operations": pattern, "owned": back.index().by_shared_secret.len()}));
            }
            Ok(())
        },
    )
}

/// Merge laws and emptiness over change sets of the history and their single entries.
fn laws(r: &mut Rng, o: &mut Obs, parts: &[ChangeSet<A>]) -> Result<(), Bad> {
    let mut atoms: Vec<ChangeSet<A>> = vec![];
    for p in parts {
        let d = ChangeSet::<A>::default;
        if p.scan_sk.is_some() {
            atoms.push(ChangeSet { scan_sk: p.scan_sk, ..d() });
        }
        if p.spend_pk.is_some() {
            atoms.push(ChangeSet { spend_pk: p.spend_pk, ..d() });
        }
        for (t, k) in &p.txid_to_partial_secret {
            atoms.push(ChangeSet { txid_to_partial_secret: [(*t, *k)].into(), ..d() });
        }
        for l in &p.label_lookup {
            atoms.push(ChangeSet { label_lookup: [*l].into(), ..d() });
        }
        macro_rules! g {
            ($f:ident) => {
                for x in p.graph.$f.clone() {
                    let mut c = d();
                    c.graph.$f.extend([x]);
                    atoms.push(c);
                }
            };
        }
        g!(txs);
        g!(anchors);
        g!(last_seen);
        g!(last_evicted);
        g!(first_seen);
    }
    let mut all = ChangeSet::<A>::default();
    for p in parts {
        all.merge(p.clone());
    }
    // put together by hand, field by field
    let put = |c: &mut ChangeSet<A>, a: &ChangeSet<A>| {
        c.scan_sk = a.scan_sk.or(c.scan_sk);
        c.spend_pk = a.spend_pk.or(c.spend_pk);
        c.txid_to_partial_secret.extend(a.txid_to_partial_secret.clone());
        c.label_lookup.extend(a.label_lookup.clone());
        c.graph.txs.extend(a.graph.txs.clone());
        c.graph.txouts.extend(a.graph.txouts.clone());
        c.graph.anchors.extend(a.graph.anchors.clone());
        for (t, x) in &a.graph.last_seen {
            let y = c.graph.last_seen.entry(*t).or_insert(*x);
            *y = (*y).max(*x);
        }
        for (t, x) in &a.graph.last_evicted {
            let y = c.graph.last_evicted.entry(*t).or_insert(*x);
            *y = (*y).max(*x);
        }
        for (t, x) in &a.graph.first_seen {
            let y = c.graph.first_seen.entry(*t).or_insert(*x);
            *y = (*y).min(*x);
        }
    };
    let mut by_hand = ChangeSet::<A>::default();
    for a in &atoms {
        put(&mut by_hand, a);
    }
    by_hand.graph.txouts = all.graph.txouts.clone();
    ensure!(by_hand == all, "merge-loses", "merging {} change sets is not their union", parts.len());
    for a in &atoms {
        ensure!(!a.is_empty(), "nonempty-is-empty", "a change set with content counts as empty: {a:?}");
        let mut x = all.clone();
        // timestamps keep the later (or earliest) value, so merging an older one changes nothing
        x.merge(a.clone());
        if a.graph.first_seen.is_empty() && a.graph.last_seen.is_empty() && a.graph.last_evicted.is_empty() {
            ensure!(x == all, "merge-loses", "merging lost an entry: {a:?}");
        }
        o.count("single_field_changesets");
    }
    ensure!(ChangeSet::<A>::default().is_empty(), "empty-is-nonempty", "the empty change set counts as non-empty");
    let pick = |r: &mut Rng| -> ChangeSet<A> {
        let mut c = ChangeSet::default();
        for a in &atoms {
            if r.chance(1, 4) {
                put(&mut c, a);
            }
        }
        c
    };
    let (a, b, c) = (pick(r), pick(r), pick(r));
    let (b0, c0) = (b.clone(), c.clone());
    let mut ab = a.clone();
    ab.merge(b.clone());
    let mut ab_c = ab;
    ab_c.merge(c.clone());
    let mut bc = b;
    bc.merge(c);
    let mut a_bc = a.clone();
    a_bc.merge(bc);
    ensure!(ab_c == a_bc, "not-associative", "merging is not associative");
    let mut abc = a.clone();
    put(&mut abc, &b0);
    put(&mut abc, &c0);
    ensure!(ab_c == abc, "merge-loses", "merging three change sets is not their union");
    let mut a0 = a.clone();
    a0.merge(ChangeSet::default());
    let mut z = ChangeSet::default();
    z.merge(a.clone());
    let mut aa = a.clone();
    aa.merge(a.clone());
    ensure!(a0 == a && z == a && aa == a, "no-identity", "the empty change set is not neutral, or merging twice differs");
    o.count("merge_laws");
    // without both keys there is nothing to restore a wallet from
    if a.scan_sk.is_none() || a.spend_pk.is_none() {
        ensure!(Ix::try_from(a).is_err(), "keyless-restore", "a change set without keys restores a wallet");
        o.count("keyless_refused");
    }
    Ok(())
}

/// A label first used through get_labeled_address has to survive a restart too.
fn label_of_address(r: &mut Rng, o: &mut Obs) -> Result<(), Bad> {
    let w = World::new(r, 1);
    let mut ix = Ix::new(w.rv.scan, w.rv.spend_pk());
    let stored = ix.initial_changeset();
    let m = w.rv.labels[0];
    let _code = ix.get_labeled_address(m, Network::Regtest);
    o.count("label_of_address");
    // get_labeled_address returns no change set: what was stored before is all there is
    let Ok(back) = Ix::try_from(stored) else { return bad("restore-refused", "restore refused") };
    ensure!(
        back.index().get_label(m).is_some(),
        "label-of-address-not-persisted",
        "label {m}, registered by get_labeled_address, is in no change set: payments to the address handed out are not found after a restart"
    );
    Ok(())
}

pub fn c22() -> i32 {
    run(
        Spec {
            prop: "C22",
            rule: "wallet and transaction whose predicted first scripts equal the model's and meet the payment, and foreign data that left no trace; distinct by label set and payment pattern",
            quick: 1500,
            thorough: 20000,
            require: &[("tweaks", 5000), ("scripts", 10000), ("payments_predicted", 2500), ("codes", 2500), ("foreign_changesets", 4000), ("foreign_tweaks", 900), ("foreign_scans", 1000)],
            assumptions: &["secp256k1 is correct"],
            threads: 0,
        },
        |r, o, _| {
            let mut w = World::new(r, 0);
            for _ in 0..r.range(1, 4) {
                w.pay(r);
            }
            w.noise(r);
            w.spend(r);
            let all = w.rv.labels.clone();
            let reg = subset(r, &all);
            let mut ix = Ix::new(w.rv.scan, w.rv.spend_pk());
            for l in &reg {
                let _ = ix.add_label(*l);
            }
            let net = *r.pick(&[Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest]);
            ensure!(
                ix.get_address(net).to_string() == model::encode_code(crate::labels::hrp(net), 0, &w.rv.scan_pk(), &w.rv.spend_pk()),
                "address",
                "address shown is not the wallet's: {}",
                ix.get_address(net)
            );
            o.count("codes");
            for l in &reg {
                let want = model::encode_code(crate::labels::hrp(net), 0, &w.rv.scan_pk(), &w.rv.b_m(Some(*l)));
                let got = ix.get_labeled_address(*l, net).to_string();
                ensure!(got == want, "labelled-address", "address of label {l} is {got}, should be {want}");
                o.count("codes");
            }
            let mut junk: Vec<Option<PublicKey>> = w.txs.iter().map(|t| t.tweak).collect();
            junk.push(Some(World::junk_tweak(r)));
            for (i, k) in junk.iter().enumerate() {
                let Some(k) = k else { continue };
                let ecdh = w.ecdh(k);
                let t = model::point_of(&model::shared_hash(&ecdh, 0));
                let mut want: Vec<Vec<u8>> = vec![model::p2tr_spk(&model::xonly(&w.rv.spend_pk().combine(&t).unwrap())).to_bytes()];
                for l in &reg {
                    want.push(model::p2tr_spk(&model::xonly(&w.rv.b_m(Some(*l)).combine(&t).unwrap())).to_bytes());
                }
                let mut got: Vec<Vec<u8>> = ix.derive_spks_for_tweak(k).iter().map(|s| s.to_vec()).collect();
                want.sort();
                got.sort();
                ensure!(got == want, "predicted-scripts", "scripts predicted for a tweak are not the wallet's: got {} want {}", got.len(), want.len());
                o.count("tweaks");
                o.add("scripts", got.len() as u64);
                if let Some(tx) = w.txs.get(i) {
                    let ms = w.expected(tx, Some(k), &reg);
                    let hits = tx.tx.output.iter().filter(|x| got.contains(&x.script_pubkey.to_bytes())).count();
                    if ms.is_empty() {
                        ensure!(hits == 0, "prediction-hits-foreign", "a predicted script is in {}, which does not pay the wallet", tx.txid);
                        o.count("foreign_tweaks");
                    } else {
                        let first = &tx.tx.output[ms[0].vout as usize];
                        ensure!(got.contains(&first.script_pubkey.to_bytes()), "prediction-misses-payment", "payment {} is not among the predicted scripts", tx.txid);
                        o.count("payments_predicted");
                    }
                }
            }
            // another wallet's data
            let other = loop {
                let x = World::new(r, 1);
                if x.rv.scan_pk() != w.rv.scan_pk() && model::xonly(&x.rv.spend_pk()) != model::xonly(&w.rv.spend_pk()) {
                    break x;
                }
            };
            let mut theirs = Ix::new(other.rv.scan, other.rv.spend_pk());
            for l in &other.rv.labels {
                let _ = theirs.add_label(*l);
            }
            for t in &w.txs {
                if let Some(k) = t.tweak {
                    // as seen by the other wallet: nothing is found
                    let c = theirs.batch_insert_relevant([(t.tx.clone(), k, Vec::<A>::new())]);
                    ensure!(c.is_empty() && theirs.index().by_shared_secret.is_empty(), "found-by-other", "a payment to this wallet is found by another one");
                    o.count("foreign_scans");
                }
            }
            let mut ow = other;
            ow.pay(r);
            let t = ow.txs[0].clone();
            let _ = theirs.batch_insert_relevant([(t.tx.clone(), t.tweak.unwrap(), Vec::<A>::new())]);
            let _ = ix.batch_insert_relevant(w.txs.iter().filter_map(|t| t.tweak.map(|k| (t.tx.clone(), k, Vec::<A>::new()))));
            let before = ix.clone();
            let mut foreign = theirs.initial_changeset();
            let variants: Vec<ChangeSet<A>> = {
                let full = foreign.clone();
                let mut v = vec![full.clone()];
                // half right keys are wrong keys
                foreign.scan_sk = Some(*ix.scan_sk());
                v.push(foreign.clone());
                foreign.scan_sk = full.scan_sk;
                foreign.spend_pk = Some(*ix.spend_pk());
                v.push(foreign.clone());
                v.push(ChangeSet { spend_pk: Some(ix.spend_pk().negate(model::secp())), scan_sk: Some(*ix.scan_sk()), ..full.clone() });
                v
            };
            for v in variants {
                ix.apply_changeset(v);
                ensure!(ix.index() == before.index() && ix.graph() == before.graph(), "foreign-absorbed", "a change set made for other keys was absorbed");
                ensure!(ix.scan_sk() == before.scan_sk() && ix.spend_pk() == before.spend_pk(), "foreign-absorbed", "keys replaced by a foreign change set");
                o.count("foreign_changesets");
            }
            o.nontrivial = !ix.index().by_shared_secret.is_empty();
            o.distinct(&format!("{reg:?}|{}", ix.index().by_shared_secret.len()));
            if o.nontrivial && r.chance(1, 50) {
                o.sample = Some(json!({"registered": reg, "owned": ix.index().by_shared_secret.len()}));
            }
            Ok(())
        },
    )
}
