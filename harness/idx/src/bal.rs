use crate::v1::{scanner, src, Src};
use crate::v2::{block_of, Ix, A};
use crate::world::*;
use bdk_chain::local_chain::LocalChain;
use bdk_chain::{tx_graph, BlockId, CanonicalizationParams, ChainPosition, Merge, TxGraph};
use bitcoin::secp256k1::PublicKey;
use bitcoin::{Amount, Block, BlockHash, OutPoint, Txid};
use indexer::v2::ChangeSet;
use indexer::{SpIndexer, SpIndexes, SpIndexesChangeSet};
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};

struct NBlock {
    hash: BlockHash,
    txs: Vec<usize>,
}

/// The truth: a node's best chain and mempool.
struct Node<'a> {
    w: &'a World,
    by_id: HashMap<Txid, usize>,
    chain: Vec<NBlock>,
    mempool: BTreeSet<usize>,
    /// Transactions that were ever in a block.
    ever: BTreeSet<usize>,
}

impl Node<'_> {
    fn confirmed(&self) -> BTreeSet<usize> {
        self.chain.iter().flat_map(|b| b.txs.iter().copied()).collect()
    }
    fn view(&self) -> BTreeSet<usize> {
        let mut v = self.confirmed();
        v.extend(self.mempool.iter());
        v
    }
    fn parents(&self, i: usize) -> Vec<usize> {
        self.w.txs[i].tx.input.iter().filter_map(|x| self.by_id.get(&x.previous_output.txid).copied()).collect()
    }
    fn conflicts(&self, i: usize, j: usize) -> bool {
        i != j && self.w.txs[i].tx.input.iter().any(|a| self.w.txs[j].tx.input.iter().any(|b| a.previous_output == b.previous_output))
    }
    fn descendants(&self, i: usize) -> BTreeSet<usize> {
        let mut d = BTreeSet::from([i]);
        for j in i + 1..self.w.txs.len() {
            if self.parents(j).iter().any(|p| d.contains(p)) {
                d.insert(j);
            }
        }
        d
    }
    fn fits(&self, i: usize, on: &BTreeSet<usize>) -> bool {
        !on.contains(&i) && self.parents(i).iter().all(|p| on.contains(p)) && !on.iter().any(|j| self.conflicts(i, *j))
    }
    /// Remove from the mempool whatever no longer fits on the chain; returns what was dropped.
    fn prune(&mut self) -> Vec<usize> {
        let mut on = self.confirmed();
        let mut keep = BTreeSet::new();
        let mut dropped = vec![];
        let pool: Vec<usize> = self.mempool.iter().copied().collect();
        for i in pool {
            if on.contains(&i) {
                continue;
            }
            if self.fits(i, &on) {
                on.insert(i);
                keep.insert(i);
            } else {
                dropped.push(i);
            }
        }
        self.mempool = keep;
        dropped
    }
}

struct Wallets<'a> {
    w: &'a World,
    chain: LocalChain,
    two: Ix,
    stored: ChangeSet<A>,
    one: SpIndexer<Src, A>,
    graph_stored: tx_graph::ChangeSet<A>,
    reg: Vec<u32>,
    /// Anchors of every block a transaction was in, stale ones included.
    anchors: HashMap<usize, Vec<A>>,
}

impl Wallets<'_> {
    fn is_relevant_one(&self, i: usize) -> bool {
        let t = &self.w.txs[i];
        self.one.spends_owned_spouts(&t.tx) || self.one.indexes.txouts_in_tx(t.txid).next().is_some()
    }

    fn block(&mut self, r: &mut Rng, o: &mut Obs, block: &Block, height: u32, txs: &[usize]) -> Result<(), Bad> {
        let id = BlockId { height, hash: block.block_hash() };
        if let Err(e) = self.chain.insert_block(id) {
            return bad("chain", format!("{e}"));
        }
        let mut secrets: HashMap<Txid, PublicKey> = HashMap::new();
        for i in txs {
            let t = &self.w.txs[*i];
            if let Some(k) = t.tweak {
                let pays = !self.w.expected(t, Some(&k), &self.reg).is_empty();
                if pays || r.chance(1, 2) {
                    secrets.insert(t.txid, k);
                }
            }
        }
        let here = A { block_id: id, confirmation_time: block.header.time as u64 };
        for i in txs {
            let v = self.anchors.entry(*i).or_default();
            if !v.contains(&here) {
                v.push(here);
            }
        }
        match r.below(6) {
            0 => {
                let cs = self.two.apply_block(block, secrets, height);
                self.stored.merge(cs);
            }
            1 | 2 => {
                // a source that reports transactions with all the blocks they were ever in
                let mut items = vec![];
                for i in txs {
                    let t = &self.w.txs[*i];
                    let mut anchors = self.anchors[i].clone();
                    r.shuffle(&mut anchors);
                    o.count(if anchors.len() > 1 { "several_anchors" } else { "one_anchor" });
                    items.push((t.tx.clone(), t.tweak.unwrap_or_else(|| World::junk_tweak(r)), anchors));
                }
                r.shuffle(&mut items);
                let cs = self.two.batch_insert_relevant(items);
                self.stored.merge(cs);
            }
            3 => {
                // one call for each thing
                for i in txs {
                    let t = &self.w.txs[*i];
                    if self.two.graph().get_tx(t.txid).is_none() {
                        let cs = self.two.batch_insert_relevant([(t.tx.clone(), t.tweak.unwrap_or_else(|| World::junk_tweak(r)), vec![])]);
                        self.stored.merge(cs);
                    }
                    if self.two.graph().get_tx(t.txid).is_some() {
                        let cs = self.two.insert_anchor(t.txid, here);
                        self.stored.merge(cs);
                        o.count("anchors_alone");
                    }
                }
            }
            _ => {
                let cs = self.two.apply_block_relevant(block, secrets, height);
                self.stored.merge(cs);
            }
        }
        for i in txs {
            let t = &self.w.txs[*i];
            match self.one.index_tx(&t.tx) {
                Ok(cs) => self.graph_stored.merge(cs),
                Err(e) => return bad("index-error", format!("{e}")),
            }
            if self.is_relevant_one(*i) {
                self.graph_stored.merge(self.one.tx_graph.insert_tx(t.tx.clone()));
                let a = A { block_id: id, confirmation_time: block.header.time as u64 };
                self.graph_stored.merge(self.one.tx_graph.insert_anchor(t.txid, a));
            }
        }
        o.count("blocks_connected");
        Ok(())
    }

    fn unconfirmed(&mut self, r: &mut Rng, txs: &[usize], now: u64) -> Result<(), Bad> {
        let items: Vec<_> = txs
            .iter()
            .map(|i| {
                let t = &self.w.txs[*i];
                (t.tx.clone(), t.tweak.unwrap_or_else(|| World::junk_tweak(r)), now)
            })
            .collect();
        let cs = if r.chance(3, 4) { self.two.batch_insert_relevant_unconfirmed(items) } else { self.two.batch_insert_unconfirmed(items) };
        self.stored.merge(cs);
        for i in txs {
            let t = &self.w.txs[*i];
            match self.one.index_tx(&t.tx) {
                Ok(cs) => self.graph_stored.merge(cs),
                Err(e) => return bad("index-error", format!("{e}")),
            }
        }
        for i in txs {
            if self.is_relevant_one(*i) {
                let t = &self.w.txs[*i];
                self.graph_stored.merge(self.one.tx_graph.insert_tx(t.tx.clone()));
                self.graph_stored.merge(self.one.tx_graph.insert_seen_at(t.txid, now));
            }
        }
        Ok(())
    }

    fn evict(&mut self, r: &mut Rng, txs: &[usize], now: u64) {
        for i in txs {
            let txid = self.w.txs[*i].txid;
            let cs = if r.chance(1, 2) {
                self.two.insert_evicted_at(txid, now)
            } else {
                self.two.batch_insert_relevant_evicted_at([(txid, now)])
            };
            self.stored.merge(cs);
            if self.one.tx_graph.get_tx(txid).is_some() {
                self.graph_stored.merge(self.one.tx_graph.insert_evicted_at(txid, now));
            }
        }
    }

    fn restart(&mut self) -> Result<(), Bad> {
        let Ok(two) = Ix::try_from(self.stored.clone()) else { return bad("restore-refused", "the stored change set does not restore") };
        self.two = two;
        let cs = SpIndexesChangeSet::from(self.one.indexes.clone());
        self.one = SpIndexer::new(src(self.w), scanner(self.w, &self.reg), SpIndexes::from(cs), TxGraph::from_changeset(self.graph_stored.clone()));
        self.chain = match LocalChain::from_changeset(self.chain.initial_changeset()) {
            Ok(c) => c,
            Err(e) => return bad("chain", format!("{e}")),
        };
        Ok(())
    }
}

type View = BTreeMap<OutPoint, (Amount, Option<u32>, Option<Txid>)>;

fn view(graph: &TxGraph<A>, chain: &LocalChain, ops: &[OutPoint]) -> (View, Amount, Amount) {
    let tip = chain.tip().block_id();
    let mut v = View::new();
    for (_, t) in graph.filter_chain_txouts(chain, tip, CanonicalizationParams::default(), ops.iter().map(|o| ((), *o))) {
        let h = match &t.chain_position {
            ChainPosition::Confirmed { anchor, .. } => Some(anchor.block_id.height),
            ChainPosition::Unconfirmed { .. } => None,
        };
        v.insert(t.outpoint, (t.txout.value, h, t.spent_by.map(|(_, x)| x)));
    }
    let b = graph.balance(chain, tip, CanonicalizationParams::default(), ops.iter().map(|o| ((), *o)), |_, _| false);
    (v, b.confirmed, b.immature + b.trusted_pending + b.untrusted_pending)
}

pub fn c23() -> i32 {
    run(
        Spec {
            prop: "C23",
            rule: "history of a node (blocks, mempool arrivals and evictions, conflicting spends, reorganisations, wallet restarts); after each event the unspent outputs and balance of both indexes equal the node's; distinct by sequence of events",
            quick: 3000,
            thorough: 16000,
            require: &[
                ("events", 8000), ("balance_checks", 16000), ("blocks_connected", 3000), ("reorgs", 800), ("mempool", 1500), ("evictions", 150), ("restarts", 500),
                ("unspent_outputs", 15000), ("spent_outputs", 3000), ("conflicts_dropped", 12), ("back_to_mempool", 300), ("rescans", 300), ("several_anchors", 60), ("anchors_alone", 250),
            ],
            assumptions: &["bdk_chain's canonicalization is correct", "the chain source reports blocks, mempool and evictions truthfully"],
            threads: 0,
        },
        |r, o, _| {
            let mut w = World::new(r, 0);
            w.small = true;
            w.reuse = (1, 2);
            let n = r.range(5, 14);
            w.pay(r);
            w.grow(r, n);
            let all = w.rv.labels.clone();
            // all of them: a conflict over a coin that is not the wallet's would be invisible to a
            // wallet fed with relevant transactions only
            let reg = all.clone();
            let owned: BTreeMap<OutPoint, Amount> = w
                .txs
                .iter()
                .flat_map(|t| w.spouts(t, t.tweak.as_ref(), &reg))
                .map(|s| (s.outpoint, s.amount))
                .collect();
            let genesis = block_hash(r);
            let mut node = Node {
                w: &w,
                by_id: w.txs.iter().enumerate().map(|(i, t)| (t.txid, i)).collect(),
                chain: vec![NBlock { hash: genesis, txs: vec![] }],
                mempool: BTreeSet::new(),
                ever: BTreeSet::new(),
            };
            let mut two = Ix::new(w.rv.scan, w.rv.spend_pk());
            let mut stored = two.initial_changeset();
            for l in &reg {
                stored.merge(two.add_label(*l));
            }
            let mut wal = Wallets {
                w: &w,
                chain: LocalChain::from_genesis_hash(genesis).0,
                two,
                stored,
                one: SpIndexer::new(src(&w), scanner(&w, &reg), SpIndexes::default(), TxGraph::default()),
                graph_stored: Default::default(),
                reg: reg.clone(),
                anchors: HashMap::new(),
            };
            let mut now = 1_700_000_000u64;
            let mut blocks: HashMap<BlockHash, Block> = HashMap::new();
            let mut pattern = String::new();
            let mut had_coins = false;
            for step in 0..r.range(4, 12) {
                now += r.range(1, 600) as u64;
                let ev = r.below(12);
                let name = match ev {
                    0..=3 => {
                        connect(r, o, &mut node, &mut wal, &mut blocks, now, None)?;
                        let dropped = node.prune();
                        o.add("conflicts_dropped", dropped.len() as u64);
                        wal.evict(r, &dropped, now);
                        "block"
                    }
                    4..=6 => {
                        let mut on = node.view();
                        let mut add = vec![];
                        for i in 0..w.txs.len() {
                            if node.fits(i, &on) && r.chance(1, 2) && add.len() < 3 {
                                on.insert(i);
                                add.push(i);
                            }
                        }
                        o.add("mempool", add.len() as u64);
                        node.mempool.extend(add.iter());
                        wal.unconfirmed(r, &add, now)?;
                        "mempool"
                    }
                    7 => {
                        // eviction of something nothing else depends on
                        let v: Vec<usize> = node
                            .mempool
                            .iter()
                            .copied()
                            .filter(|i| {
                                let d = node.descendants(*i);
                                d.iter().all(|x| !node.ever.contains(x))
                                    && d.iter().all(|x| x == i || !node.mempool.contains(x))
                                    && !node.ever.iter().any(|x| d.iter().any(|y| node.conflicts(*x, *y)))
                            })
                            .collect();
                        if v.is_empty() {
                            continue;
                        }
                        let x = *r.pick(&v);
                        node.mempool.remove(&x);
                        wal.evict(r, &[x], now);
                        o.count("evictions");
                        "evict"
                    }
                    8 | 9 => {
                        if node.chain.len() < 2 {
                            continue;
                        }
                        let d = r.range(1, 3).min(node.chain.len() - 1);
                        let mut old: Vec<usize> = vec![];
                        for _ in 0..d {
                            let h = node.chain.len() as u32 - 1;
                            let b = node.chain.pop().unwrap();
                            old.splice(0..0, b.txs);
                            if let Err(e) = wal.chain.disconnect_from(BlockId { height: h, hash: b.hash }) {
                                return bad("chain", format!("{e}"));
                            }
                        }
                        for _ in 0..d + r.below(2) {
                            connect(r, o, &mut node, &mut wal, &mut blocks, now, Some(&old))?;
                        }
                        // disconnected ones go back to the mempool if they still fit
                        let pool = node.mempool.clone();
                        node.mempool.extend(old.iter());
                        let mut dropped = node.prune();
                        dropped.retain(|i| pool.contains(i) || old.contains(i));
                        let back: Vec<usize> = old.iter().copied().filter(|i| node.mempool.contains(i)).collect();
                        o.add("back_to_mempool", back.len() as u64);
                        o.add("conflicts_dropped", dropped.len() as u64);
                        wal.evict(r, &dropped, now);
                        wal.unconfirmed(r, &back, now + 1)?;
                        now += 2;
                        o.count("reorgs");
                        "reorg"
                    }
                    10 => {
                        wal.restart()?;
                        o.count("restarts");
                        "restart"
                    }
                    _ => {
                        // the same block again
                        let h = r.below(node.chain.len());
                        let Some(b) = blocks.get(&node.chain[h].hash).cloned() else { continue };
                        let txs = node.chain[h].txs.clone();
                        wal.block(r, o, &b, h as u32, &txs)?;
                        o.count("rescans");
                        "rescan"
                    }
                };
                // once in a block, a transaction that is valid again is broadcast again (the chain library
                // believes in it whatever evictions say)
                let mut on = node.view();
                let mut again = vec![];
                for i in node.ever.iter().copied() {
                    if node.fits(i, &on) {
                        on.insert(i);
                        again.push(i);
                    }
                }
                if !again.is_empty() {
                    o.add("valid_again", again.len() as u64);
                    node.mempool.extend(again.iter());
                    now += 1;
                    wal.unconfirmed(r, &again, now)?;
                }
                pattern.push_str(name);
                pattern.push('.');
                o.count("events");
                // truth
                let conf: BTreeMap<usize, u32> =
                    node.chain.iter().enumerate().flat_map(|(h, b)| b.txs.iter().map(move |t| (*t, h as u32))).collect();
                let seen = node.view();
                let mut want = View::new();
                for (op, v) in &owned {
                    let i = node.by_id[&op.txid];
                    if !seen.contains(&i) {
                        continue;
                    }
                    let spent = seen.iter().find(|j| w.txs[**j].tx.input.iter().any(|x| x.previous_output == *op)).map(|j| w.txs[*j].txid);
                    want.insert(*op, (*v, conf.get(&i).copied(), spent));
                }
                let sum = |c: bool| -> Amount { want.values().filter(|(_, h, s)| s.is_none() && h.is_some() == c).map(|(v, ..)| *v).sum() };
                let (wc, wp) = (sum(true), sum(false));
                had_coins |= !want.is_empty();
                o.add("unspent_outputs", want.values().filter(|x| x.2.is_none()).count() as u64);
                o.add("spent_outputs", want.values().filter(|x| x.2.is_some()).count() as u64);
                let ops1: Vec<OutPoint> = wal.one.indexes.spouts.keys().copied().collect();
                let ops2: Vec<OutPoint> = wal.two.index().by_shared_secret.keys().copied().collect();
                for (which, graph, ops) in [("first", &wal.one.tx_graph, &ops1), ("second", wal.two.graph(), &ops2)] {
                    let (got, c, p) = view(graph, &wal.chain, ops);
                    let when = format!("step {step} ({name}), {which} index");
                    for (op, x) in &want {
                        match got.get(op) {
                            None => return bad("coin-lost", format!("{when}: {op} of {} is in the node's view but not the wallet's", x.0)),
                            Some(y) => ensure!(x == y, "coin-state", "{when}: coin {op} (value, height, spent by) is {y:?}, should be {x:?}"),
                        }
                    }
                    for op in got.keys() {
                        ensure!(want.contains_key(op), "coin-ghost", "{when}: the wallet has {op}, the node does not");
                    }
                    ensure!(c == wc && p == wp, "balance", "{when}: balance is {c} confirmed and {p} pending, should be {wc} and {wp}");
                    o.count("balance_checks");
                }
            }
            o.distinct(&pattern);
            o.nontrivial = had_coins;
            if had_coins && r.chance(1, 50) {
                o.sample = Some(json!({"events": pattern, "transactions": w.txs.len(), "coins": owned.len(), "height": node.chain.len() - 1}));
            }
            Ok(())
        },
    )
}

/// Mine a block on the node's tip and feed it to the wallets. `old` are transactions of
/// disconnected blocks, preferred or replaced by conflicting ones.
fn connect(
    r: &mut Rng,
    o: &mut Obs,
    node: &mut Node,
    wal: &mut Wallets,
    blocks: &mut HashMap<BlockHash, Block>,
    now: u64,
    old: Option<&[usize]>,
) -> Result<(), Bad> {
    let mut on = node.confirmed();
    let mut txs = vec![];
    for i in 0..node.w.txs.len() {
        let likely = node.mempool.contains(&i) || old.is_some_and(|v| v.contains(&i));
        if node.fits(i, &on) && r.chance(if likely { 2 } else { 1 }, 3) && txs.len() < 5 {
            on.insert(i);
            txs.push(i);
        }
    }
    let prev = node.chain.last().unwrap().hash;
    let b = block_of(r, prev, now as u32, txs.iter().map(|i| (*node.w.txs[*i].tx).clone()).collect());
    let hash = b.block_hash();
    blocks.insert(hash, b.clone());
    for i in &txs {
        node.mempool.remove(i);
        node.ever.insert(*i);
    }
    let height = node.chain.len() as u32;
    node.chain.push(NBlock { hash, txs: txs.clone() });
    wal.block(r, o, &b, height, &txs)
}
