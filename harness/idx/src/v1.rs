use crate::world::*;
use bdk_chain::{ConfirmationBlockTime, Merge, TxGraph};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{scan::Scanner, SpOut};
use bitcoin::secp256k1::PublicKey;
use bitcoin::{Network, OutPoint, ScriptBuf, Transaction, TxOut, Txid};
use indexer::{PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet};
use kit::{bad, ensure, run, Bad, Rng, Spec};
use serde_json::json;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

type A = ConfirmationBlockTime;

pub struct Src {
    pub map: Rc<HashMap<OutPoint, TxOut>>,
    pub calls: Rc<Cell<u64>>,
}
impl PrevoutSource for Src {
    fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        self.calls.set(self.calls.get() + 1);
        tx.input.iter().map(|i| self.map[&i.previous_output].clone()).collect()
    }
}

pub fn src(w: &World) -> Src {
    Src { map: Rc::new(w.prev.clone()), calls: Rc::new(Cell::new(0)) }
}

pub fn scanner(w: &World, labels: &[u32]) -> Scanner {
    Scanner::new(w.rv.scan, w.rv.spend_pk(), w.label_map(labels))
}

#[derive(Default, Clone)]
pub struct Model {
    pub spouts: BTreeMap<OutPoint, SpOut>,
    pub secrets: BTreeMap<Txid, PublicKey>,
}

pub fn compare(m: &Model, ix: &SpIndexes, when: &str) -> Result<(), Bad> {
    for (op, s) in &m.spouts {
        match ix.spouts.get(op) {
            None => return bad("payment-missed", format!("{when}: output {op} belongs to the wallet (label {:?}) but is not indexed", s.label)),
            Some(x) => ensure!(x == s, "wrong-spout", "{when}: output {op} indexed as {x:?}, should be {s:?}"),
        }
    }
    for op in ix.spouts.keys() {
        ensure!(m.spouts.contains_key(op), "foreign-output", "{when}: output {op} is indexed but not the wallet's");
    }
    let by_label: BTreeSet<(Option<u32>, SpOut)> = m.spouts.values().map(|s| (s.label, s.clone())).collect();
    ensure!(by_label == ix.label_to_spout, "label-index", "{when}: outputs by label are {:?}, should be {by_label:?}", ix.label_to_spout);
    // two transactions spending the same coins may pay the same script: either output will do
    let scripts: BTreeSet<ScriptBuf> = m.spouts.values().map(|s| s.script_pubkey.clone()).collect();
    let got: BTreeSet<ScriptBuf> = ix.script_to_spout.keys().cloned().collect();
    ensure!(scripts == got, "script-index", "{when}: indexed scripts are {got:?}, should be {scripts:?}");
    for (s, x) in &ix.script_to_spout {
        ensure!(x.script_pubkey == *s && m.spouts.get(&x.outpoint) == Some(x), "script-index", "{when}: script {s} is mapped to {x:?}");
    }
    ensure!(
        ix.txid_to_shared_secret == m.secrets,
        "shared-secrets",
        "{when}: shared secrets are {:?}, should be {:?}",
        ix.txid_to_shared_secret,
        m.secrets
    );
    Ok(())
}

pub fn c18() -> i32 {
    run(
        Spec {
            prop: "C18",
            rule: "history of index_tx calls in which at least one payment was found and one unrelated transaction left no trace; distinct by (order, label and kind pattern of the history)",
            quick: 1500,
            thorough: 20000,
            require: &[("indexed", 9000), ("paying", 3000), ("unrelated", 1000), ("no_tweak", 200), ("repeats", 1000), ("spends", 500), ("relevance_checks", 9000), ("labels_added_later", 200)],
            assumptions: &["secp256k1 and rust-bitcoin are correct", "prevout source answers truthfully"],
            threads: 0,
        },
        |r, o, _| {
            let mut w = World::new(r, 0);
            let n = r.range(3, 12);
            w.grow(r, n);
            let all = w.rv.labels.clone();
            let mut reg = subset(r, &all);
            let mut order: Vec<usize> = (0..w.txs.len()).collect();
            let mode = r.below(3);
            match mode {
                0 => {}
                1 => order.reverse(),
                _ => r.shuffle(&mut order),
            }
            for _ in 0..r.below(5) {
                let x = r.below(w.txs.len());
                let at = r.below(order.len() + 1);
                order.insert(at, x);
            }
            let s = src(&w);
            let calls = s.calls.clone();
            let mut ixr: SpIndexer<Src, A> = SpIndexer::new(s, scanner(&w, &reg), SpIndexes::default(), TxGraph::default());
            let mut m = Model::default();
            let mut seen: BTreeSet<Txid> = BTreeSet::new();
            let mut pattern = format!("{mode}");
            let (mut paying, mut unrelated) = (0, 0);
            for (step, ti) in order.iter().enumerate() {
                // a label registered in the middle of the history
                if reg.len() < all.len() && r.chance(1, 6) {
                    let l = *all.iter().find(|l| !reg.contains(l)).unwrap();
                    reg.push(l);
                    ixr.scanner = scanner(&w, &reg);
                    o.count("labels_added_later");
                }
                let t = &w.txs[*ti];
                let want = w.spouts(t, t.tweak.as_ref(), &reg);
                let before = ixr.indexes.clone();
                let graph_before = ixr.tx_graph.clone();
                let when = format!("step {step} ({:?} {})", t.kind, t.txid);
                o.count("indexed");
                let cs = match ixr.index_tx(&t.tx) {
                    Ok(cs) => cs,
                    Err(e) => return bad("index-error", format!("{when}: indexing failed: {e}")),
                };
                let first = !want.is_empty() && !m.secrets.contains_key(&t.txid);
                for s in &want {
                    m.spouts.insert(s.outpoint, s.clone());
                }
                if !want.is_empty() {
                    m.secrets.entry(t.txid).or_insert_with(|| w.ecdh(t.tweak.as_ref().unwrap()));
                    o.count("paying");
                    paying += 1;
                }
                compare(&m, &ixr.indexes, &when)?;
                if first {
                    ensure!(cs.txs.iter().any(|x| x.compute_txid() == t.txid), "tx-not-in-changeset", "{when}: a new payment, but the change set lacks the transaction");
                } else {
                    ensure!(cs.is_empty(), "changeset-without-change", "{when}: nothing new, but a change set came back");
                    ensure!(graph_before == ixr.tx_graph, "graph-changed", "{when}: nothing new, but the graph changed");
                    if want.is_empty() {
                        ensure!(before == ixr.indexes, "index-changed", "{when}: unrelated transaction changed the index");
                        unrelated += 1;
                        o.count("unrelated");
                        if t.tweak.is_none() {
                            o.count("no_tweak");
                        }
                    }
                }
                if !seen.insert(t.txid) {
                    o.count("repeats");
                }
                pattern.push_str(&format!("{:?}{}", t.kind, want.len()));
                // the graph holds exactly the paying transactions, with the outputs they spend
                let in_graph: BTreeSet<Txid> = ixr.tx_graph.full_txs().map(|n| n.txid).collect();
                let should: BTreeSet<Txid> = m.secrets.keys().copied().collect();
                ensure!(in_graph == should, "graph-content", "{when}: graph holds {in_graph:?}, paying transactions are {should:?}");
                if first {
                    for (i, p) in t.tx.input.iter().zip(&t.prevouts) {
                        ensure!(
                            ixr.tx_graph.get_txout(i.previous_output) == Some(p),
                            "prevout-missing",
                            "{when}: previous output {} of a payment is not known to the graph",
                            i.previous_output
                        );
                    }
                }
                // relevance by spending, for every transaction of the world
                for t in &w.txs {
                    let want = t.tx.input.iter().any(|i| m.spouts.contains_key(&i.previous_output));
                    ensure!(
                        ixr.spends_owned_spouts(&t.tx) == want,
                        "spend-relevance",
                        "{when}: {} spends an indexed output: {want}, index says {}",
                        t.txid,
                        !want
                    );
                    o.count("relevance_checks");
                    if want {
                        o.count("spends");
                    }
                    let mine: Vec<&SpOut> = m.spouts.values().filter(|s| s.outpoint.txid == t.txid).collect();
                    let got: Vec<&SpOut> = ixr.indexes.txouts_in_tx(t.txid).collect();
                    ensure!(mine == got, "txouts-in-tx", "{when}: outputs of {} are {got:?}, should be {mine:?}", t.txid);
                    for vout in 0..t.tx.output.len() as u32 {
                        let op = OutPoint::new(t.txid, vout);
                        let want = m.spouts.get(&op).map(|_| t.tx.output[vout as usize].clone());
                        ensure!(ixr.indexes.txout(op) == want, "txout", "{when}: txout({op}) is {:?}, should be {want:?}", ixr.indexes.txout(op));
                    }
                }
            }
            ensure!(calls.get() > 0, "no-prevouts", "the prevout source was never asked");
            o.distinct(&pattern);
            o.nontrivial = paying > 0 && unrelated > 0;
            if o.nontrivial && r.chance(1, 50) {
                o.sample = Some(json!({"history": pattern, "labels": all, "registered": reg, "owned": m.spouts.len()}));
            }
            Ok(())
        },
    )
}

fn changeset(ix: &SpIndexes) -> SpIndexesChangeSet {
    SpIndexesChangeSet::from(ix.clone())
}

fn merged(parts: &[SpIndexesChangeSet]) -> SpIndexesChangeSet {
    let mut a = SpIndexesChangeSet::default();
    for p in parts {
        a.merge(p.clone());
    }
    a
}

/// Split a change set in single entries.
fn atoms(c: &SpIndexesChangeSet) -> Vec<SpIndexesChangeSet> {
    let mut v = vec![];
    macro_rules! each {
        ($f:ident) => {
            for x in c.$f.clone() {
                let mut p = SpIndexesChangeSet::default();
                p.$f.extend([x]);
                v.push(p);
            }
        };
    }
    each!(spouts);
    each!(script_to_spout);
    each!(txid_to_shared_secret);
    each!(label_to_spout);
    each!(label_to_tweak);
    each!(num_to_label);
    v
}

fn serde_round(c: &SpIndexesChangeSet) -> Result<(), Bad> {
    let j = serde_json::to_string(c).map_err(|e| Bad { sig: "json-write".into(), msg: format!("{e}"), detail: json!(null) })?;
    match serde_json::from_str::<SpIndexesChangeSet>(&j) {
        Ok(x) => ensure!(x == *c, "json-differs", "JSON round trip of a change set gives another one: {j}"),
        Err(e) => return bad("json-read", format!("change set not readable from its own JSON: {e}: {j}")),
    }
    let b = bincode::serialize(c).map_err(|e| Bad { sig: "bincode-write".into(), msg: format!("{e}"), detail: json!(null) })?;
    match bincode::deserialize::<SpIndexesChangeSet>(&b) {
        Ok(x) => ensure!(x == *c, "bincode-differs", "binary round trip of a change set gives another one"),
        Err(e) => return bad("bincode-read", format!("change set not readable from its own binary form: {e}")),
    }
    Ok(())
}

pub fn c19() -> i32 {
    run(
        Spec {
            prop: "C19",
            rule: "history with snapshots at random points whose change sets (merged in random groupings, split to single entries, shuffled where independent, serialized) all rebuild the index; distinct by shape of history and grouping",
            quick: 1000,
            thorough: 12000,
            require: &[("snapshots", 1800), ("restored", 1900), ("merge_laws", 2000), ("atoms", 8000), ("serde", 2500), ("continued", 1000), ("graph_rebuilt", 900)],
            assumptions: &["serde_json and bincode are correct"],
            threads: 0,
        },
        |r, o, _| {
            let mut w = World::new(r, 0);
            let n = r.range(2, 9);
            w.grow(r, n);
            let all = w.rv.labels.clone();
            let code = SilentPaymentCode::new_v0(w.rv.scan_pk(), w.rv.spend_pk(), Network::Regtest);
            let mut ixr: SpIndexer<Src, A> = SpIndexer::new(src(&w), scanner(&w, &all), SpIndexes::default(), TxGraph::default());
            let mut pending: Vec<u32> = all.clone();
            let mut snaps: Vec<SpIndexesChangeSet> = vec![];
            let mut graphs = vec![];
            let mut pattern = String::new();
            let mut m = Model::default();
            let stop = r.range(1, w.txs.len());
            for (i, t) in w.txs.iter().enumerate().take(stop) {
                while !pending.is_empty() && r.chance(1, 2) {
                    let l = pending.pop().unwrap();
                    if let Err(e) = ixr.indexes.add_label(code.clone(), w.rv.scan, l) {
                        return bad("add-label", format!("label {l} refused: {e}"));
                    }
                }
                match ixr.index_tx(&t.tx) {
                    Ok(cs) => graphs.push(cs),
                    Err(e) => return bad("index-error", format!("{e}")),
                }
                let want = w.spouts(t, t.tweak.as_ref(), &all);
                for s in &want {
                    m.spouts.insert(s.outpoint, s.clone());
                }
                if !want.is_empty() {
                    m.secrets.insert(t.txid, w.ecdh(t.tweak.as_ref().unwrap()));
                }
                if r.chance(1, 2) || i + 1 == stop {
                    snaps.push(changeset(&ixr.indexes));
                    o.count("snapshots");
                }
                pattern.push_str(&format!("{:?}{}.", t.kind, want.len()));
            }
            let orig = ixr.indexes.clone();
            // snapshots merged in order restore the index: content, labels and all
            let all_merged = merged(&snaps);
            let back = SpIndexes::from(all_merged.clone());
            ensure!(back == orig, "restore-differs", "index restored from its merged change sets differs from the original");
            compare(&m, &back, "restored")?;
            for l in &all {
                ensure!(back.get_label(*l) == orig.get_label(*l), "label-lost", "label {l} is not the same after a restore");
                if !pending.contains(l) {
                    ensure!(
                        back.get_label(*l).map(|x| x.to_be_bytes()) == Some(kit::model::label_hash(&w.rv.scan, *l)),
                        "label-lost",
                        "label {l} is lost or wrong after a restore"
                    );
                }
            }
            o.count("restored");
            // any grouping, any split in single entries, in any order (entries are independent), twice
            let last = changeset(&orig);
            let mut at = atoms(&last);
            o.add("atoms", at.len() as u64);
            if r.chance(1, 2) {
                let again: Vec<_> = at.iter().filter(|_| r.chance(1, 4)).cloned().collect();
                at.extend(again);
            }
            r.shuffle(&mut at);
            for a in &at {
                ensure!(!a.is_empty(), "nonempty-is-empty", "a change set with content counts as empty: {a:?}");
            }
            let mut acc = SpIndexes::default();
            let mut i = 0;
            let mut groups = vec![];
            while i < at.len() {
                let n = r.range(1, 7).min(at.len() - i);
                let mut g = merged(&at[i..i + n]);
                if r.chance(1, 3) {
                    // through a serialized form
                    let j = serde_json::to_vec(&g).unwrap();
                    g = match serde_json::from_slice(&j) {
                        Ok(g) => g,
                        Err(e) => return bad("json-read", format!("{e}")),
                    };
                }
                groups.push(g.clone());
                // one by one: persisted aggregate = previous state + change set
                let mut c = changeset(&acc);
                c.merge(g);
                acc = SpIndexes::from(c);
                i += n;
            }
            ensure!(acc == orig, "one-by-one-differs", "change sets applied one by one in another grouping rebuild another index");
            ensure!(SpIndexes::from(merged(&groups)) == orig, "grouping-differs", "merging groups of change sets rebuilds another index");
            o.count("restored");
            // laws on arbitrary change sets of this history
            let pick = |r: &mut Rng| -> SpIndexesChangeSet {
                match r.below(4) {
                    0 => SpIndexesChangeSet::default(),
                    1 => snaps[r.below(snaps.len())].clone(),
                    2 if !groups.is_empty() => groups[r.below(groups.len())].clone(),
                    _ => {
                        let v: Vec<_> = at.iter().filter(|_| r.chance(1, 3)).cloned().collect();
                        merged(&v)
                    }
                }
            };
            for _ in 0..3 {
                let (a, b, c) = (pick(r), pick(r), pick(r));
                let mut ab = a.clone();
                ab.merge(b.clone());
                let mut ab_c = ab.clone();
                ab_c.merge(c.clone());
                let mut bc = b.clone();
                bc.merge(c.clone());
                let mut a_bc = a.clone();
                a_bc.merge(bc);
                ensure!(ab_c == a_bc, "not-associative", "merging is not associative");
                let mut a0 = a.clone();
                a0.merge(SpIndexesChangeSet::default());
                let mut z = SpIndexesChangeSet::default();
                z.merge(a.clone());
                ensure!(a0 == a && z == a, "no-identity", "the empty change set is not neutral");
                let mut aa = a.clone();
                aa.merge(a.clone());
                ensure!(aa == a, "not-idempotent", "merging a change set twice is not the same as once");
                ensure!(a.is_empty() == (a == SpIndexesChangeSet::default()), "is-empty", "is_empty is {} for {a:?}", a.is_empty());
                // nothing of either side gets lost
                for part in [&a, &b] {
                    for x in atoms(part) {
                        // of two outputs with the same script, the map by script names the later one
                        if x.script_to_spout.keys().any(|k| ab.script_to_spout.get(k).is_some() && ab.script_to_spout.get(k) == b.script_to_spout.get(k) && a.script_to_spout.get(k) != b.script_to_spout.get(k)) {
                            o.count("scripts_paid_twice");
                            continue;
                        }
                        let mut y = ab.clone();
                        y.merge(x.clone());
                        ensure!(y == ab, "merge-loses", "merging lost an entry: {x:?}");
                    }
                }
                serde_round(&ab)?;
                o.count("serde");
                o.count("merge_laws");
            }
            // the restored index goes on as the original does
            let mut gcs = bdk_chain::tx_graph::ChangeSet::<A>::default();
            for g in &graphs {
                gcs.merge(g.clone());
            }
            let g2: TxGraph<A> = TxGraph::from_changeset(gcs);
            ensure!(g2 == ixr.tx_graph, "graph-differs", "the graph rebuilt from the returned change sets differs from the original");
            o.count("graph_rebuilt");
            let mut two: SpIndexer<Src, A> = SpIndexer::new(src(&w), scanner(&w, &all), back, g2);
            for t in w.txs.iter() {
                let a = ixr.index_tx(&t.tx);
                let b = two.index_tx(&t.tx);
                match (a, b) {
                    (Ok(a), Ok(b)) => ensure!(a == b, "continue-differs", "original and restored index report different changes for {}", t.txid),
                    (Err(_), Err(_)) => {}
                    _ => return bad("continue-differs", format!("only one of original and restored index failed on {}", t.txid)),
                }
                o.count("continued");
            }
            ensure!(two.indexes == ixr.indexes && two.tx_graph == ixr.tx_graph, "continue-differs", "original and restored index diverge");
            o.distinct(&format!("{pattern}|{}|{}", snaps.len(), groups.len()));
            o.nontrivial = !m.spouts.is_empty();
            if o.nontrivial && r.chance(1, 50) {
                o.sample = Some(json!({"history": pattern, "snapshots": snaps.len(), "groups": groups.len(), "entries": at.len()}));
            }
            Ok(())
        },
    )
}

