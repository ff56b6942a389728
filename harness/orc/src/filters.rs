//! C24: what the filter subscriber hands on, checked against what the node reported.
use bip157::chain::{BlockHeaderChanges, IndexedHeader};
use bip157::{BlockHash, Event, HeaderCheckpoint, IndexedFilter, SyncUpdate};
use bitcoin::block::{Header, Version};
use bitcoin::hashes::Hash;
use bitcoin::{CompactTarget, TxMerkleNode};
use kit::run::bad;
use kit::{ensure, Bad, Obs, Rng, Spec};
use oracles::filters::kyoto::{DatabaseBuffer, FilterEvent, FilterSubscriber, UpdateError, TABLE_DEF};
use redb::Database;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc::unbounded_channel;

pub fn header(r: &mut Rng) -> Header {
    Header {
        version: Version::TWO,
        prev_blockhash: BlockHash::from_byte_array(r.bytes()),
        merkle_root: TxMerkleNode::from_byte_array(r.bytes()),
        time: r.u32(),
        bits: CompactTarget::from_consensus(0x207f_ffff),
        nonce: r.u32(),
    }
}

#[derive(Clone, Debug)]
enum In {
    Filter(u32, Header, Vec<u8>),
    Synced(u32, BlockHash),
    Other(Box<Event>),
}

enum Out {
    Changes(BTreeMap<u32, BlockHash>),
    Tip(u32, BlockHash),
}

struct Gen {
    r: Rng,
    chain: Vec<(u32, Header)>,
    evs: Vec<In>,
    next: u32,
}

impl Gen {
    fn content(&mut self) -> Vec<u8> {
        let n = self.r.range(1, 40);
        self.r.vec(n)
    }
    fn connect(&mut self, n: usize, shuffled: bool) {
        let mut batch = vec![];
        for _ in 0..n {
            let h = header(&mut self.r);
            self.chain.push((self.next, h));
            if self.r.chance(1, 3) {
                let ih = IndexedHeader { height: self.next, header: h };
                self.evs.push(In::Other(Box::new(Event::ChainUpdate(BlockHeaderChanges::Connected(ih)))));
            }
            let c = self.content();
            batch.push(In::Filter(self.next, h, c));
            self.next += 1;
        }
        if shuffled {
            self.r.shuffle(&mut batch);
        }
        self.evs.extend(batch);
    }
    fn sync(&mut self) {
        if let Some((h, hd)) = self.chain.last() {
            self.evs.push(In::Synced(*h, hd.block_hash()));
        }
    }
    fn reorg(&mut self) {
        let d = self.r.range(1, 6).min(self.chain.len());
        if d == 0 {
            return;
        }
        let old = self.chain.split_off(self.chain.len() - d);
        self.next -= d as u32;
        let at = self.evs.len();
        let shuffled = self.r.chance(1, 5);
        let n = d + self.r.below(3);
        self.connect(n, shuffled);
        let ix = |v: &[(u32, Header)]| v.iter().map(|(height, header)| IndexedHeader { height: *height, header: *header }).collect();
        let accepted = ix(&self.chain[self.chain.len() - n..]);
        let e = Event::ChainUpdate(BlockHeaderChanges::Reorganized { accepted, reorganized: ix(&old) });
        self.evs.insert(at, In::Other(Box::new(e)));
    }
    /// The node reports filters of its chain again.
    fn rescan(&mut self) {
        if self.chain.is_empty() {
            return;
        }
        let n = self.r.range(1, self.chain.len().min(30));
        let from = self.chain.len() - n;
        let known: HashMap<BlockHash, Vec<u8>> = self
            .evs
            .iter()
            .filter_map(|e| match e {
                In::Filter(_, h, c) => Some((h.block_hash(), c.clone())),
                _ => None,
            })
            .collect();
        for (h, hd) in self.chain[from..].to_vec() {
            self.evs.push(In::Filter(h, hd, known[&hd.block_hash()].clone()));
        }
    }
}

fn history(r: &mut Rng) -> (u32, Vec<In>) {
    let start = match r.below(4) {
        0 => 0,
        1 => 709_632,
        _ => r.below(900_000) as u32,
    };
    let mut g = Gen { r: r.clone(), chain: vec![], evs: vec![], next: start };
    let birthday = match g.r.below(4) {
        0 => 0,
        1 => start,
        2 => start + g.r.below(20) as u32,
        _ => start + 1,
    };
    let big = g.r.chance(1, 6);
    for _ in 0..g.r.range(1, 12) {
        match g.r.below(10) {
            0..=3 => {
                let n = if big && g.r.chance(1, 2) {
                    // around the sizes at which ranges fill up
                    *g.r.pick(&[499usize, 998, 999, 1000, 1001, 1999, 2000, 2001])
                } else {
                    g.r.below(25)
                };
                let s = g.r.chance(1, 5);
                g.connect(n, s);
            }
            4..=6 => g.sync(),
            7 | 8 => g.reorg(),
            _ => g.rescan(),
        }
    }
    if g.r.chance(3, 4) {
        g.sync();
    }
    if g.r.chance(1, 4) {
        // the node stops with some filters after the last sync
        let n = g.r.below(10);
        g.connect(n, false);
    }
    let evs = g.evs;
    *r = g.r;
    (birthday, evs)
}

fn to_event(e: &In) -> Event {
    match e {
        In::Filter(h, hd, c) => Event::IndexedFilter(IndexedFilter::for_monitor(*h, c.clone(), hd.block_hash())),
        In::Synced(height, hash) => Event::FiltersSynced(SyncUpdate {
            tip: HeaderCheckpoint::new(*height, *hash),
            recent_history: BTreeMap::new(),
        }),
        In::Other(e) => (**e).clone(),
    }
}

pub fn runtime(r: &mut Rng) -> tokio::runtime::Runtime {
    if r.chance(1, 2) {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap()
    }
}

fn memory_db() -> Arc<Mutex<Database>> {
    Arc::new(Mutex::new(
        Database::builder().create_with_backend(redb::backends::InMemoryBackend::new()).unwrap(),
    ))
}

fn stored(db: &Arc<Mutex<Database>>, h: u32) -> Option<Vec<u8>> {
    let read = db.lock().unwrap().begin_read().unwrap();
    let t = read.open_table(TABLE_DEF).ok()?;
    let v = t.get(&h).unwrap();
    v.map(|v| v.value())
}

const STALL: Duration = Duration::from_secs(60);

fn delivered(r: &mut Rng, obs: &mut Obs) -> Result<(), Bad> {
    let (birthday, evs) = history(r);
    let rt = runtime(r);
    let pace = r.below(3);
    let db = memory_db();
    let (etx, erx) = unbounded_channel();
    let (ctx, mut crx) = unbounded_channel();
    let mut contents: HashMap<u32, HashSet<Vec<u8>>> = HashMap::new();
    for e in &evs {
        if let In::Filter(h, _, c) = e {
            contents.entry(*h).or_default().insert(c.clone());
        }
    }
    let yields: Vec<usize> = evs.iter().map(|_| r.below(4)).collect();
    let feed = evs.clone();
    let db2 = db.clone();
    let (log, end, early) = rt.block_on(async move {
        let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db2.clone()), erx, ctx, birthday);
        // its end of the channel goes away with the subscriber
        let sub = tokio::spawn(async move { sub.run().await });
        let node = tokio::spawn(async move {
            for (e, y) in feed.iter().zip(yields) {
                let _ = etx.send(to_event(e));
                match pace {
                    0 => {}
                    1 => {
                        for _ in 0..y {
                            tokio::task::yield_now().await;
                        }
                    }
                    _ => {
                        if matches!(e, In::Synced(..)) {
                            tokio::time::sleep(Duration::from_micros(200 * y as u64)).await;
                        }
                    }
                }
            }
        });
        let mut log = vec![];
        let mut early: Option<Bad> = None;
        loop {
            match tokio::time::timeout(STALL, crx.recv()).await {
                Err(_) => {
                    early = Some(bad::<()>("stalled", "the filter subscriber neither ended nor delivered").unwrap_err());
                    break;
                }
                Ok(None) => break,
                Ok(Some(FilterEvent::Tip(t))) => log.push(Out::Tip(t.height, t.hash)),
                Ok(Some(FilterEvent::Changes(c))) => {
                    for h in c.writes.keys() {
                        let ok = stored(&db2, *h).is_some_and(|v| contents.get(h).is_some_and(|s| s.contains(&v)));
                        if !ok && early.is_none() {
                            early = bad::<()>("not-stored", format!("the filter of height {h} was handed on but is not stored")).err();
                        }
                    }
                    log.push(Out::Changes(c.writes));
                }
            }
        }
        let _ = node.await;
        let end = tokio::time::timeout(STALL, sub).await;
        (log, end, early)
    });
    if let Some(b) = early {
        return Err(b);
    }
    match end {
        Err(_) => return bad("stalled", "the filter subscriber did not end after the node stopped"),
        Ok(Err(e)) => return bad("died", format!("the filter subscriber panicked: {e}")),
        Ok(Ok(Err(UpdateError::NodeStopped))) => {}
        Ok(Ok(other)) => return bad("wrong-end", format!("the node stopped, the subscriber reported {other:?}")),
    }

    // offline check of the log, one sync round after another
    let mut rest = log.iter().peekable();
    let mut last_delivered: BTreeMap<u32, BlockHash> = BTreeMap::new();
    let mut latest: BTreeMap<u32, (BlockHash, Vec<u8>)> = BTreeMap::new();
    let mut round: HashMap<(u32, BlockHash), usize> = HashMap::new();
    let (mut syncs, mut superseded) = (0u64, 0u64);
    let mut all = evs.iter().cloned().map(Some).collect::<Vec<_>>();
    all.push(None);
    for e in all {
        match e {
            Some(In::Other(_)) => {}
            Some(In::Filter(h, hd, c)) => {
                if h >= birthday {
                    let hash = hd.block_hash();
                    if latest.get(&h).is_some_and(|(o, _)| *o != hash) {
                        superseded += 1;
                    }
                    latest.insert(h, (hash, c));
                    *round.entry((h, hash)).or_default() += 1;
                }
            }
            sync_or_end => {
                // take the deliveries up to the tip of this round (all that are left at the end)
                let mut tip = None;
                while let Some(o) = rest.next() {
                    match o {
                        Out::Changes(w) => {
                            obs.count("ranges");
                            obs.add("filters_delivered", w.len() as u64);
                            if w.len() > 999 {
                                obs.count("full_ranges");
                            }
                            for (h, hash) in w {
                                ensure!(*h >= birthday, "below-birthday", "filter of height {h} delivered, birthday {birthday}");
                                match round.get_mut(&(*h, *hash)) {
                                    Some(n) if *n > 0 => *n -= 1,
                                    Some(_) => return bad("delivered-twice", format!("the filter of block {hash} at {h} was delivered more often than the node reported it")),
                                    None => return bad("not-reported", format!("the filter of block {hash} at {h} was delivered in a round in which the node did not report it")),
                                }
                                last_delivered.insert(*h, *hash);
                            }
                        }
                        Out::Tip(h, hash) => {
                            tip = Some((*h, *hash));
                            break;
                        }
                    }
                }
                match sync_or_end {
                    Some(In::Synced(h, hash)) => {
                        syncs += 1;
                        ensure!(tip.is_some(), "tip-missing", "the node synced to {h}, no tip was handed on");
                        ensure!(tip == Some((h, hash)), "wrong-tip", "the node synced to {h} {hash}, the tip handed on is {tip:?}");
                        for (h, (hash, _)) in &latest {
                            let got = last_delivered.get(h);
                            ensure!(got.is_some(), "filter-lost", "the filter of height {h} was not delivered before the tip");
                            ensure!(got == Some(hash), "stale-filter", "at height {h} the filter of {got:?} was delivered last, the node's latest is {hash}");
                        }
                        for (h, (_, c)) in &latest {
                            if rest.peek().is_none() && pace == 2 {
                                // nothing more was written after this tip
                                let s = stored(&db, *h);
                                if syncs as usize == evs.iter().filter(|e| matches!(e, In::Synced(..))).count() && evs.last().is_some_and(|e| matches!(e, In::Synced(..))) {
                                    ensure!(s.as_ref() == Some(c), "stored-stale", "the database does not hold the latest filter of height {h}");
                                    obs.count("stored_filters_checked");
                                }
                            }
                        }
                        round.clear();
                    }
                    _ => ensure!(tip.is_none(), "tip-unasked", "a tip {tip:?} was handed on without the node having synced"),
                }
            }
        }
    }
    ensure!(rest.next().is_none(), "tip-unasked", "more was handed on than the node reported");
    // whatever was delivered last is what the database holds
    for (h, hash) in &last_delivered {
        let s = stored(&db, *h);
        let want = evs.iter().any(|e| matches!(e, In::Filter(eh, hd, c) if eh == h && hd.block_hash() == *hash && Some(c) == s.as_ref()));
        ensure!(want, "stored-wrong", "height {h}: the database does not hold the filter of the block delivered last");
    }
    obs.add("syncs", syncs);
    obs.add("superseded_filters", superseded);
    obs.nontrivial = syncs > 0 && !last_delivered.is_empty();
    obs.distinct(&format!("{}-{}-{}-{}", evs.len(), syncs, superseded, log.len()));
    obs.sample = Some(serde_json::json!({"events": evs.len(), "birthday": birthday, "syncs": syncs, "ranges_and_tips": log.len(), "superseded": superseded}));
    Ok(())
}

/// The consumer goes away at some point: the subscriber has to notice and say so.
fn consumer_gone(r: &mut Rng, obs: &mut Obs) -> Result<(), Bad> {
    let (birthday, mut evs) = history(r);
    let rt = runtime(r);
    let db = memory_db();
    let (etx, erx) = unbounded_channel();
    let (ctx, mut crx) = unbounded_channel();
    let takes = r.below(4);
    let spin = if r.chance(1, 2) { 0 } else { r.below(200) };
    if !evs.iter().any(|e| matches!(e, In::Synced(..))) {
        evs.push(In::Synced(5, BlockHash::all_zeros()));
    }
    let (end, taken) = rt.block_on(async move {
        let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db), erx, ctx, birthday);
        let sub = tokio::spawn(async move { sub.run().await });
        for e in &evs {
            let _ = etx.send(to_event(e));
        }
        let mut taken = 0;
        for _ in 0..takes {
            // the receiver may go away right between two deliveries
            if let Ok(Some(_)) = tokio::time::timeout(Duration::from_millis(20), crx.recv()).await {
                taken += 1;
            }
        }
        for _ in 0..spin {
            std::hint::spin_loop();
        }
        drop(crx);
        // the next delivery cannot be made
        let _ = etx.send(to_event(&In::Synced(7, BlockHash::all_zeros())));
        let end = tokio::time::timeout(STALL, sub).await;
        drop(etx);
        (end, taken)
    });
    match end {
        Err(_) => bad("consumer-gone-unnoticed", "the consumer went away, the subscriber kept running"),
        Ok(Err(e)) => bad("died", format!("the consumer went away, the subscriber panicked: {e}")),
        Ok(Ok(Err(UpdateError::ChannelClosed))) => {
            obs.count("closed_channels_reported");
            obs.nontrivial = true;
            obs.distinct(&format!("closed-{taken}"));
            Ok(())
        }
        Ok(Ok(other)) => bad("wrong-end", format!("the consumer went away, the subscriber reported {other:?}")),
    }
}

pub fn c24() -> i32 {
    kit::run::run(
        Spec {
            prop: "C24",
            rule: "distinct shapes of event histories (events, syncs, superseded filters, deliveries) run through the filter subscriber with every delivery and stored filter judged, plus ends of the channels",
            quick: 4000,
            thorough: 60000,
            require: &[("filters_delivered", 20000), ("superseded_filters", 300), ("syncs", 300), ("closed_channels_reported", 20), ("stored_filters_checked", 500)],
            assumptions: &["the filter events are made by the monitors, in the order and shape the bip157 node of version 0.2.0 emits them", "the database is redb with its in-memory backend"],
            threads: 0,
        },
        |r, obs, i| {
            if i % 8 == 7 {
                consumer_gone(r, obs)
            } else {
                delivered(r, obs)
            }
        },
    )
}
