//! C25: the light client against a failing tweak server. The node's filter events, the blocks and
//! the server are the monitors'; the subscribers between them are the real code, and so is the
//! index the matches are fed to.
use crate::filters::{header, runtime};
use crate::server::{self, Fault, Shared, State};
use crate::world::World;
use bip157::{Event, HeaderCheckpoint, IndexedFilter, SyncUpdate};
use bitcoin::bip158::BlockFilter;
use bitcoin::secp256k1::PublicKey;
use bitcoin::{Amount, Block, BlockHash, OutPoint, ScriptBuf, Transaction, TxIn, TxOut, Txid};
use indexer::bdk_chain::ConfirmationBlockTime;
use indexer::v2::SpIndexerV2;
use kit::run::bad;
use kit::{ensure, Bad, Obs, Rng, Spec};
use oracles::filters::kyoto::FilterSubscriber;
use oracles::tweaks::blindbit::{BlindbitClient, BlindbitSubscriber, TweakEvent};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::TcpListener;
use tokio::sync::mpsc::unbounded_channel;

const DUST: u64 = 1000;
const STALL: Duration = Duration::from_secs(75);
/// how long a server may be silent before the client has to have asked again
const SILENCE: Duration = Duration::from_secs(150);

struct Scratch(PathBuf);
impl Scratch {
    fn new(case: u64) -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = PathBuf::from("/dev/shm");
        let base = if base.is_dir() { base } else { std::env::temp_dir() };
        let p = base.join(format!("vp-orc-{}-{case}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The subscriber opens its database in the current directory.
static CWD: Mutex<()> = Mutex::new(());

struct Blk {
    height: u32,
    block: Block,
    txs: Vec<usize>,
    /// tweaks of transactions which are none of the wallet's business
    crowd: Vec<(PublicKey, u64)>,
    filter: Vec<u8>,
}

struct Chain {
    w: World,
    blocks: Vec<Blk>,
    by_hash: HashMap<BlockHash, Block>,
    base: u32,
}

fn coinbase(r: &mut Rng) -> Transaction {
    let script = ScriptBuf::from_bytes(r.bytes::<8>().to_vec());
    Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input: vec![TxIn { previous_output: OutPoint::null(), script_sig: script, ..Default::default() }],
        output: vec![TxOut { value: Amount::from_sat(5000), script_pubkey: ScriptBuf::from_bytes({
            let mut v = vec![0, 20];
            v.extend(r.bytes::<20>());
            v
        }) }],
    }
}

impl Chain {
    fn tip(&self) -> u32 {
        self.base + self.blocks.len() as u32
    }
    fn mine(&mut self, r: &mut Rng, txs: Vec<usize>) {
        let mut block = Block { header: header(r), txdata: vec![coinbase(r)] };
        if let Some(b) = self.blocks.last() {
            block.header.prev_blockhash = b.block.block_hash();
        }
        block.txdata.extend(txs.iter().map(|i| (*self.w.txs[*i].tx).clone()));
        block.header.merkle_root = block.compute_merkle_root().unwrap();
        let prev = &self.w.prev;
        let filter = BlockFilter::new_script_filter(&block, |o| {
            prev.get(o).map(|t| t.script_pubkey.clone()).ok_or(bitcoin::bip158::Error::UtxoMissing(*o))
        })
        .expect("all prevouts known")
        .content;
        self.by_hash.insert(block.block_hash(), block.clone());
        let mut crowd = vec![];
        if r.chance(if txs.is_empty() { 1 } else { 5 }, 30) {
            let n = *r.pick(&[20, 64, 101, 260, 700, 1500]);
            let mut k = r.sk().public_key(kit::model::secp());
            let step = r.sk().public_key(kit::model::secp());
            for _ in 0..n {
                k = k.combine(&step).unwrap();
                crowd.push((k, r.range(330, 100_000) as u64));
            }
        }
        self.blocks.push(Blk { height: self.tip() + 1, block, txs, crowd, filter });
    }
    fn tweaks_of(&self, b: &Blk) -> Vec<(PublicKey, u64)> {
        let mut all: Vec<(PublicKey, u64)> = b
            .txs
            .iter()
            .filter_map(|i| {
                let t = &self.w.txs[*i];
                let max = t.tx.output.iter().filter(|o| o.script_pubkey.is_p2tr()).map(|o| o.value.to_sat()).max()?;
                Some((t.tweak?, max))
            })
            .collect();
        if !b.crowd.is_empty() {
            all.extend(&b.crowd);
            // the wallet's are anywhere among them
            all.sort_by_key(|t| t.0.x_only_public_key().0.serialize());
        }
        all
    }
    fn event(b: &Blk) -> Event {
        Event::IndexedFilter(IndexedFilter::for_monitor(b.height, b.filter.clone(), b.block.block_hash()))
    }
    /// Does the transaction pay the wallet, in the eyes of a server which leaves out dust?
    fn pays(&self, i: usize, dust: u64) -> bool {
        let t = &self.w.txs[i];
        t.tweak.is_some()
            && (0..t.tx.output.len()).any(|v| self.w.coins.contains_key(&OutPoint::new(t.txid, v as u32)))
            && t.tx.output.iter().filter(|o| o.script_pubkey.is_p2tr()).any(|o| o.value.to_sat() >= dust)
    }
}

enum Got {
    Match(BlockHash, HashMap<[u8; 34], PublicKey>),
    Synced(u32, BlockHash),
}

struct RunResult {
    log: Vec<Got>,
    stalled: bool,
    panicked: Option<String>,
    ended_early: bool,
}

/// Waits by the machine's clock: the runtime's own may be a fast one.
async fn within<F: std::future::Future>(f: F, limit: Duration) -> Result<F::Output, ()> {
    let start = Instant::now();
    let mut f = std::pin::pin!(f);
    loop {
        match tokio::time::timeout(Duration::from_millis(100).min(limit), &mut f).await {
            Ok(x) => return Ok(x),
            Err(_) if start.elapsed() >= limit => return Err(()),
            Err(_) => {}
        }
    }
}

/// One run of both subscribers over the given steps of the node.
#[allow(clippy::too_many_arguments)]
fn run_client(
    rt: &tokio::runtime::Runtime,
    dir: &std::path::Path,
    unspent: Vec<[u8; 34]>,
    indexer: SpIndexerV2<ConfirmationBlockTime>,
    st: &Shared,
    birthday: u32,
    steps: Vec<Step>,
    prefix: &str,
    slash: bool,
    stops_at_once: bool,
    stall: Duration,
) -> RunResult {
    rt.block_on(async {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = l.local_addr().unwrap();
        let url = format!("http://{addr}{prefix}{}", if slash { "/" } else { "" });
        let srv = tokio::spawn(server::serve(l, st.clone(), prefix.to_string()));
        let (etx, erx) = unbounded_channel();
        let (ctx, crx) = unbounded_channel();
        let (mtx, mut mrx) = unbounded_channel();
        let (mut bb, buf) = {
            let _g = CWD.lock().unwrap_or_else(|e| e.into_inner());
            std::env::set_current_dir(dir).unwrap();
            let r = BlindbitSubscriber::new(unspent, indexer, url, crx, mtx).unwrap();
            std::env::set_current_dir("/").unwrap();
            r
        };
        let mut fs = FilterSubscriber::new(buf, erx, ctx, birthday);
        let fs = tokio::spawn(async move {
            let _ = fs.run().await;
        });
        let bb = tokio::spawn(async move { bb.run().await });
        let syncs = steps.iter().filter(|s| matches!(s, Step::Event(Event::FiltersSynced(_)))).count();
        let st2 = st.clone();
        let node = tokio::spawn(async move {
            for s in steps {
                match s {
                    Step::Event(e) => {
                        let _ = etx.send(e);
                    }
                    Step::Pause(us) => tokio::time::sleep(Duration::from_micros(us)).await,
                    Step::Server(t) => st2.lock().unwrap().tweaks = t,
                }
            }
            // the node keeps running until everything is handed on, or stops after its last message
            (!stops_at_once).then_some(etx)
        });
        let mut log = vec![];
        let mut seen_syncs = 0;
        let (mut stalled, mut ended_early) = (false, false);
        let mut active = Instant::now();
        let mut reqs = 0;
        while seen_syncs < syncs {
            match tokio::time::timeout(Duration::from_millis(500), mrx.recv()).await {
                Ok(Some(TweakEvent::Matches((h, m)))) => {
                    log.push(Got::Match(h, m));
                    active = Instant::now();
                }
                Ok(Some(TweakEvent::Synced(b))) => {
                    log.push(Got::Synced(b.height, b.hash));
                    seen_syncs += 1;
                    active = Instant::now();
                }
                Ok(None) => {
                    // whatever is missing is found below
                    ended_early = !stops_at_once;
                    break;
                }
                Err(_) => {
                    let n = st.lock().unwrap().log.len();
                    if n != reqs {
                        reqs = n;
                        active = Instant::now();
                    }
                    if active.elapsed() > stall {
                        stalled = true;
                        break;
                    }
                }
            }
        }
        if stalled {
            node.abort();
        }
        // the node stops, everything ends
        drop(node.await);
        if !stalled {
            while let Ok(Some(e)) = within(mrx.recv(), stall).await {
                match e {
                    TweakEvent::Matches((h, m)) => log.push(Got::Match(h, m)),
                    TweakEvent::Synced(b) => log.push(Got::Synced(b.height, b.hash)),
                }
            }
        }
        let mut panicked = None;
        for j in [fs, bb] {
            match within(j, if stalled { Duration::from_millis(10) } else { stall }).await {
                Ok(Err(e)) if e.is_panic() => panicked = Some(format!("{e}")),
                Err(_) => stalled = true,
                _ => {}
            }
        }
        srv.abort();
        let _ = srv.await;
        RunResult { log, stalled, panicked, ended_early }
    })
}

enum Step {
    Event(Event),
    Pause(u64),
    Server(BTreeMap<u32, Vec<(PublicKey, u64)>>),
}

/// What the consumer of matches does with them: fetch the block, feed the index.
fn consume(
    ix: &mut SpIndexerV2<ConfirmationBlockTime>,
    block: &Block,
    height: u32,
    map: &HashMap<[u8; 34], PublicKey>,
) {
    let mut secrets = HashMap::<Txid, PublicKey>::new();
    for tx in &block.txdata {
        let t = tx
            .output
            .iter()
            .filter(|o| o.script_pubkey.is_p2tr())
            .find_map(|o| map.get(&<[u8; 34]>::try_from(o.script_pubkey.as_bytes()).unwrap()));
        if let Some(t) = t {
            secrets.insert(tx.compute_txid(), *t);
        }
    }
    let _ = ix.apply_block_relevant(block, secrets, height);
}

fn tweak_map(c: &Chain) -> BTreeMap<u32, Vec<(PublicKey, u64)>> {
    c.blocks.iter().map(|b| (b.height, c.tweaks_of(b))).collect()
}

/// While this lives, the subscribers' waits on this thread are short.
struct Fast;
impl Fast {
    fn new() -> Self {
        bip157::tokio::time::fast_sleeps(true);
        Fast
    }
}
impl Drop for Fast {
    fn drop(&mut self) {
        bip157::tokio::time::fast_sleeps(false);
    }
}

fn light_client(r: &mut Rng, obs: &mut Obs, case: u64, directed_same_run: bool, outage: bool, silent: bool) -> Result<(), Bad> {
    let rt = if outage {
        // the waits between attempts pass quickly
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        runtime(r)
    };
    let _fast = outage.then(Fast::new);
    let mut w = World::new(r, 0);
    w.small = true;
    w.reuse = (0, 1);
    let base = match r.below(3) {
        0 => 0,
        _ => r.below(800_000) as u32,
    };
    let mut c = Chain { w, blocks: vec![], by_hash: HashMap::new(), base };
    let mut ix = SpIndexerV2::<ConfirmationBlockTime>::new(c.w.rv.scan, c.w.rv.spend_pk());
    for l in c.w.rv.labels.clone() {
        let _ = ix.add_label(l);
    }
    let dir = Scratch::new(case);
    let st: Shared = Arc::new(Mutex::new(State { style: r.next(), ..Default::default() }));
    let prefix = *r.pick(&["", "", "/api", "/v1/signet"]);
    let slash = r.chance(1, 2);
    let rate = *r.pick(&[0, 10, 40, 80]);
    let runs = if directed_same_run || silent { 1 } else { r.range(1, 3) };
    // spent ones are no longer given to the client; what it was told and what it can know
    let mut known_spent: HashSet<OutPoint> = HashSet::new();
    let mut missed_spends: BTreeSet<Txid> = BTreeSet::new();
    let mut birthday = base + 1;
    let long = !directed_same_run && !outage && !silent && r.chance(1, 25);
    // a wallet with many coins, some of them spent in the second run
    let rich = !directed_same_run && !outage && !silent && !long && r.chance(1, 7);
    let runs = if rich { runs.max(2) } else { runs };
    for run in 0..runs {
        // the coins the wallet has seen and knows no spend of
        let mut unspent = vec![];
        let mut given = HashSet::new();
        for op in c.w.coins.keys() {
            if ix.index().by_shared_secret_has(op) && !known_spent.contains(op) {
                given.insert(*op);
                unspent.push(<[u8; 34]>::try_from(c.w.coins[op].txout.script_pubkey.as_bytes()).unwrap());
            }
        }
        r.shuffle(&mut unspent);
        let fork = c.blocks.len();
        let first_tx = c.w.txs.len();
        if directed_same_run {
            // paid and spent within one run; the spend pays nothing back
            c.w.pay(r);
            let paid = c.w.txs[first_tx].txid;
            let s = loop {
                let Some(s) = c.w.spend(r) else {
                    c.w.used.clear();
                    continue;
                };
                if !c.pays(s, 0) && c.w.txs[s].tx.input.iter().any(|x| x.previous_output.txid == paid) {
                    break s;
                }
            };
            c.mine(r, vec![first_tx]);
            c.mine(r, vec![]);
            c.mine(r, vec![s]);
        } else {
            let n = if long { r.range(1000, 1300) } else { r.range(1, 14) };
            let t = match (long, rich && run == 0) {
                (true, _) => 30,
                (_, true) => r.range(15, 60),
                _ => r.range(0, 14),
            };
            for _ in 0..t {
                // amounts around the limit below which the server leaves tweaks out
                c.w.cap = *r.pick(&[1_000_000_000, 1_000_000_000, 999, 1000, 1200, 3000, 30_000]);
                if if rich && run == 0 { false } else { r.chance(1, 3) } {
                    if c.w.spend(r).is_none() {
                        c.w.pay(r);
                    }
                } else if r.chance(1, 4) {
                    c.w.noise(r);
                } else {
                    c.w.pay(r);
                }
            }
            let mut slots: Vec<Vec<usize>> = vec![vec![]; n];
            let mut at = 0;
            let total = c.w.txs.len() - first_tx;
            for (k, i) in (first_tx..c.w.txs.len()).enumerate() {
                // in order, a payment before its spend
                let lo = at;
                let hi = ((k + 1) * n).div_ceil(total.max(1)).min(n - 1);
                at = if hi > lo { r.range(lo, hi) } else { lo };
                slots[at].push(i);
            }
            for s in slots {
                c.mine(r, s);
            }
        }
        let mut steps = vec![];
        let serve_before = tweak_map(&c);
        st.lock().unwrap().tweaks = serve_before;
        let pause = r.below(3);
        let mut sync_after: Vec<(u32, BlockHash)> = vec![];
        let push = |steps: &mut Vec<Step>, e: Event, r: &mut Rng| {
            steps.push(Step::Event(e));
            if pause == 1 && r.chance(1, 3) {
                steps.push(Step::Pause(r.below(3000) as u64));
            }
        };
        let synced = |steps: &mut Vec<Step>, h: u32, hash: BlockHash| {
            steps.push(Step::Event(Event::FiltersSynced(SyncUpdate { tip: HeaderCheckpoint::new(h, hash), recent_history: BTreeMap::new() })));
        };
        // sometimes the node reports old filters too: below the birthday they are not wanted
        let from = if r.chance(1, 2) { fork } else { fork.saturating_sub(2) };
        for b in &c.blocks[from..] {
            push(&mut steps, Chain::event(b), r);
        }
        // a reorganization replaces the last blocks before or after a first sync
        let reorg = !directed_same_run && !long && r.chance(1, 3);
        if reorg {
            let d = r.range(1, 4).min(c.blocks.len() - fork);
            if r.chance(1, 2) {
                let b = c.blocks.last().unwrap();
                synced(&mut steps, b.height, b.block.block_hash());
                sync_after.push((b.height, b.block.block_hash()));
                steps.push(Step::Pause(r.below(60_000) as u64));
            }
            let old = c.blocks.split_off(c.blocks.len() - d);
            let mut back: Vec<usize> = old.iter().flat_map(|b| b.txs.clone()).collect();
            let n = d + r.below(3);
            let at = c.blocks.len();
            for k in 0..n {
                let take = if k + 1 == n { back.len() } else { r.below(back.len() + 1) };
                let txs: Vec<usize> = back.drain(..take).collect();
                c.mine(r, txs);
            }
            steps.push(Step::Server(tweak_map(&c)));
            for b in &c.blocks[at..] {
                push(&mut steps, Chain::event(b), r);
            }
        }
        let tipb = c.blocks.last().unwrap();
        let tip = (tipb.height, tipb.block.block_hash());
        synced(&mut steps, tip.0, tip.1);
        sync_after.push(tip);
        {
            let mut s = st.lock().unwrap();
            s.log.clear();
            let heights: Vec<u32> = c.blocks.iter().map(|b| b.height).filter(|h| *h >= birthday).collect();
            s.faults = server::plan(r, heights.iter().copied(), if long { 1 } else { rate });
            if outage {
                // the server is away for long, as a whole or for some heights
                let longest = *r.pick(&[5, 8, 12, 20, 60, 250]);
                let whole = r.chance(1, 2);
                let same = r.chance(1, 2);
                for h in &heights {
                    if whole || r.chance(1, 4) || *h == tip.0 {
                        let f = *r.pick(server::FAULTS);
                        let n = r.range(longest / 2, longest);
                        s.faults.insert(*h, (0..n).map(|_| if same { f } else { *r.pick(server::FAULTS) }).collect());
                        obs.count(if n >= 100 { "outages_of_100_and_more" } else if n > 5 { "outages_of_6_and_more" } else { "short_outages" });
                    }
                }
                obs.count("outages");
                // should the waits not be quick after all, the server comes back
                s.healed = Some(Instant::now() + Duration::from_secs(20));
            }
            if silent {
                // some requests are never answered, or only in part
                let h = *r.pick(&heights);
                s.faults.insert(h, vec![Fault::Silence]);
            }
            s.delay_ms.clear();
            for h in &heights {
                if !long && r.chance(1, 3) {
                    s.delay_ms.insert(*h, r.below(25) as u64);
                }
            }
        }
        if unspent.len() > 16 {
            obs.count("runs_with_over_16_coins");
        }
        if unspent.len() > 50 {
            obs.count("runs_with_over_50_coins");
        }
        obs.note(format!("run {run}: birthday {birthday}, tip {}, {} blocks, reorg {reorg}, fault rate {rate}", tip.0, c.blocks.len() - fork));
        let stops_at_once = r.chance(1, 2);
        if stops_at_once {
            obs.count("nodes_stopped_at_once");
        }
        for b in c.blocks.iter().filter(|b| b.height >= birthday && !b.crowd.is_empty()) {
            obs.count("crowded_blocks");
            if b.txs.iter().any(|i| c.pays(*i, DUST)) {
                obs.count("payments_in_crowded_blocks");
            }
        }
        let res = run_client(&rt, &dir.0, unspent.clone(), ix.clone(), &st, birthday, steps, prefix, slash, stops_at_once, if silent { SILENCE } else { STALL });
        {
            let s = st.lock().unwrap();
            obs.add("requests", s.log.len() as u64);
            for (_, f) in &s.log {
                if let Some(f) = f {
                    obs.count("faults");
                    obs.count(&format!("fault_{f:?}"));
                    obs.distinct(&format!("{f:?}-{}", s.max_parallel.min(8)));
                }
            }
            if s.gone_early {
                obs.count("outages_cut_short");
            }
            ensure!(s.unexpected.is_empty(), "unexpected-request", "the tweak server was asked for {:?}", s.unexpected);
        }
        if let Some(p) = res.panicked {
            return bad("died", format!("a subscriber panicked: {p}"));
        }
        ensure!(!res.stalled, "stalled", "nothing was delivered and nothing asked for a long time, the tip was not announced");
        ensure!(!res.ended_early, "ended", "the subscribers ended before the tip was announced although the node ran on");

        // judge the deliveries
        let secp_spks = |i: usize| -> Vec<[u8; 34]> {
            let t = &c.w.txs[i];
            t.tx.output
                .iter()
                .enumerate()
                .filter(|(v, _)| c.w.coins.contains_key(&OutPoint::new(t.txid, *v as u32)))
                .map(|(_, o)| <[u8; 34]>::try_from(o.script_pubkey.as_bytes()).unwrap())
                .collect()
        };
        let mut syncs = vec![];
        let mut delivered: Vec<BlockHash> = vec![];
        let mut before_tip: HashSet<BlockHash> = HashSet::new();
        for g in &res.log {
            match g {
                Got::Synced(h, hash) => syncs.push((*h, *hash)),
                Got::Match(hash, map) => {
                    obs.count("matches");
                    ensure!(!delivered.contains(hash), "delivered-twice", "block {hash} was delivered twice");
                    delivered.push(*hash);
                    if syncs.len() < sync_after.len() {
                        before_tip.insert(*hash);
                    }
                    let Some(block) = c.by_hash.get(hash) else {
                        return bad("unknown-block", format!("a match was delivered for {hash}, no such block"));
                    };
                    if let Some(b) = c.blocks.iter().find(|b| b.block.block_hash() == *hash) {
                        ensure!(b.height >= birthday, "below-birthday", "block {} delivered, birthday {birthday}", b.height);
                        // every tweak of the map belongs to the scripts it is given for
                        let tweaks: HashSet<PublicKey> = c.tweaks_of(b).iter().map(|t| t.0).collect();
                        for (spk, t) in map {
                            ensure!(tweaks.contains(t), "foreign-tweak", "the tweak given for a script of block {} is not one of the block", b.height);
                            let owner: Vec<usize> = b.txs.iter().copied().filter(|i| c.w.txs[*i].tweak == Some(*t)).collect();
                            for i in &b.txs {
                                if secp_spks(*i).contains(spk) {
                                    ensure!(owner.contains(i), "wrong-tweak", "a script of block {} is mapped to the tweak of another transaction", b.height);
                                }
                            }
                        }
                        for i in b.txs.iter().filter(|i| c.pays(**i, DUST)) {
                            let t = &c.w.txs[*i];
                            let ok = secp_spks(*i).iter().any(|s| map.get(s) == t.tweak.as_ref());
                            ensure!(ok, "tweak-missing", "block {} was delivered without the tweak of {} which pays the wallet", b.height, t.txid);
                        }
                        // nothing the wallet asked for is in the block?
                        let mut asked: Vec<[u8; 34]> = unspent.clone();
                        asked.extend(map.keys());
                        let f = BlockFilter::new(&b.filter);
                        let m = !asked.is_empty() && f.match_any(hash, asked.into_iter()).unwrap();
                        ensure!(m, "no-match", "block {} was delivered, its filter matches nothing of the wallet", b.height);
                    }
                    let height = c.blocks.iter().find(|b| b.block.block_hash() == *hash).map(|b| b.height);
                    if let Some(h) = height {
                        consume(&mut ix, block, h, map);
                    }
                }
            }
        }
        ensure!(syncs == sync_after, "wrong-tips", "the node synced to {sync_after:?}, announced were {syncs:?}");
        let order: Vec<u32> = delivered.iter().filter_map(|d| c.blocks.iter().find(|b| b.block.block_hash() == *d).map(|b| b.height)).collect();
        ensure!(order.windows(2).all(|p| p[0] < p[1]), "out-of-order", "blocks delivered in the order {order:?}");
        let reported = c.blocks[from].height;
        for b in c.blocks.iter().filter(|b| b.height >= birthday && b.height >= reported) {
            let hash = b.block.block_hash();
            let pays: Vec<usize> = b.txs.iter().copied().filter(|i| c.pays(*i, DUST)).collect();
            let spends: Vec<usize> = b.txs.iter().copied().filter(|i| c.w.txs[*i].tx.input.iter().any(|x| given.contains(&x.previous_output))).collect();
            let same_run: Vec<usize> = b.txs.iter().copied().filter(|i| {
                c.w.txs[*i].tx.input.iter().any(|x| c.w.coins.contains_key(&x.previous_output) && !given.contains(&x.previous_output))
            }).collect();
            let got = before_tip.contains(&hash);
            obs.add("payments", pays.len() as u64);
            obs.add("spends_of_given", spends.len() as u64);
            if !spends.is_empty() && pays.is_empty() {
                obs.count("blocks_with_only_spends");
            }
            if c.tweaks_of(b).is_empty() && !spends.is_empty() {
                obs.count("spends_in_blocks_without_tweaks");
            }
            ensure!(got || pays.is_empty(), "payment-missed", "run {run}: block {} pays the wallet and was not delivered before the tip", b.height);
            ensure!(got || spends.is_empty(), "spend-missed", "run {run}: block {} spends a coin the client was given and was not delivered before the tip", b.height);
            if !got && !same_run.is_empty() {
                if directed_same_run {
                    return bad("same-run-spend-missed", format!("block {} spends a coin received earlier in the same run and was not delivered", b.height));
                }
                obs.count("same_run_spends_missed");
                missed_spends.extend(same_run.iter().map(|i| c.w.txs[*i].txid));
            }
            if pays.is_empty() && spends.is_empty() {
                obs.count(if got { "other_blocks_delivered" } else { "other_blocks_not_delivered" });
            }
        }
        // and the wallet ends up with what it was paid
        for (op, coin) in &c.w.coins {
            let i = c.w.txs.iter().position(|t| t.txid == op.txid).unwrap();
            let Some(b) = c.blocks.iter().find(|b| b.txs.contains(&i)) else { continue };
            if b.height < birthday && run == 0 || !c.pays(i, DUST) {
                continue;
            }
            let has = ix.index().by_shared_secret_has(op);
            // a transaction without the tweak of the server is known as a spend only
            ensure!(has, "coin-missed", "the coin {op} ({}) was not found", coin.txout.value);
            obs.count("coins_checked");
            for t in c.w.txs.iter().filter(|t| t.tx.input.iter().any(|x| x.previous_output == *op)) {
                let mined = c.blocks.iter().any(|b| b.txs.iter().any(|j| c.w.txs[*j].txid == t.txid));
                let seen = ix.graph().get_tx(t.txid).is_some();
                if mined && !missed_spends.contains(&t.txid) {
                    ensure!(seen, "spend-not-indexed", "the spend {} of {op} was not indexed", t.txid);
                    obs.count("spends_checked");
                }
                if seen {
                    known_spent.insert(*op);
                }
            }
        }
        obs.count("runs");
        birthday = tip.0;
    }
    obs.nontrivial = true;
    obs.sample = Some(serde_json::json!({"blocks": c.blocks.len(), "txs": c.w.txs.len(), "runs": runs, "coins": c.w.coins.len(), "fault_rate": rate}));
    Ok(())
}

trait Has {
    fn by_shared_secret_has(&self, op: &OutPoint) -> bool;
}
impl Has for indexer::v2::indexes::SpIndex {
    fn by_shared_secret_has(&self, op: &OutPoint) -> bool {
        self.by_shared_secret.contains_key(op)
    }
}

/// The other questions a client asks the server.
fn questions(r: &mut Rng, obs: &mut Obs) -> Result<(), Bad> {
    let rt = runtime(r);
    let st: Shared = Arc::new(Mutex::new(State { style: r.next(), ..Default::default() }));
    let key = r.sk().public_key(kit::model::secp());
    let dusty = r.sk().public_key(kit::model::secp());
    st.lock().unwrap().tweaks.insert(9, vec![(key, 700), (dusty, 600)]);
    let prefix = *r.pick(&["", "/api", "/a/b"]);
    let slash = r.chance(1, 2);
    rt.block_on(async {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = format!("http://{}{prefix}{}", l.local_addr().unwrap(), if slash { "/" } else { "" });
        let srv = tokio::spawn(server::serve(l, st.clone(), prefix.to_string()));
        let Ok(cl) = BlindbitClient::new(url.clone()) else { return bad("url", format!("{url} refused")) };
        match cl.block_height().await {
            Ok(h) => ensure!(h.to_consensus_u32() == 812_345, "height", "the server's height is 812345, got {h}"),
            Err(e) => return bad("height", format!("{e:?}")),
        }
        match cl.info().await {
            Ok(i) => ensure!(
                i.height.to_consensus_u32() == 812_345 && i.network == bitcoin::Network::Signet && i.tweaks_only && !i.tweaks_full_with_dust_filter
                    && i.tweaks_full_basic && i.tweaks_cut_through_with_dust_filter,
                "info", "{i:?}"
            ),
            Err(e) => return bad("info", format!("{e:?}")),
        }
        match cl.tweaks(9, Amount::from_sat(650)).await {
            Ok(t) => ensure!(t == vec![key], "tweaks", "tweaks above the limit: {t:?}"),
            Err(e) => return bad("tweaks", format!("{e:?}")),
        }
        for f in server::FAULTS {
            st.lock().unwrap().faults.insert(9, vec![*f]);
            let a = cl.tweaks(9, Amount::from_sat(0)).await;
            // connection level faults may be retried by the HTTP client itself
            if let Ok(t) = a {
                ensure!(t == vec![key, dusty], "fault-unreported", "the server failed with {f:?}, the client reports {} tweaks", t.len());
            }
            obs.count("failed_answers");
            st.lock().unwrap().faults.clear();
        }
        ensure!(BlindbitClient::new("not a url".into()).is_err(), "url", "an invalid URL was accepted");
        srv.abort();
        Ok(())
    })
}

pub fn c25() -> i32 {
    kit::run::run(
        Spec {
            prop: "C25",
            rule: "distinct pairs of server fault and number of parallel requests met by the subscribers, with every delivery, coin and spend judged",
            quick: 160,
            thorough: 4000,
            require: &[("matches", 300), ("payments", 300), ("faults", 200), ("coins_checked", 300), ("spends_checked", 30), ("runs", 150), ("failed_answers", 30), ("fault_Silence", 4)],
            assumptions: &[
                "the filter events and the blocks are made by the monitors; the index the matches are fed to is checked by C20",
                "the server follows the node's chain and leaves out tweaks of transactions whose taproot outputs are all below 1000 sat, as the client asks",
                "spends are looked for of the coins known when the run begins",
            ],
            threads: 16,
        },
        |r, obs, i| match i % 40 {
            // first, they take the longest
            _ if i % 160 < 4 => light_client(r, obs, i, false, false, true),
            38 => questions(r, obs),
            39 => light_client(r, obs, i, true, false, false),
            n => light_client(r, obs, i, false, n % 6 == 5, false),
        },
    )
}
