//! C26: what the wallet shows after any history of blocks, reorganisations and interrupted scans.
use crate::cli::Cli;
use crate::node::{Ask, Fault, Node, State};
use crate::world::World;
use bitcoin::block::{Header, Version};
use bitcoin::hashes::Hash;
use bitcoin::{Block, BlockHash, CompactTarget, Network, OutPoint, Transaction, TxMerkleNode, TxOut, Txid};
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// What a wallet that followed some chain has to know.
#[derive(Clone, PartialEq)]
pub struct Wal {
    pub chain: Vec<BlockHash>,
    pub known: BTreeSet<usize>,
    /// Coins and their labels.
    pub coins: BTreeMap<OutPoint, Option<u32>>,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Balance {
    pub confirmed: u64,
    pub trusted: u64,
    pub untrusted: u64,
}

pub struct Sim<'a> {
    pub cli: &'a Cli,
    pub w: World,
    pub node: Node,
    pub by_id: HashMap<Txid, usize>,
    /// Transactions of each block.
    pub content: HashMap<BlockHash, Vec<usize>>,
    /// Where the wallet may be, given the scans that ended early.
    pub wals: Vec<Wal>,
    pub reg: Vec<u32>,
    pub time: u32,
    /// Transactions that have not been in a block yet are eligible below this index.
    pub known_txs: usize,
}

fn coinbase(r: &mut Rng) -> Transaction {
    Transaction {
        version: bitcoin::transaction::Version(2),
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input: vec![bitcoin::TxIn {
            previous_output: OutPoint::null(),
            script_sig: kit::gen::spk(r.vec(8)),
            sequence: bitcoin::Sequence::MAX,
            witness: Default::default(),
        }],
        output: vec![TxOut { value: bitcoin::Amount::from_sat(5_000_000_000), script_pubkey: kit::gen::foreign_output(r) }],
    }
}

pub fn block_of(r: &mut Rng, prev: BlockHash, time: u32, txs: Vec<Transaction>) -> Block {
    let mut txdata = vec![coinbase(r)];
    txdata.extend(txs);
    let mut b = Block {
        header: Header {
            version: Version::TWO,
            prev_blockhash: prev,
            merkle_root: TxMerkleNode::all_zeros(),
            time,
            bits: CompactTarget::from_consensus(0x207f_ffff),
            nonce: r.u32(),
        },
        txdata,
    };
    b.header.merkle_root = b.compute_merkle_root().unwrap();
    b
}

/// A world for the keys of this wallet.
pub fn world(r: &mut Rng, cli: &Cli) -> Result<World, Bad> {
    r.vout_mask = 0x1ff;
    let mut w = World::new(r, 0);
    w.wide = (1, 80);
    let Some((scan, spend)) = cli.keys() else { return bad("keys", "the descriptors do not parse") };
    w.rv.scan = scan;
    w.rv.spend = spend;
    if !w.rv.labels.contains(&0) {
        w.rv.labels.push(0);
    }
    w.small = true;
    Ok(w)
}

impl<'a> Sim<'a> {
    pub fn new(r: &mut Rng, cli: &'a Cli, w: World) -> Self {
        let genesis = bitcoin::constants::genesis_block(cli.net);
        let g = genesis.block_hash();
        let mut st = State { clock_file: cli.dir.0.join("clock"), ..Default::default() };
        st.blocks.insert(g, (genesis, 0));
        st.chain.push(g);
        st.set_clock(0);
        let mut s = Self {
            cli,
            node: Node::start(st),
            by_id: HashMap::new(),
            content: HashMap::from([(g, vec![])]),
            wals: vec![Wal { chain: vec![g], known: BTreeSet::new(), coins: BTreeMap::new() }],
            reg: vec![0],
            time: 1_700_000_000 + r.below(1000) as u32,
            known_txs: 0,
            w,
        };
        s.sync_world();
        s
    }

    /// Tell the node about the transactions of the world.
    pub fn sync_world(&mut self) {
        let mut st = self.node.st();
        for (i, t) in self.w.txs.iter().enumerate().skip(self.known_txs) {
            self.by_id.insert(t.txid, i);
            st.txs.insert(t.txid, (*t.tx).clone());
        }
        self.known_txs = self.w.txs.len();
        for (op, o) in &self.w.prev {
            st.prev.entry(op.txid).or_default().insert(op.vout, o.clone());
        }
    }

    pub fn chain(&self) -> Vec<BlockHash> {
        self.node.st().chain.clone()
    }

    pub fn on(&self, chain: &[BlockHash]) -> BTreeSet<usize> {
        chain.iter().flat_map(|h| self.content[h].iter().copied()).collect()
    }

    pub fn parents(&self, i: usize) -> Vec<usize> {
        self.w.txs[i].tx.input.iter().filter_map(|x| self.by_id.get(&x.previous_output.txid).copied()).collect()
    }

    pub fn conflicts(&self, i: usize, j: usize) -> bool {
        i != j && self.w.txs[i].tx.input.iter().any(|a| self.w.txs[j].tx.input.iter().any(|b| a.previous_output == b.previous_output))
    }

    pub fn fits(&self, i: usize, on: &BTreeSet<usize>) -> bool {
        let t = &self.w.txs[i];
        !on.contains(&i)
            && self.parents(i).iter().all(|p| on.contains(p))
            && !on.iter().any(|j| self.conflicts(i, *j))
            // labels that payments use are registered before
            && self.w.expected(t, t.tweak.as_ref(), &self.w.rv.labels) == self.w.expected(t, t.tweak.as_ref(), &self.reg)
    }

    /// A block on `chain`, with transactions that fit; `must` ones first.
    pub fn mine(&mut self, r: &mut Rng, chain: &mut Vec<BlockHash>, must: &[usize], old: &BTreeSet<usize>, max: usize) {
        let mut on = self.on(chain);
        let mut txs = vec![];
        for i in must {
            if self.fits(*i, &on) {
                on.insert(*i);
                txs.push(*i);
            }
        }
        let mut order: Vec<usize> = (0..self.w.txs.len()).collect();
        if r.chance(1, 3) {
            r.shuffle(&mut order);
        }
        for i in order {
            let likely = old.contains(&i);
            if txs.len() < max && self.fits(i, &on) && r.chance(if likely { 3 } else { 2 }, 4) {
                on.insert(i);
                txs.push(i);
            }
        }
        self.time += r.range(1, 1200) as u32;
        let b = block_of(r, *chain.last().unwrap(), self.time, txs.iter().map(|i| (*self.w.txs[*i].tx).clone()).collect());
        let h = b.block_hash();
        self.node.st().blocks.insert(h, (b, chain.len() as u32));
        self.content.insert(h, txs);
        chain.push(h);
    }

    /// Another best chain, longer than the present one.
    pub fn fork(&mut self, r: &mut Rng, from: &[BlockHash]) -> Option<Vec<BlockHash>> {
        if from.len() < 2 {
            return None;
        }
        let depth = r.range(1, 4).min(from.len() - 1);
        let mut chain = from[..from.len() - depth].to_vec();
        let old: BTreeSet<usize> = self.on(&from[from.len() - depth..]);
        let most = if r.chance(1, 4) { 1 } else { r.range(1, 5) };
        for _ in 0..depth + r.range(1, 2) {
            let max = r.below(most);
            self.mine(r, &mut chain, &[], &old, max);
        }
        Some(chain)
    }

    pub fn connect(&self, v: &mut Wal, hash: BlockHash) {
        {
            let st = self.node.st();
            let mut h = st.blocks[&hash].1 as usize;
            v.chain.resize(h + 1, hash);
            v.chain[h] = hash;
            // the blocks below come with it, also those the wallet never looks at
            while h > 0 && v.chain[h - 1] != st.blocks[&v.chain[h]].0.header.prev_blockhash {
                v.chain[h - 1] = st.blocks[&v.chain[h]].0.header.prev_blockhash;
                h -= 1;
            }
        }
        for i in &self.content[&hash] {
            let t = &self.w.txs[*i];
            for m in self.w.expected(t, t.tweak.as_ref(), &self.reg) {
                v.coins.insert(OutPoint::new(t.txid, m.vout), m.label);
            }
            let own = v.coins.keys().any(|o| o.txid == t.txid) || t.tx.input.iter().any(|x| v.coins.contains_key(&x.previous_output));
            if own {
                v.known.insert(*i);
            }
        }
    }

    /// Balance of a wallet that knows this; none if it depends on which of two conflicting
    /// transactions, neither on the best chain, is preferred.
    pub fn canonical(&self, v: &Wal) -> Option<(BTreeSet<usize>, BTreeSet<usize>)> {
        // what a reorganisation moves to before the birthday is not looked at again
        let on = self.on(v.chain.get(self.cli.birthday..).unwrap_or_default());
        let mut conf: BTreeSet<usize> = v.known.intersection(&on).copied().collect();
        // where a transaction is confirmed, those it spends from are
        loop {
            let more: Vec<usize> = conf.iter().flat_map(|i| self.parents(*i)).filter(|p| v.known.contains(p) && !conf.contains(p)).collect();
            if more.is_empty() {
                break;
            }
            conf.extend(more);
        }
        let on = &on | &conf;
        let mut stale: BTreeSet<usize> = v.known.difference(&on).copied().collect();
        loop {
            let drop: Vec<usize> = stale
                .iter()
                .copied()
                .filter(|i| {
                    conf.iter().any(|j| self.conflicts(*i, *j))
                        || self.parents(*i).iter().any(|p| v.known.contains(p) && !conf.contains(p) && !stale.contains(p))
                })
                .collect();
            if drop.is_empty() {
                break;
            }
            for d in drop {
                stale.remove(&d);
            }
        }
        if stale.iter().any(|i| stale.iter().any(|j| self.conflicts(*i, *j))) {
            return None;
        }
        Some((conf, stale))
    }

    pub fn unspent(&self, v: &Wal) -> Option<Vec<(OutPoint, u64, bool, Option<u32>)>> {
        let (conf, stale) = self.canonical(v)?;
        let mut out = vec![];
        for (op, label) in &v.coins {
            let i = self.by_id[&op.txid];
            if !conf.contains(&i) && !stale.contains(&i) {
                continue;
            }
            let spent = conf.iter().chain(&stale).any(|j| self.w.txs[*j].tx.input.iter().any(|x| x.previous_output == *op));
            if !spent {
                out.push((*op, self.w.txs[i].tx.output[op.vout as usize].value.to_sat(), conf.contains(&i), *label));
            }
        }
        Some(out)
    }

    pub fn balance_of(&self, v: &Wal) -> Option<Balance> {
        let mut b = Balance { confirmed: 0, trusted: 0, untrusted: 0 };
        for (_, v, conf, label) in self.unspent(v)? {
            if conf {
                b.confirmed += v;
            } else if label == Some(0) {
                b.trusted += v;
            } else {
                b.untrusted += v;
            }
        }
        Some(b)
    }

    pub fn scan(&mut self, o: &mut Obs, faults: BTreeMap<usize, Fault>) -> Result<bool, Bad> {
        let before = self.chain();
        self.node.st().begin(faults.clone());
        let args = self.cli.scan_args(&self.w, &self.node);
        let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let out = self.cli.run_with(&args, Some(&self.node));
        let after = self.chain();
        let (log, fired) = {
            let mut st = self.node.st();
            st.faults.clear();
            (st.log.clone(), st.fired.clone())
        };
        for f in &fired {
            o.count(&format!("fault_{f}"));
        }
        o.add("requests", log.len() as u64);
        if out.out.matches("committed to db").count() > 1 {
            o.count("periodic_commits");
        }
        o.note(format!("scan: {fired:?}, exit {:?}, {}", out.code, log.iter().map(|(a, g)| format!("{}{}", match a { Ask::Raw(h) => format!("raw{:?}", self.content[h]), Ask::Hash => "hash".into(), Ask::Info => "info".into(), Ask::Tx => "tx".into(), Ask::Other(m) => m.clone() }, if *g { "" } else { "!" })).collect::<Vec<_>>().join(" ")));
        let benign = fired.iter().all(|f| matches!(*f, "clock" | "reorg"));
        if benign && !out.ok {
            return bad("scan-fails", format!("a scan without faults fails: {}", out.why()));
        }
        if out.killed && !fired.contains(&"kill") {
            // 120 s without an end: no verdict from time alone
            return bad("scan-hangs", format!("the scan did not end within two minutes after {} requests", log.len()));
        }
        // blocks handed to the wallet, and whether the last one was dealt with completely
        let mut blocks: Vec<BlockHash> = vec![];
        let mut busy = false;
        for (a, good) in &log {
            match a {
                Ask::Raw(h) if *good => {
                    if blocks.last() != Some(h) {
                        blocks.push(*h);
                    }
                    busy = true;
                }
                Ask::Tx => {}
                _ => busy = false,
            }
        }
        if !out.ok && busy {
            blocks.pop();
        }
        o.add("blocks_scanned", blocks.len() as u64);
        let mut next: Vec<Wal> = vec![];
        let birthday = self.cli.birthday;
        let start = |v: &Wal, chain: &[BlockHash]| v.chain.iter().zip(chain).take_while(|(a, b)| a == b).count().max(birthday);
        let first = blocks.first().map(|h| self.node.st().blocks[h].1 as usize);
        let starts: Vec<[usize; 2]> = self.wals.iter().map(|v| [start(v, &before), start(v, &after)]).collect();
        let exact = first.is_some_and(|f| starts.iter().any(|s| s.contains(&f)));
        for (v, s) in self.wals.iter().zip(&starts) {
            let fits = match first {
                None => !out.ok || s[0] == before.len() || s[1] == after.len(),
                Some(f) => {
                    if exact {
                        s.contains(&f)
                    } else {
                        s[0] >= f || s[1] >= f
                    }
                }
            };
            if !fits {
                continue;
            }
            let mut v = v.clone();
            if !out.ok && !next.contains(&v) {
                next.push(v.clone());
            }
            for h in &blocks {
                self.connect(&mut v, *h);
                if !out.ok && !next.contains(&v) {
                    next.push(v.clone());
                }
            }
            if out.ok && !next.contains(&v) {
                next.push(v);
            }
        }
        if next.is_empty() {
            return bad(
                "blocks-skipped",
                format!("the wallet was at height {:?} at most, the first block it asked for is {first:?} of {}", self.wals.iter().map(|v| v.chain.len() - 1).max(), after.len() - 1),
            );
        }
        self.wals = next;
        if out.ok {
            let reorged = fired.contains(&"reorg");
            for v in &self.wals {
                ensure!(reorged || v.chain == after, "scan-incomplete", "a scan ends at height {} of {}", v.chain.len() - 1, after.len() - 1);
            }
            o.count("scans_complete");
            // the total printed at the end, if it reads as before
            if let Some(t) = out.out.lines().rev().filter(|l| l.contains(&format!("synced to {} @", self.wals[0].chain.last().unwrap()))).find_map(|l| l.split_once("| total: ")?.1.strip_suffix(" BTC")?.trim().parse::<f64>().ok()) {
                let sat = (t * 1e8).round() as u64;
                let all: Vec<Option<Balance>> = self.wals.iter().map(|v| self.balance_of(v)).collect();
                if all.iter().all(|b| b.is_some()) {
                    let ok = all.iter().flatten().any(|b| b.confirmed + b.trusted + b.untrusted == sat);
                    ensure!(ok, "scan-total", "the scan shows a total of {sat} sat, should be one of {all:?}");
                    o.count("totals_checked");
                }
            }
        } else {
            o.count("scans_interrupted");
        }
        Ok(out.ok)
    }

    pub fn check_balance(&mut self, o: &mut Obs) -> Result<(), Bad> {
        let out = self.cli.must(&["balance"], "balance")?;
        let (Some(c), Some(u)) = (out.field("confirmed"), out.field("unconfirmed")) else {
            return bad("balance-format", format!("balance prints {:?}", out.out));
        };
        let g = |v: &serde_json::Value, k: &str| v[k].as_u64();
        let all: Vec<Option<Balance>> = self.wals.iter().map(|v| self.balance_of(v)).collect();
        if all.iter().any(|b| b.is_none()) {
            o.count("balance_ambiguous");
            return Ok(());
        }
        let hit: Vec<bool> = all
            .iter()
            .map(|b| {
                let b = b.as_ref().unwrap();
                g(&c, "total") == Some(b.confirmed)
                    && g(&c, "spendable") == Some(b.confirmed)
                    && g(&c, "immature") == Some(0)
                    && g(&u, "total") == Some(b.trusted + b.untrusted)
                    && g(&u, "trusted") == Some(b.trusted)
                    && g(&u, "untrusted") == Some(b.untrusted)
            })
            .collect();
        if !hit.contains(&true) {
            return bad(
                "balance",
                format!("the wallet shows confirmed {c} and unconfirmed {u}, should be one of {all:?} (chain of {} blocks)", self.chain().len()),
            );
        }
        // coins once lost never come back: keep what fits
        let mut it = hit.iter();
        self.wals.retain(|_| *it.next().unwrap());
        o.count("balance_checks");
        o.add("coins", self.wals[0].coins.len() as u64);
        if all[0].is_some_and(|b| b.trusted + b.untrusted > 0) {
            o.count("balances_with_pending");
        }
        if self.wals[0].known.iter().any(|i| self.w.txs[*i].tx.input.iter().any(|x| self.wals[0].coins.contains_key(&x.previous_output))) {
            o.count("balances_with_spends");
        }
        Ok(())
    }

    /// `derive-sp-for-tx`: the script of the n-th output to the wallet in a transaction.
    pub fn derive(&mut self, r: &mut Rng, o: &mut Obs) -> Result<(), Bad> {
        let i = r.below(self.w.txs.len());
        let t = &self.w.txs[i];
        let Some(tweak) = &t.tweak else { return Ok(()) };
        let k = if r.chance(3, 4) { r.below(4) as u32 } else { r.edgy_u32() };
        let label = if r.chance(1, 2) { None } else { Some(*r.pick(&self.reg)) };
        let (url, ks, ls) = (format!("127.0.0.1:{}", self.node.port), k.to_string(), label.map(|m| m.to_string()).unwrap_or_default());
        let (id, hex) = (t.txid.to_string(), bitcoin::consensus::encode::serialize_hex(&*t.tx));
        let mut args = vec!["derive-sp-for-tx", "--url", &url, &ks];
        args.extend(if r.chance(1, 2) { ["--txid", &id] } else { ["--tx-hex", &hex] });
        if label.is_some() {
            args.extend(["--label", &ls]);
        }
        let out = self.cli.must(&args, "derive-sp-for-tx")?;
        let ecdh = self.w.ecdh(tweak);
        let p = self.w.rv.b_m(label).combine(&kit::model::point_of(&kit::model::shared_hash(&ecdh, k))).unwrap();
        let want = kit::model::p2tr_spk(&kit::model::xonly(&p)).to_hex_string();
        ensure!(
            out.text("script_pubkey_hex").as_ref() == Some(&want) && out.text("txid").as_ref() == Some(&id),
            "derive",
            "output {k} to label {label:?} of {id} pays {want}, the wallet says {:?}",
            out.text("script_pubkey_hex")
        );
        ensure!(
            out.text("partial_secret").as_ref() == Some(&tweak.to_string()) && out.text("ecdh_shared_secret").as_ref() == Some(&ecdh.to_string()),
            "derive",
            "the tweak data are {tweak} and the shared secret {ecdh}, shown as {:?}",
            out.out
        );
        o.count("derived");
        let m = r.edgy_u32();
        if self.reg.contains(&m) {
            return Ok(());
        }
        // A label the wallet was not told of: it says so, or gives what that label is paid.
        let m_s = m.to_string();
        let out = self.cli.run(&["derive-sp-for-tx", "--url", &url, &ks, "--tx-hex", &hex, "--label", &m_s]);
        if out.ok {
            let p = self.w.rv.b_m(Some(m)).combine(&kit::model::point_of(&kit::model::shared_hash(&ecdh, k))).unwrap();
            let want = kit::model::p2tr_spk(&kit::model::xonly(&p)).to_hex_string();
            ensure!(
                out.text("script_pubkey_hex").as_ref() == Some(&want),
                "derive-unknown",
                "output {k} to label {m}, which the wallet was not told of, of {id}: {want} is right, the wallet says {:?}",
                out.text("script_pubkey_hex")
            );
        }
        o.count("derived-unknown");
        Ok(())
    }

    pub fn register(&mut self, o: &mut Obs, m: u32) -> Result<(), Bad> {
        self.cli.add_label(&self.w, m)?;
        if !self.reg.contains(&m) {
            self.reg.push(m);
        }
        o.count("labels");
        Ok(())
    }
}

pub fn network(r: &mut Rng) -> Network {
    *r.pick(&[Network::Regtest, Network::Regtest, Network::Signet, Network::Testnet, Network::Testnet4, Network::Bitcoin])
}

/// Keys made by `generate` are those it says.
fn generated(r: &mut Rng, o: &mut Obs) -> Result<(), Bad> {
    let net = network(r);
    let mut cli = Cli::new(r, net);
    let g = cli.must(&["generate", "--network", &net.to_string()], "generate")?;
    let (Some(s), Some(p)) = (g.text("private_scan_descriptor"), g.text("private_spend_descriptor")) else {
        return bad("generate", format!("generate prints {:?}", g.out));
    };
    let again = cli.must(&["generate", "--network", &net.to_string()], "generate")?;
    ensure!(again.text("private_spend_descriptor").as_ref() != Some(&p), "generate", "generate makes the same keys twice");
    cli.scan_d = s;
    cli.spend_d = p;
    let Some((a, b)) = cli.keys() else { return bad("generate", "the descriptors generated do not parse") };
    ensure!(a != b, "generate", "scan and spend keys are the same");
    for (d, k) in [(&cli.scan_d, 1), (&cli.spend_d, 0)] {
        let coin = if net == Network::Bitcoin { 0 } else { 1 };
        let path: Vec<&str> = d.split('#').next().unwrap().trim_end_matches(')').split('/').skip(1).collect();
        let want = format!("352'/{coin}'/0'/{k}'/0");
        ensure!(path.join("/").replace('h', "'") == want, "generate", "the key path is {path:?}, BIP352 says {want}");
    }
    let mut w = World::new(r, 0);
    w.wide = (0, 1);
    w.rv.scan = a;
    w.rv.spend = b;
    cli.setup(r, &w)?;
    cli.add_label(&w, r.edgy_u32())?;
    o.count("generated");
    Ok(())
}

/// Blocks, reorganisations, scans and what becomes of them, for one wallet.
pub fn history(r: &mut Rng, o: &mut Obs, cli: &Cli) -> Result<(), Bad> {
    let mut w = world(r, cli)?;
    w.reuse = if r.chance(1, 3) { (1, 3) } else { (0, 1) };
    if r.chance(1, 6) {
        w.dust = (2, 3);
    }
    w.pay(r);
    let n = r.range(3, 12);
    w.grow(r, n);
    cli.setup(r, &w)?;
    let mut s = Sim::new(r, cli, w);
    if cli.two {
        // a wallet is not older than the chain
        let mut chain = s.chain();
        while chain.len() <= cli.birthday {
            let max = r.below(3);
            s.mine(r, &mut chain, &[], &BTreeSet::new(), max);
        }
        s.node.st().chain = chain;
    }
    let mut later: Vec<u32> = s.w.rv.labels.iter().copied().filter(|m| *m != 0).collect();
    r.shuffle(&mut later);
    let wait = if r.chance(1, 2) { 0 } else { r.below(later.len() + 1) };
    for m in later.split_off(wait) {
        s.register(o, m)?;
    }
    let mut pattern = String::new();
    let steps = r.range(5, 12);
    for step in 0..=steps {
        let ev = if step == 0 {
            0
        } else if step == steps {
            99
        } else {
            r.below(16)
        };
        let name = match ev {
            0..=3 => {
                let mut chain = s.chain();
                for _ in 0..r.range(1, 4) {
                    let max = r.below(5);
                    s.mine(r, &mut chain, &[], &BTreeSet::new(), max);
                }
                s.node.st().chain = chain;
                "mine"
            }
            4..=6 => {
                let c = s.chain();
                let Some(f) = s.fork(r, &c) else { continue };
                s.node.st().chain = f;
                o.count("reorgs");
                "reorg"
            }
            7 if cli.two && r.chance(1, 2) => {
                s.derive(r, o)?;
                "derive"
            }
            7 => {
                let Some(m) = later.pop() else { continue };
                s.register(o, m)?;
                "label"
            }
            8 => {
                // again, or shown without being registered
                let m = *r.pick(&s.reg.clone());
                if cli.two && m == 0 {
                    // kept for change
                    let out = cli.run(&["code", "--label", "0"]);
                    ensure!(out.text("silent_payment_code").is_none(), "change-code", "the code for change is given out");
                } else {
                    s.register(o, m)?;
                }
                cli.check_code(&s.w)?;
                if cli.two {
                    cli.check_birthday()?;
                }
                "code"
            }
            _ => {
                let mut faults = BTreeMap::new();
                let c = s.chain();
                let reach = 4 + 5 * (c.len() - s.wals.iter().map(|v| v.chain.len()).min().unwrap().min(c.len()) + 1);
                let at = |r: &mut Rng| r.below(reach);
                if r.chance(1, 3) {
                    for _ in 0..r.range(1, 3) {
                        faults.insert(at(r), Fault::Clock(r.range(1, 200) as u64));
                    }
                }
                let name = match if ev == 99 { 9 } else { r.below(10) } {
                    0 | 1 => {
                        faults.insert(at(r), Fault::Hold);
                        "kill"
                    }
                    2 | 3 => {
                        let f = match r.below(5) {
                            0 => Fault::Http(*r.pick(&[401, 500, 503])),
                            1 => Fault::Close,
                            2 => Fault::Cut,
                            _ => Fault::Rpc(*r.pick(&[-1, -5, -8, -28, -32603])),
                        };
                        faults.insert(at(r), f);
                        "fault"
                    }
                    4 => {
                        if let Some(f) = s.fork(r, &c) {
                            faults.insert(at(r), Fault::Reorg(f));
                        }
                        "scan-reorg"
                    }
                    _ => "scan",
                };
                s.scan(o, faults)?;
                s.check_balance(o)?;
                name
            }
        };
        o.note(format!("{step}: {name}, node at {}, wallet at {:?}", s.chain().len() - 1, s.wals.iter().map(|v| v.chain.len() - 1).collect::<Vec<_>>()));
        pattern.push_str(name);
        pattern.push('.');
    }
    s.scan(o, BTreeMap::new())?;
    s.check_balance(o)?;
    o.distinct(&pattern);
    o.nontrivial = !s.wals[0].coins.is_empty();
    if o.nontrivial && r.chance(1, 30) {
        o.sample = Some(json!({"events": pattern, "coins": s.wals[0].coins.len(), "height": s.chain().len() - 1, "network": cli.net.to_string()}));
    }
    Ok(())
}

pub fn c26() -> i32 {
    run(
        Spec {
            prop: "C26",
            rule: "history of a node (blocks, reorganisations, transactions mined again) and of the wallet process (scans complete, killed at a request, failing on faults, with reorganisations and periodic commits in between, labels registered); after each scan the balance printed equals the model's; distinct by sequence of events",
            quick: 1300,
            thorough: 30000,
            require: &[
                ("balance_checks", 6000), ("scans_complete", 5000), ("scans_interrupted", 600), ("fault_kill", 400), ("fault_reorg", 200), ("fault_clock", 1300),
                ("periodic_commits", 500), ("reorgs", 1500), ("balances_with_pending", 150), ("balances_with_spends", 3000), ("labels", 1400), ("totals_checked", 4500), ("generated", 80),
            ],
            assumptions: &["the node answers truthfully or not at all", "a process is killed while it waits for the node, not while it writes (bdk_file_store does not promise more)"],
            threads: 0,
        },
        |r, o, _| {
            if r.chance(1, 10) {
                o.nontrivial = true;
                return generated(r, o);
            }
            let net = network(r);
            let cli = Cli::new(r, net);
            history(r, o, &cli)
        },
    )
}

pub fn c29() -> i32 {
    run(
        Spec {
            prop: "C29",
            rule: "as C26, for the second program and its wallet: created with random networks and birthdays, histories of blocks and reorganisations, scans complete, killed, failing and reorganised; balance, code, labelled codes, birthday and derived scripts shown are the model's; distinct by sequence of events",
            quick: 900,
            thorough: 20000,
            require: &[
                ("balance_checks", 4000), ("scans_complete", 3500), ("scans_interrupted", 400), ("fault_kill", 250), ("fault_reorg", 150), ("fault_clock", 800),
                ("periodic_commits", 300), ("reorgs", 1000), ("balances_with_pending", 100), ("balances_with_spends", 2000), ("labels", 900), ("derived", 100), ("derived-unknown", 40),
            ],
            assumptions: &["the node answers truthfully or not at all", "a process is killed while it waits for the node, not while it writes", "bdk_tx, which cannot be fetched, is replaced by a stand-in (not used here)"],
            threads: 0,
        },
        |r, o, _| {
            let net = network(r);
            let cli = Cli::create(r, net)?;
            history(r, o, &cli)
        },
    )
}
