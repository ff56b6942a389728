//! C31: scanning with compact block filters, from the program's side: a scripted light node and a
//! tweak server over real sockets, and what the wallet shows after every way a scan can end.
use crate::cli::Cli;
use crate::scan::{world, Sim, Wal};
use bitcoin::bip158::BlockFilter;
use bitcoin::consensus::encode::serialize_hex;
use bitcoin::{BlockHash, Network, OutPoint};
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::net::TcpListener;
use std::sync::{Arc, Mutex};

/// What the light node says, in order.
#[derive(Clone, Debug)]
pub enum Act {
    Filter(u32, BlockHash),
    Synced(u32, BlockHash),
    Info,
    Warn,
    /// The node ends, as when no peer can be reached.
    Stop,
    /// The wallet is killed.
    Hold,
    Nap,
}

/// What becomes of the n-th block asked for.
#[derive(Clone, Copy, Debug)]
pub enum Reply {
    Stop,
    Hold,
    /// The block is no longer on the best chain.
    Unknown,
    /// The same, noticed after the request was queued.
    Forget,
    Nap,
}

#[derive(Default)]
struct Script {
    acts: Vec<Act>,
    replies: BTreeMap<usize, Reply>,
    /// blocks that left the best chain
    gone: BTreeMap<BlockHash, Reply>,
    blocks: HashMap<BlockHash, (u32, String)>,
    filters: HashMap<BlockHash, String>,
    asked: Vec<BlockHash>,
    served: Vec<BlockHash>,
    stopped: bool,
    held: bool,
    /// holding after this many requests for tweaks
    tweak_hold: Option<usize>,
    tweaks: HashMap<u32, String>,
    faults: HashMap<u32, Vec<u8>>,
    tweak_asks: usize,
    heights: Vec<u32>,
    faulted: usize,
    end: bool,
}

type Shared = Arc<Mutex<Script>>;

fn node(l: TcpListener, st: Shared) {
    let Ok((mut s, _)) = l.accept() else { return };
    let _ = s.set_nodelay(true);
    let mut rd = BufReader::new(s.try_clone().expect("socket"));
    let acts = {
        let st = st.lock().unwrap();
        if st.end {
            return;
        }
        st.acts.clone()
    };
    for a in acts {
        let line = match a {
            Act::Filter(h, b) => format!("filter {h} {b} {}\n", st.lock().unwrap().filters[&b]),
            Act::Synced(h, b) => format!("synced {h} {b}\n"),
            Act::Info => "info 7\n".into(),
            Act::Warn => "warn\n".into(),
            Act::Nap => {
                std::thread::sleep(std::time::Duration::from_millis(3));
                continue;
            }
            Act::Stop => {
                st.lock().unwrap().stopped = true;
                let _ = s.write_all(b"stop\n");
                return;
            }
            Act::Hold => {
                st.lock().unwrap().held = true;
                break;
            }
        };
        if s.write_all(line.as_bytes()).is_err() {
            return;
        }
    }
    let mut line = String::new();
    loop {
        line.clear();
        match rd.read_line(&mut line) {
            Ok(n) if n > 0 => {}
            _ => return,
        }
        let l = line.trim();
        if l == "shutdown" {
            return;
        }
        let Some(h) = l.strip_prefix("get ").and_then(|h| h.parse::<BlockHash>().ok()) else { continue };
        let (reply, block) = {
            let mut st = st.lock().unwrap();
            let n = st.asked.len();
            st.asked.push(h);
            let reply = st.gone.get(&h).copied().or(st.replies.get(&n).copied());
            (reply, st.blocks.get(&h).cloned())
        };
        let out = match (reply, block) {
            (Some(Reply::Stop), _) => {
                st.lock().unwrap().stopped = true;
                let _ = s.write_all(b"stop\n");
                return;
            }
            (Some(Reply::Hold), _) => {
                st.lock().unwrap().held = true;
                continue;
            }
            (Some(Reply::Unknown), _) | (_, None) => format!("unknown {h}\n"),
            (Some(Reply::Forget), _) => format!("forget {h}\n"),
            (nap, Some((height, hex))) => {
                if nap.is_some() {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
                st.lock().unwrap().served.push(h);
                format!("block {h} {height} {hex}\n")
            }
        };
        if s.write_all(out.as_bytes()).is_err() {
            return;
        }
    }
}

fn server(l: TcpListener, st: Shared) {
    for s in l.incoming() {
        let Ok(s) = s else { return };
        if st.lock().unwrap().end {
            return;
        }
        let st = st.clone();
        std::thread::spawn(move || answer(s, st));
    }
}

fn answer(mut s: std::net::TcpStream, st: Shared) {
    let _ = s.set_nodelay(true);
    let mut rd = BufReader::new(s.try_clone().expect("socket"));
    loop {
        let mut first = String::new();
        let mut line = String::new();
        loop {
            line.clear();
            match rd.read_line(&mut line) {
                Ok(n) if n > 0 => {}
                _ => return,
            }
            if first.is_empty() {
                first = line.clone();
            }
            if line.trim().is_empty() {
                break;
            }
        }
        let target = first.split(' ').nth(1).unwrap_or("");
        let h = target.split('?').next().unwrap().strip_prefix("/tweaks/").and_then(|h| h.parse::<u32>().ok());
        let (fault, body) = {
            let mut st = st.lock().unwrap();
            st.tweak_asks += 1;
            st.heights.extend(h);
            if st.tweak_hold == Some(st.tweak_asks) {
                st.held = true;
                return;
            }
            let f = h.and_then(|h| st.faults.get_mut(&h)?.pop());
            st.faulted += f.is_some() as usize;
            (f, h.and_then(|h| st.tweaks.get(&h).cloned()))
        };
        let send = |s: &mut std::net::TcpStream, code: &str, body: &str| {
            let t = format!("HTTP/1.1 {code}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{body}", body.len());
            s.write_all(t.as_bytes()).is_ok()
        };
        let ok = match (fault, body) {
            (Some(0), _) => return,
            (Some(1), _) => send(&mut s, "500 Internal Server Error", "[]"),
            (Some(2), _) => send(&mut s, "200 OK", "[\"02"),
            (Some(_), _) | (_, None) => send(&mut s, "404 Not Found", "[]"),
            (None, Some(b)) => send(&mut s, "200 OK", &b),
        };
        if !ok {
            return;
        }
    }
}

/// One run of the program.
struct Session {
    acts: Vec<Act>,
    replies: BTreeMap<usize, Reply>,
    gone: BTreeMap<BlockHash, Reply>,
    faults: HashMap<u32, Vec<u8>>,
    tweak_hold: Option<usize>,
    extra: Vec<String>,
}

struct Seen {
    ok: bool,
    killed: bool,
    held: bool,
    stopped: bool,
    asked: Vec<BlockHash>,
    served: Vec<BlockHash>,
    faulted: usize,
    /// blocks whose tweaks were asked for
    heights: Vec<u32>,
    why: String,
}

fn filter_hex(s: &Sim, h: &BlockHash) -> String {
    let st = s.node.st();
    let b = &st.blocks[h].0;
    let f = BlockFilter::new_script_filter(b, |o: &OutPoint| {
        s.w.prev.get(o).map(|t| t.script_pubkey.clone()).ok_or(bitcoin::bip158::Error::UtxoMissing(*o))
    });
    f.expect("all prevouts known").content.iter().map(|b| format!("{b:02x}")).collect()
}

fn play(s: &Sim, chain: &[BlockHash], x: Session) -> Result<Seen, Bad> {
    let mut sc = Script { acts: x.acts.clone(), replies: x.replies, gone: x.gone, faults: x.faults, tweak_hold: x.tweak_hold, ..Default::default() };
    for h in s.content.keys() {
        let st = s.node.st();
        let (b, height) = &st.blocks[h];
        sc.blocks.insert(*h, (*height, serialize_hex(b)));
    }
    for a in &x.acts {
        if let Act::Filter(_, h) = a {
            sc.filters.insert(*h, filter_hex(s, h));
        }
    }
    for (i, h) in chain.iter().enumerate() {
        let t: Vec<String> = s.content[h].iter().filter_map(|i| s.w.txs[*i].tweak.as_ref()).map(|t| format!("\"{t}\"")).collect();
        sc.tweaks.insert(i as u32, format!("[{}]", t.join(",")));
    }
    let sh: Shared = Arc::new(Mutex::new(sc));
    let (nl, tl) = (TcpListener::bind("127.0.0.1:0").expect("bind"), TcpListener::bind("127.0.0.1:0").expect("bind"));
    let (np, tp) = (nl.local_addr().unwrap().port(), tl.local_addr().unwrap().port());
    let (a, b) = (sh.clone(), sh.clone());
    // the ports stay taken until the end, so that nobody else is woken
    let _ports = (nl.try_clone().expect("socket"), tl.try_clone().expect("socket"));
    let nt = std::thread::spawn(move || node(nl, a));
    let tt = std::thread::spawn(move || server(tl, b));
    let url = format!("http://127.0.0.1:{tp}");
    let mut args = vec!["scan-cbf", &url];
    args.extend(x.extra.iter().map(|s| s.as_str()));
    let c = sh.clone();
    let out = s.cli.run_env(&args, &[("VP_NODE", np.to_string())], &|| c.lock().unwrap().held);
    sh.lock().unwrap().end = true;
    // wake those which still wait
    let _ = std::net::TcpStream::connect(("127.0.0.1", np));
    let _ = std::net::TcpStream::connect(("127.0.0.1", tp));
    let _ = nt.join();
    let _ = tt.join();
    let st = sh.lock().unwrap();
    Ok(Seen {
        ok: out.ok,
        killed: out.killed,
        held: st.held,
        stopped: st.stopped,
        asked: st.asked.clone(),
        served: st.served.clone(),
        faulted: st.faulted,
        heights: st.heights.clone(),
        why: out.why(),
    })
}

/// Where the program has to start.
fn start_of(s: &Sim, v: &Wal) -> usize {
    (v.chain.len() - 1).max(s.cli.birthday)
}

/// How far a run may go so that no block in it spends, and does nothing else for the wallet, a coin
/// that the same run finds.
fn reach(s: &Sim, v: &Wal, chain: &[BlockHash], from: usize) -> (usize, bool) {
    let old: BTreeSet<OutPoint> = v.coins.keys().copied().collect();
    let mut v = v.clone();
    for (h, hash) in chain.iter().enumerate().skip(from) {
        if s.content[hash].is_empty() {
            continue;
        }
        let mut n = v.clone();
        s.connect(&mut n, *hash);
        let pays = s.content[hash].iter().any(|i| n.coins.keys().any(|o| o.txid == s.w.txs[*i].txid));
        let spent = |o: &OutPoint| s.content[hash].iter().any(|i| s.w.txs[*i].tx.input.iter().any(|x| x.previous_output == *o));
        if !pays && !old.iter().any(spent) && v.coins.keys().any(spent) {
            return (h - 1, true);
        }
        v = n;
    }
    (chain.len() - 1, false)
}

struct Plan<'a> {
    chain: &'a [BlockHash],
    from: usize,
    tip: usize,
}

/// The filters of a node that starts from genesis, or from where it was told to.
fn acts(r: &mut Rng, s: &mut Sim, p: &Plan, o: &mut Obs) -> Vec<Act> {
    let mut a = vec![];
    let first = if r.chance(2, 3) { 1 } else { r.range(1, p.from.max(1)) };
    // another branch that the node follows for a while
    let fork = if r.chance(1, 4) && p.tip > p.from + 1 && p.tip < 500 { Some(r.range(p.from + 1, p.tip)) } else { None };
    for h in first..=p.tip {
        if fork == Some(h) {
            let mut c = p.chain[..h].to_vec();
            for _ in 0..r.range(1, p.tip + 1 - h) {
                let max = r.below(4);
                s.mine(r, &mut c, &[], &BTreeSet::new(), max);
            }
            a.extend(c.iter().enumerate().skip(h).map(|(i, b)| Act::Filter(i as u32, *b)));
            o.count("reorgs_in_scan");
        }
        a.push(Act::Filter(h as u32, p.chain[h]));
        match r.below(30) {
            0 => a.push(Act::Info),
            1 => a.push(Act::Warn),
            2 => a.push(Act::Nap),
            _ => {}
        }
    }
    a.push(Act::Synced(p.tip as u32, p.chain[p.tip]));
    a
}

/// `known` is the tip of the scan before, if it was complete.
fn scan(r: &mut Rng, o: &mut Obs, s: &mut Sim, last: bool, known: &mut Option<usize>) -> Result<String, Bad> {
    let chain = s.chain();
    ensure!(s.wals.len() == 1, "harness", "the wallet is where?");
    let v = s.wals[0].clone();
    let mut from = start_of(s, &v);
    let (most, capped) = reach(s, &v, &chain, from);
    let tip = if last || r.chance(1, 2) { most } else { r.range((v.chain.len() - 1).min(most), most) };
    if capped {
        o.count("runs_ended_before_a_spend");
    }
    let mut extra = vec![];
    if r.chance(1, 6) && v.chain.len() > s.cli.birthday.max(1) {
        // told where to start: what is known already does no harm
        from = r.range(s.cli.birthday, v.chain.len().min(chain.len() - 1));
        extra = vec!["--height".into(), from.to_string(), "--hash".into(), chain[from].to_string()];
        o.count("told_where_to_start");
    }
    let told = !extra.is_empty();
    if r.chance(1, 10) {
        extra.extend(["--extra-peer".into(), "127.0.0.2".into()]);
    }
    let plan = Plan { chain: &chain, from, tip };
    let mut x = Session { acts: acts(r, s, &plan, o), replies: BTreeMap::new(), gone: BTreeMap::new(), faults: HashMap::new(), tweak_hold: None, extra };
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            let h = r.range(from, tip.max(from)) as u32;
            x.faults.insert(h, (0..r.range(1, 2)).map(|_| r.below(4) as u8).collect());
        }
    }
    if r.chance(1, 5) {
        x.replies.insert(r.below(3), Reply::Nap);
    }
    let mut ev = "cbf";
    if !last {
        match r.below(12) {
            0 => {
                let at = r.below(x.acts.len());
                x.acts.insert(at, Act::Hold);
                ev = "kill";
            }
            1 | 2 => {
                let at = r.below(x.acts.len());
                x.acts.insert(at, Act::Stop);
                ev = "stop";
            }
            3 => {
                x.replies.insert(r.below(3), Reply::Hold);
                ev = "kill-at-block";
            }
            4 => {
                x.replies.insert(r.below(3), Reply::Stop);
                ev = "stop-at-block";
            }
            5 => {
                x.tweak_hold = Some(r.range(1, (tip + 1).saturating_sub(from).max(1)));
                ev = "kill-at-tweaks";
            }
            6 if tip >= v.chain.len() && tip > s.cli.birthday => {
                // the last block leaves the chain before it is fetched
                x.gone.insert(chain[tip], *r.pick(&[Reply::Unknown, Reply::Forget]));
                ev = "gone";
            }
            _ => {}
        }
    }
    let stop_before_synced = x.acts.iter().any(|a| matches!(a, Act::Stop | Act::Hold));
    let at = plan.tip;
    let plan_len = (at + 1).saturating_sub(from);
    let seen = play(s, &chain, x)?;
    o.count(ev);
    o.add("tweak_faults", seen.faulted as u64);
    o.add("blocks_fetched", seen.served.len() as u64);
    o.note(format!("{ev}: from {from} to {at} of {}, wallet at {}, ok {}, asked {:?}", chain.len() - 1, v.chain.len() - 1, seen.ok, seen.asked.iter().map(|h| s.node.st().blocks[h].1).collect::<Vec<_>>()));
    if seen.killed && !seen.held {
        let why = if seen.stopped { "scan-hangs-without-node" } else { "scan-hangs" };
        return bad(why, format!("the scan did not end within the time allowed (node stopped: {}, blocks fetched: {})", seen.stopped, seen.served.len()));
    }
    let plain = !stop_before_synced && !seen.stopped && !seen.held;
    ensure!(!plain || seen.ok, "scan-fails", "a scan without faults of the node fails: {}", seen.why);
    ensure!(!seen.ok || !stop_before_synced, "scan-ends-early", "the node ended before the tip was reached, the scan says it is complete");
    let mut done = v.clone();
    done.chain = chain[..v.chain.len().max(at + 1)].to_vec();
    if let Some(start) = if told { Some(from) } else { known.map(|t| t.max(s.cli.birthday)) } {
        // what came before was seen by the scan before, or is not wanted
        let early = seen.heights.iter().find(|h| (**h as usize) < start);
        ensure!(early.is_none(), "starts-early", "the scan {} at {start} and asks for block {}", if told { "was told to start" } else { "before ended" }, early.unwrap());
        o.count("starts_checked");
    }
    *known = seen.ok.then_some(at);
    for h in chain[from.min(at + 1)..=at].iter().filter(|h| !s.content[*h].is_empty() && (ev != "gone" || **h != chain[at])) {
        let full = done.chain.clone();
        s.connect(&mut done, *h);
        done.chain = full;
    }
    if seen.ok {
        s.wals = vec![done];
        o.count("scans_complete");
    } else {
        o.count("scans_interrupted");
        if !seen.stopped {
            // the end may have been reached before
            s.wals.push(done);
        }
    }
    s.check_balance(o)?;
    if ev == "gone" {
        let mut c = chain[..at].to_vec();
        for _ in 0..r.range(2, 4) {
            let max = r.below(5);
            let old = s.content[&chain[at]].iter().copied().collect();
            s.mine(r, &mut c, &[], &old, max);
        }
        s.node.st().chain = c;
        if seen.asked.contains(&chain[at]) {
            o.count("matched_blocks_gone");
        }
    }
    // if both fit, the one that knows less: the rest is found next time
    s.wals.truncate(1);
    Ok(format!("{ev}{}+{}/{}{}.", plan_len, seen.asked.len(), seen.faulted, if seen.ok { "" } else { "!" }))
}

fn setup<'a>(r: &mut Rng, o: &mut Obs, cli: &'a Cli, spends: bool) -> Result<Sim<'a>, Bad> {
    let mut w = world(r, cli)?;
    if r.chance(1, 6) {
        w.dust = (2, 3);
    }
    if spends {
        w.reuse = if r.chance(1, 3) { (1, 3) } else { (0, 1) };
    }
    w.pay(r);
    let n = r.range(3, 10);
    w.grow(r, n);
    cli.setup(r, &w)?;
    let mut s = Sim::new(r, cli, w);
    for m in s.w.rv.labels.clone() {
        if m != 0 {
            s.register(o, m)?;
        }
    }
    Ok(s)
}

fn mine(r: &mut Rng, s: &mut Sim, most: usize) {
    let mut chain = s.chain();
    for _ in 0..r.range(1, most) {
        let max = r.below(5);
        s.mine(r, &mut chain, &[], &BTreeSet::new(), max);
    }
    s.node.st().chain = chain;
}

fn case(r: &mut Rng, o: &mut Obs) -> Result<(), Bad> {
    let net = *r.pick(&[Network::Regtest, Network::Regtest, Network::Signet]);
    let cli = Cli::create(r, net)?;
    let mut s = setup(r, o, &cli, true)?;
    while s.chain().len() <= cli.birthday {
        mine(r, &mut s, 2);
    }
    let mut pattern = String::new();
    let rounds = r.range(2, 4);
    let mut known = None;
    let long = if r.chance(1, 60) { r.below(rounds) } else { rounds };
    for i in 0..rounds {
        if i == long {
            // more filters than are written at once
            let mut chain = s.chain();
            let n = chain.len() + r.range(990, 1010);
            while chain.len() < n {
                let max = if r.chance(1, 100) { 3 } else { 0 };
                s.mine(r, &mut chain, &[], &BTreeSet::new(), max);
            }
            s.node.st().chain = chain;
            o.count("long_scans");
        }
        let rpc = r.chance(1, 5);
        if rpc && r.chance(2, 3) {
            // the other way of scanning also follows reorganisations
            let c = s.chain();
            if let Some(f) = s.fork(r, &c) {
                s.node.st().chain = f;
                o.count("reorgs_between");
            }
        } else {
            mine(r, &mut s, 6);
        }
        if rpc {
            s.scan(o, BTreeMap::new())?;
            known = None;
            s.check_balance(o)?;
            s.wals.truncate(1);
            pattern.push_str("rpc.");
            continue;
        }
        pattern.push_str(&scan(r, o, &mut s, i + 1 == rounds, &mut known)?);
    }
    // until nothing is left
    for _ in 0..30 {
        if s.wals[0].chain.len() >= s.chain().len() {
            break;
        }
        scan(r, o, &mut s, true, &mut known)?;
    }
    ensure!(s.wals[0].chain.len() == s.chain().len(), "harness", "the end is not reached");
    o.distinct(&pattern);
    o.nontrivial = !s.wals[0].coins.is_empty();
    if o.nontrivial && r.chance(1, 30) {
        o.sample = Some(json!({"events": pattern, "coins": s.wals[0].coins.len(), "height": s.chain().len() - 1, "network": net.to_string()}));
    }
    Ok(())
}

/// The whole chain in one run, without faults.
fn whole(s: &Sim, from: usize) -> Result<(), Bad> {
    let chain = s.chain();
    let tip = chain.len() - 1;
    let mut a: Vec<Act> = chain.iter().enumerate().skip(from).map(|(h, b)| Act::Filter(h as u32, *b)).collect();
    a.push(Act::Synced(tip as u32, chain[tip]));
    let x = Session { acts: a, replies: BTreeMap::new(), gone: BTreeMap::new(), faults: HashMap::new(), tweak_hold: None, extra: vec![] };
    let seen = play(s, &chain, x)?;
    ensure!(seen.ok, "scan-fails", "a scan without faults of the node fails: {}", seen.why);
    Ok(())
}

/// What the wallet should show, and what it shows if it is wrong in a way that is known.
fn should_be(s: &mut Sim, o: &mut Obs, right: Wal, wrong: Wal, sig: &str, what: &str) -> Result<(), Bad> {
    if s.balance_of(&right) == s.balance_of(&wrong) || s.balance_of(&right).is_none() {
        return Ok(());
    }
    s.wals = vec![right];
    let Err(e) = s.check_balance(o) else { return Ok(()) };
    s.wals = vec![wrong];
    match s.check_balance(o) {
        Ok(()) => bad(sig, what),
        Err(_) => Err(e),
    }
}

fn follow(s: &Sim, v: &Wal, from: usize) -> Wal {
    let mut v = v.clone();
    let chain = s.chain();
    for h in &chain[from..] {
        s.connect(&mut v, *h);
    }
    v.chain = chain;
    v
}

/// Reorganisations below the tip of an earlier scan, and spends in the scan that finds the coin.
fn directed(r: &mut Rng, o: &mut Obs, kind: usize) -> Result<(), Bad> {
    let cli = Cli::create(r, Network::Regtest)?;
    let mut s = setup(r, o, &cli, false)?;
    let empty = |r: &mut Rng, s: &mut Sim, n: usize| {
        let mut c = s.chain();
        for _ in 0..n {
            s.mine(r, &mut c, &[], &BTreeSet::new(), 0);
        }
        s.node.st().chain = c;
    };
    let n = cli.birthday + r.range(1, 3);
    empty(r, &mut s, n);
    o.nontrivial = true;
    let v0 = s.wals[0].clone();
    if kind == 2 {
        let mut c = s.chain();
        let from = c.len();
        for _ in 0..12 {
            s.mine(r, &mut c, &[], &BTreeSet::new(), 1);
        }
        s.node.st().chain = c.clone();
        let (tip, capped) = reach(&s, &v0, &c, from);
        if !capped {
            return Ok(());
        }
        let mut without = c[..=tip].to_vec();
        s.node.st().chain = without.clone();
        let mut wrong = follow(&s, &v0, from);
        s.node.st().chain = c[..=tip + 1].to_vec();
        let right = follow(&s, &v0, from);
        without.push(c[tip + 1]);
        wrong.chain = without;
        whole(&s, 1)?;
        o.count("directed_same_run");
        return should_be(&mut s, o, right, wrong, "same-run-spend-missed", "the spend of a coin found in the same scan is not seen, and the coin is shown as confirmed and unspent");
    }
    let base = s.chain();
    let depth = r.range(2, 3);
    let all: Vec<usize> = (0..s.w.txs.len()).collect();
    let branch = |r: &mut Rng, s: &mut Sim, pays: bool, more: usize| {
        let mut c = base.clone();
        s.mine(r, &mut c, if pays { &all } else { &[] }, &BTreeSet::new(), if pays { 3 } else { 0 });
        for _ in 0..depth + more {
            s.mine(r, &mut c, &[], &BTreeSet::new(), 0);
        }
        c
    };
    let old = branch(r, &mut s, kind == 1, 0);
    s.node.st().chain = old.clone();
    whole(&s, 1)?;
    let v = follow(&s, &v0, base.len());
    let new = branch(r, &mut s, kind == 0, 1);
    s.node.st().chain = new.clone();
    whole(&s, 1)?;
    let right = follow(&s, &v, base.len());
    o.count("directed_reorgs");
    if kind == 0 {
        let mut wrong = v.clone();
        wrong.chain = new;
        should_be(&mut s, o, right, wrong, "reorged-payment-missed", "a payment in a block that came, by reorganisation, below the tip of the last scan is not found by the next one")
    } else {
        let wrong = v.clone();
        should_be(&mut s, o, right, wrong, "stale-payment-confirmed", "a payment in a block that left the chain below the tip of the last scan is shown as confirmed after the next one")
    }
}

pub fn c31() -> i32 {
    run(
        Spec {
            prop: "C31",
            rule: "wallets of the second program scanned with compact filters: scripted light node (filters, reorganisations before the tip, stops, kills, blocks delayed) and tweak server (failing at times), in turn with scans over RPC; after each scan the balance printed equals the model's; distinct by sequence of scans",
            quick: 500,
            thorough: 15000,
            require: &[
                ("balance_checks", 1500), ("scans_complete", 1000), ("scans_interrupted", 200), ("reorgs_in_scan", 100), ("blocks_fetched", 1500), ("tweak_faults", 100),
                ("balances_with_spends", 300), ("runs_ended_before_a_spend", 50), ("told_where_to_start", 50), ("matched_blocks_gone", 8),
            ],
            assumptions: &[
                "the light node and the tweak server answer truthfully, late, or not at all",
                "the tweak server knows every tweak of a block, also of small payments",
                "a reorganisation of blocks below the tip of an earlier scan, and the spend of a coin found in the same scan, are known findings and kept out of the histories",
            ],
            threads: 0,
        },
        |r, o, i| {
            if i % 50 < 3 {
                return directed(r, o, i as usize % 50);
            }
            case(r, o)
        },
    )
}
