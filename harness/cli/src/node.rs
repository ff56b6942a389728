//! A stand-in for a node: the few RPC methods the wallet uses, over real sockets, with faults that
//! happen at a chosen request.
use bitcoin::consensus::encode::serialize_hex;
use bitcoin::{absolute, transaction, Block, BlockHash, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Fault {
    /// Never answer; the case thread kills the wallet.
    Hold,
    /// An RPC error.
    Rpc(i32),
    /// An HTTP status without a JSON body.
    Http(u16),
    /// Close the connection.
    Close,
    /// Half an answer, then close.
    Cut,
    /// Switch to another best chain, then answer.
    Reorg(Vec<BlockHash>),
    /// Let time pass for the wallet, then answer.
    Clock(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ask {
    Hash,
    Info,
    Raw(BlockHash),
    Tx,
    Other(String),
}

#[derive(Default)]
pub struct State {
    pub blocks: HashMap<BlockHash, (Block, u32)>,
    pub chain: Vec<BlockHash>,
    pub txs: HashMap<Txid, Transaction>,
    pub prev: HashMap<Txid, BTreeMap<u32, TxOut>>,
    /// Requests since the last reset, and whether they were answered properly.
    pub log: Vec<(Ask, bool)>,
    pub faults: BTreeMap<usize, Fault>,
    pub held: bool,
    pub fired: Vec<&'static str>,
    pub clock: u64,
    pub clock_file: PathBuf,
    pub stop: bool,
}

impl State {
    pub fn begin(&mut self, faults: BTreeMap<usize, Fault>) {
        self.log.clear();
        self.faults = faults;
        self.held = false;
        self.fired.clear();
    }

    pub fn set_clock(&mut self, secs: u64) {
        self.clock = secs;
        let tmp = self.clock_file.with_extension("tmp");
        std::fs::write(&tmp, secs.to_le_bytes()).expect("clock file");
        std::fs::rename(&tmp, &self.clock_file).expect("clock file");
    }

    fn next_hash(&self, h: u32) -> Option<BlockHash> {
        self.chain.get(h as usize + 1).copied()
    }

    fn answer(&self, method: &str, params: &[Value]) -> Result<Value, (i32, String)> {
        let not_found = |what: &str| Err((-5, format!("{what} not found")));
        match method {
            "getblockcount" => Ok(json!(self.chain.len() - 1)),
            "getbestblockhash" => Ok(json!(self.chain.last())),
            "getblockhash" => match self.chain.get(params[0].as_u64().unwrap_or(u64::MAX) as usize) {
                Some(h) => Ok(json!(h)),
                None => Err((-8, "Block height out of range".into())),
            },
            "getblock" | "getblockheader" => {
                let Some((b, h)) = params[0].as_str().and_then(|s| s.parse().ok()).and_then(|x: BlockHash| self.blocks.get(&x)) else {
                    return not_found("Block");
                };
                let raw = matches!(params.get(1), Some(Value::Bool(false))) || params.get(1) == Some(&json!(0));
                if raw {
                    return Ok(json!(if method == "getblock" { serialize_hex(b) } else { serialize_hex(&b.header) }));
                }
                let active = self.chain.get(*h as usize) == Some(&b.block_hash());
                let mut v = json!({
                    "hash": b.block_hash(), "confirmations": if active { self.chain.len() as i64 - *h as i64 } else { -1 },
                    "size": b.total_size(), "strippedsize": b.total_size(), "weight": b.weight().to_wu(), "height": h,
                    "version": b.header.version.to_consensus(), "versionHex": format!("{:08x}", b.header.version.to_consensus()),
                    "merkleroot": b.header.merkle_root, "time": b.header.time, "mediantime": b.header.time, "nonce": b.header.nonce,
                    "bits": format!("{:08x}", b.header.bits.to_consensus()), "difficulty": 1.0,
                    "chainwork": format!("{:064x}", *h as u64 + 1), "nTx": b.txdata.len(),
                    "tx": b.txdata.iter().map(|t| t.compute_txid()).collect::<Vec<_>>(),
                });
                if *h > 0 {
                    v["previousblockhash"] = json!(b.header.prev_blockhash);
                }
                if active {
                    if let Some(n) = self.next_hash(*h) {
                        v["nextblockhash"] = json!(n);
                    }
                }
                Ok(v)
            }
            "getrawtransaction" => {
                let Some(id) = params[0].as_str().and_then(|s| s.parse::<Txid>().ok()) else { return not_found("Transaction") };
                let tx = match self.txs.get(&id) {
                    Some(t) => t.clone(),
                    None => {
                        let Some(outs) = self.prev.get(&id) else { return not_found("Transaction") };
                        let top = *outs.keys().last().unwrap();
                        Transaction {
                            version: transaction::Version::TWO,
                            lock_time: absolute::LockTime::ZERO,
                            input: vec![TxIn {
                                previous_output: OutPoint::new(id, 0),
                                script_sig: ScriptBuf::new(),
                                sequence: Sequence::MAX,
                                witness: Witness::new(),
                            }],
                            output: (0..=top)
                                .map(|i| outs.get(&i).cloned().unwrap_or(TxOut { value: bitcoin::Amount::from_sat(1), script_pubkey: ScriptBuf::new() }))
                                .collect(),
                        }
                    }
                };
                if matches!(params.get(1), None | Some(Value::Bool(false) | Value::Null)) {
                    return Ok(json!(serialize_hex(&tx)));
                }
                Ok(json!({
                    "in_active_chain": true, "hex": serialize_hex(&tx), "txid": id, "hash": tx.compute_wtxid(), "size": tx.total_size(), "vsize": tx.vsize(),
                    "version": 2, "locktime": 0, "vin": [], "vout": [], "confirmations": 1,
                }))
            }
            _ => Err((-32601, "Method not found".into())),
        }
    }
}

pub struct Node {
    pub state: Arc<Mutex<State>>,
    pub port: u16,
}

impl Node {
    pub fn start(state: State) -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().unwrap().port();
        let state = Arc::new(Mutex::new(state));
        let s = state.clone();
        std::thread::spawn(move || {
            for c in l.incoming() {
                if s.lock().unwrap().stop {
                    break;
                }
                let Ok(c) = c else { continue };
                let s = s.clone();
                std::thread::spawn(move || {
                    let _ = serve(c, &s);
                });
            }
        });
        Self { state, port }
    }

    pub fn st(&self) -> std::sync::MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.st().stop = true;
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

fn serve(c: TcpStream, s: &Mutex<State>) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut out = c.try_clone()?;
    let mut inp = BufReader::new(c);
    loop {
        let mut len = 0usize;
        let mut line = String::new();
        if inp.read_line(&mut line)? == 0 {
            return Ok(());
        }
        loop {
            line.clear();
            if inp.read_line(&mut line)? == 0 {
                return Ok(());
            }
            let t = line.trim();
            if t.is_empty() {
                break;
            }
            if let Some((k, v)) = t.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    len = v.trim().parse().unwrap_or(0);
                }
            }
        }
        let mut body = vec![0; len];
        inp.read_exact(&mut body)?;
        let req: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let method = req["method"].as_str().unwrap_or("").to_string();
        let params = req["params"].as_array().cloned().unwrap_or_default();
        let ask = match method.as_str() {
            "getblockhash" => Ask::Hash,
            "getblock" if params.get(1) == Some(&json!(0)) => match params[0].as_str().and_then(|x| x.parse().ok()) {
                Some(h) => Ask::Raw(h),
                None => Ask::Other(method.clone()),
            },
            "getblock" => Ask::Info,
            "getrawtransaction" => Ask::Tx,
            _ => Ask::Other(method.clone()),
        };
        let (fault, res) = {
            let mut st = s.lock().unwrap_or_else(|e| e.into_inner());
            let n = st.log.len();
            let fault = st.faults.get(&n).cloned();
            let name = match &fault {
                None => None,
                Some(Fault::Hold) => Some("kill"),
                Some(Fault::Rpc(_)) => Some("rpc-error"),
                Some(Fault::Http(_)) => Some("http-error"),
                Some(Fault::Close) => Some("close"),
                Some(Fault::Cut) => Some("cut"),
                Some(Fault::Reorg(_)) => Some("reorg"),
                Some(Fault::Clock(_)) => Some("clock"),
            };
            st.fired.extend(name);
            match &fault {
                Some(Fault::Reorg(c)) => st.chain = c.clone(),
                Some(Fault::Clock(d)) => {
                    let t = st.clock + d;
                    st.set_clock(t);
                }
                Some(Fault::Hold) => st.held = true,
                _ => {}
            }
            let good = matches!(fault, None | Some(Fault::Reorg(_) | Fault::Clock(_)));
            st.log.push((ask, good));
            (fault, st.answer(&method, &params))
        };
        let id = req["id"].clone();
        let (status, body) = match (&fault, res) {
            (Some(Fault::Hold), _) => {
                // until the wallet is killed and the connection breaks
                let mut b = [0u8; 1];
                let _ = inp.read(&mut b);
                return Ok(());
            }
            (Some(Fault::Close), _) => return Ok(()),
            (Some(Fault::Http(n)), _) => (*n, "node is busy".to_string()),
            (Some(Fault::Rpc(e)), _) => (500, json!({"result": null, "error": {"code": e, "message": "fault"}, "id": id}).to_string()),
            (_, Ok(v)) => (200, json!({"result": v, "error": null, "id": id}).to_string()),
            (_, Err((e, m))) => (500, json!({"result": null, "error": {"code": e, "message": m}, "id": id}).to_string()),
        };
        let head = format!("HTTP/1.1 {status} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len());
        let mut all = head.into_bytes();
        all.extend_from_slice(body.as_bytes());
        if matches!(fault, Some(Fault::Cut)) {
            all.truncate(all.len() - body.len() / 2 - 1);
            out.write_all(&all)?;
            return Ok(());
        }
        out.write_all(&all)?;
        out.flush()?;
    }
}
