//! A small world of transactions around one wallet: payments to its codes (labelled, several per
//! transaction, with gaps and decoys), spends of what it received, and unrelated traffic.
//! Ownership is computed by the reference model alone.
use bdk_sp::receive::SpOut;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Amount, OutPoint, Transaction, TxOut, Txid};
use kit::gen::{self, GenInput, InKind, Receiver};
use kit::model::{self, Match};
use kit::Rng;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Pay,
    Spend,
    Noise,
    NoTweak,
}

#[derive(Clone, Debug)]
pub struct WTx {
    pub txid: Txid,
    pub tx: Arc<Transaction>,
    pub prevouts: Vec<TxOut>,
    /// Public tweak data of the transaction (none without eligible inputs or with a zero sum).
    pub tweak: Option<PublicKey>,
    pub kind: Kind,
}

#[derive(Clone, Debug)]
pub struct Coin {
    pub txout: TxOut,
    pub secret: SecretKey,
}

pub struct World {
    pub rv: Receiver,
    pub others: Vec<Receiver>,
    pub txs: Vec<WTx>,
    /// Everything the wallet would own with all its labels registered.
    pub coins: BTreeMap<OutPoint, Coin>,
    pub prev: HashMap<OutPoint, TxOut>,
    pub used: Vec<OutPoint>,
    /// Small amounts, so that sums cannot exceed the money supply.
    pub small: bool,
    /// Upper bound of amounts when small.
    pub cap: u64,
    /// How often a spend may take coins that another one already takes.
    pub reuse: (usize, usize),
    /// How often a transaction has hundreds of inputs or outputs.
    pub wide: (usize, usize),
    /// How often an amount is below what is worth spending.
    pub dust: (usize, usize),
}

impl World {
    pub fn new(r: &mut Rng, min_labels: usize) -> Self {
        r.edge_keys = 1;
        let rv = loop {
            let v = Receiver::new(r);
            if v.labels.len() >= min_labels {
                break v;
            }
        };
        r.edge_keys = 0;
        let others = (0..2).map(|_| Receiver::new(r)).collect();
        r.edge_keys = 1;
        Self { rv, others, txs: vec![], coins: BTreeMap::new(), prev: HashMap::new(), used: vec![], small: false, cap: 1_000_000_000, reuse: (1, 4), wide: (1, 50), dust: (0, 1) }
    }

    pub fn value(&self, r: &mut Rng) -> Amount {
        if self.dust.0 > 0 && r.chance(self.dust.0, self.dust.1) {
            Amount::from_sat(*r.pick(&[0, 1, 100, 293, 294, 329, 330, 545, 546, 999]))
        } else if self.small && self.cap < 100_000 && r.chance(1, 4) {
            Amount::from_sat(self.cap)
        } else if self.small {
            Amount::from_sat(1 + r.next() % self.cap)
        } else {
            gen::amount(r)
        }
    }

    fn good_inputs(r: &mut Rng, max: usize) -> Vec<GenInput> {
        loop {
            let v = gen::inputs(r, 1, max);
            let s: Vec<_> = v.iter().filter(|i| i.eligible).map(|i| i.summed()).collect();
            if model::sum_scalars(&s).is_some() {
                return v;
            }
        }
    }

    fn out(&self, r: &mut Rng, x: &[u8; 32]) -> TxOut {
        TxOut { value: self.value(r), script_pubkey: model::p2tr_spk(x) }
    }

    /// Outputs for recipients, derived by the model from the given inputs.
    fn pay_outputs(&self, r: &mut Rng, ins: &[GenInput], mine: &[Option<u32>], others: usize) -> Vec<TxOut> {
        let keys: Vec<_> = ins.iter().filter(|i| i.eligible).map(|i| i.summed()).collect();
        let op = model::smallest_outpoint(ins.iter().map(|i| i.txin.previous_output)).unwrap();
        let mut rec: Vec<(PublicKey, PublicKey)> =
            mine.iter().map(|l| (self.rv.scan_pk(), self.rv.b_m(*l))).collect();
        for _ in 0..others {
            let o = &self.others[r.below(2)];
            rec.push((o.scan_pk(), o.b_m(o.any_label(r))));
        }
        let xs = model::sender_keys(&keys, &op, &rec).expect("keys do not cancel");
        xs.iter().map(|x| self.out(r, x)).collect()
    }

    fn finish(&mut self, r: &mut Rng, kind: Kind, ins: &[GenInput], mut outs: Vec<TxOut>) -> usize {
        for _ in 0..r.below(3) {
            outs.push(TxOut { value: self.value(r), script_pubkey: gen::foreign_output(r) });
        }
        if outs.is_empty() {
            outs.push(TxOut { value: self.value(r), script_pubkey: gen::foreign_output(r) });
        }
        if r.chance(self.wide.0, self.wide.1) {
            let n = *r.pick(&[20, 70, 300]);
            for _ in 0..r.range(n / 2, n) {
                let value = self.value(r);
                let script_pubkey = gen::wpkh_spk(&r.bytes::<33>());
                outs.insert(0, TxOut { value, script_pubkey });
            }
        }
        match r.below(4) {
            0 => {}
            1 => outs.reverse(),
            _ => r.shuffle(&mut outs),
        }
        let tx = gen::tx(r, ins, outs);
        let prevouts = gen::prevouts(ins);
        let tweak = model::tweak_data(&tx, &prevouts);
        for i in ins {
            self.prev.insert(i.txin.previous_output, i.prevout.clone());
        }
        let w = WTx { txid: tx.compute_txid(), tx: Arc::new(tx), prevouts, tweak, kind };
        for m in self.expected(&w, w.tweak.as_ref(), &self.rv.labels) {
            let op = OutPoint::new(w.txid, m.vout);
            let secret = model::add_sk(&self.rv.spend, &m.tweak);
            self.coins.insert(op, Coin { txout: w.tx.output[m.vout as usize].clone(), secret });
        }
        self.txs.push(w);
        self.txs.len() - 1
    }

    /// What scanning `w` with this tweak and these labels has to find.
    pub fn expected(&self, w: &WTx, tweak: Option<&PublicKey>, labels: &[u32]) -> Vec<Match> {
        let mut v = vec![];
        let Some(t) = tweak else { return v };
        let ecdh = self.ecdh(t);
        for k in 0.. {
            let ms = model::matches_at(&ecdh, &self.rv.spend_pk(), &self.rv.scan, labels, &w.tx, k);
            if ms.is_empty() {
                break;
            }
            assert_eq!(ms.len(), 1, "the generator makes one output per sequence number");
            v.extend(ms);
        }
        v
    }

    pub fn ecdh(&self, tweak: &PublicKey) -> PublicKey {
        model::mul_point(tweak, &self.rv.scan.secret_bytes())
    }

    pub fn spouts(&self, w: &WTx, tweak: Option<&PublicKey>, labels: &[u32]) -> Vec<SpOut> {
        self.expected(w, tweak, labels)
            .into_iter()
            .map(|m| {
                let o = &w.tx.output[m.vout as usize];
                SpOut {
                    outpoint: OutPoint::new(w.txid, m.vout),
                    tweak: SecretKey::from_slice(&m.tweak).unwrap(),
                    script_pubkey: o.script_pubkey.clone(),
                    amount: o.value,
                    label: m.label,
                }
            })
            .collect()
    }

    fn my_labels(&self, r: &mut Rng) -> Vec<Option<u32>> {
        let n = match r.below(12) {
            0 => r.range(4, 9),
            1..=3 => r.range(2, 3),
            _ => 1,
        };
        (0..n).map(|_| self.rv.any_label(r)).collect()
    }

    /// Sometimes many more inputs which say nothing about who is paid.
    fn widen(&self, r: &mut Rng, ins: &mut Vec<GenInput>) {
        if r.chance(self.wide.0, self.wide.1) {
            let n = *r.pick(&[20, 70, 300]);
            let n = r.range(n / 2, n);
            for op in gen::outpoints(r, n) {
                let g = gen::input_of(r, InKind::Bare, op, None);
                ins.insert(0, g);
            }
            if r.chance(1, 2) {
                r.shuffle(ins);
            }
        }
    }

    pub fn pay(&mut self, r: &mut Rng) -> usize {
        let mut ins = Self::good_inputs(r, 6);
        self.widen(r, &mut ins);
        let mine = self.my_labels(r);
        let n = r.below(3);
        let mut outs = self.pay_outputs(r, &ins, &mine, n);
        // beyond a gap in the sequence: not the wallet's
        if r.chance(1, 6) {
            let keys: Vec<_> = ins.iter().filter(|i| i.eligible).map(|i| i.summed()).collect();
            let op = model::smallest_outpoint(ins.iter().map(|i| i.txin.previous_output)).unwrap();
            let a = model::sum_scalars(&keys).unwrap();
            let ih = model::input_hash(&op, &a.public_key(model::secp()));
            let part = a.mul_tweak(&Scalar::from_be_bytes(ih).unwrap()).unwrap();
            let ecdh = model::mul_point(&self.rv.scan_pk(), &part.secret_bytes());
            let k = mine.len() as u32 + r.range(1, 3) as u32;
            let l = self.rv.any_label(r);
            let p = self.rv.b_m(l).combine(&model::point_of(&model::shared_hash(&ecdh, k))).unwrap();
            let o = self.out(r, &model::xonly(&p));
            outs.push(o);
        }
        self.finish(r, Kind::Pay, &ins, outs)
    }

    /// Spend coins of the wallet, perhaps with change back and with inputs of others.
    pub fn spend(&mut self, r: &mut Rng) -> Option<usize> {
        let reuse = r.chance(self.reuse.0, self.reuse.1);
        let mut ops: Vec<OutPoint> = self.coins.keys().filter(|o| reuse || !self.used.contains(o)).copied().collect();
        if ops.is_empty() {
            return None;
        }
        r.shuffle(&mut ops);
        ops.truncate(r.range(1, 3));
        let mut ins = if r.chance(1, 3) { Self::good_inputs(r, 3) } else { vec![] };
        for op in &ops {
            let c = &self.coins[op];
            let mut g = gen::input_of(r, InKind::TrKey, *op, Some(c.secret));
            assert_eq!(g.prevout.script_pubkey, c.txout.script_pubkey);
            g.prevout.value = c.txout.value;
            let at = r.below(ins.len() + 1);
            ins.insert(at, g);
        }
        self.widen(r, &mut ins);
        let keys: Vec<_> = ins.iter().filter(|i| i.eligible).map(|i| i.summed()).collect();
        model::sum_scalars(&keys)?;
        self.used.extend(ops);
        let mine = if r.chance(1, 2) { vec![if self.rv.labels.contains(&0) { Some(0) } else { None }] } else { vec![] };
        let n = r.below(3);
        let outs = self.pay_outputs(r, &ins, &mine, n);
        Some(self.finish(r, Kind::Spend, &ins, outs))
    }

    pub fn noise(&mut self, r: &mut Rng) -> usize {
        match r.below(4) {
            0 => {
                // no eligible input at all, or keys that cancel
                let ops = gen::outpoints(r, 2);
                let ins = if r.chance(1, 2) {
                    let k = *r.pick(gen::INELIGIBLE);
                    vec![gen::input_of(r, k, ops[0], None)]
                } else {
                    let a = r.sk();
                    vec![
                        gen::input_of(r, InKind::Wpkh, ops[0], Some(a)),
                        gen::input_of(r, InKind::Pkh, ops[1], Some(a.negate())),
                    ]
                };
                self.finish(r, Kind::NoTweak, &ins, vec![])
            }
            1 => {
                let ins = Self::good_inputs(r, 3);
                // the wallet's own keys, but not a payment
                let outs = vec![
                    self.out(r, &model::xonly(&self.rv.spend_pk())),
                    self.out(r, &model::xonly(&self.rv.scan_pk())),
                ];
                self.finish(r, Kind::Noise, &ins, outs)
            }
            _ => {
                let ins = Self::good_inputs(r, 4);
                let n = r.range(1, 3);
                let outs = self.pay_outputs(r, &ins, &[], n);
                self.finish(r, Kind::Noise, &ins, outs)
            }
        }
    }

    /// Take in a transaction made elsewhere that spends only coins of this world.
    pub fn adopt(&mut self, tx: Transaction) -> usize {
        let prevouts: Vec<TxOut> = tx.input.iter().map(|i| self.coins[&i.previous_output].txout.clone()).collect();
        for (i, p) in tx.input.iter().zip(&prevouts) {
            self.prev.insert(i.previous_output, p.clone());
            self.used.push(i.previous_output);
        }
        let tweak = model::tweak_data(&tx, &prevouts);
        let w = WTx { txid: tx.compute_txid(), tx: Arc::new(tx), prevouts, tweak, kind: Kind::Spend };
        for m in self.expected(&w, w.tweak.as_ref(), &self.rv.labels) {
            let op = OutPoint::new(w.txid, m.vout);
            let secret = model::add_sk(&self.rv.spend, &m.tweak);
            self.coins.insert(op, Coin { txout: w.tx.output[m.vout as usize].clone(), secret });
        }
        self.txs.push(w);
        self.txs.len() - 1
    }

    /// The same inputs pay the same recipients again, for another fee: the scripts stay as they are.
    pub fn replace(&mut self, r: &mut Rng) -> Option<usize> {
        let of: Vec<usize> = (0..self.txs.len()).filter(|i| !self.expected(&self.txs[*i], self.txs[*i].tweak.as_ref(), &self.rv.labels).is_empty()).collect();
        if of.is_empty() {
            return None;
        }
        let old = self.txs[*r.pick(&of)].clone();
        let mut tx = (*old.tx).clone();
        for o in tx.output.iter_mut() {
            if r.chance(1, 2) {
                o.value = Amount::from_sat(1 + r.next() % o.value.to_sat().max(2));
            }
        }
        for i in tx.input.iter_mut() {
            i.sequence = bitcoin::Sequence(r.u32());
        }
        if r.chance(1, 3) {
            tx.output.push(TxOut { value: self.value(r), script_pubkey: gen::foreign_output(r) });
        }
        if r.chance(1, 2) {
            r.shuffle(&mut tx.output);
        }
        let w = WTx { txid: tx.compute_txid(), tx: Arc::new(tx), ..old };
        if self.txs.iter().any(|t| t.txid == w.txid) {
            return None;
        }
        for m in self.expected(&w, w.tweak.as_ref(), &self.rv.labels) {
            let op = OutPoint::new(w.txid, m.vout);
            let secret = model::add_sk(&self.rv.spend, &m.tweak);
            self.coins.insert(op, Coin { txout: w.tx.output[m.vout as usize].clone(), secret });
        }
        self.txs.push(w);
        Some(self.txs.len() - 1)
    }

    pub fn grow(&mut self, r: &mut Rng, n: usize) {
        for _ in 0..n {
            if r.chance(1, 10) && self.replace(r).is_some() {
                continue;
            }
            match r.below(8) {
                0..=3 => {
                    self.pay(r);
                }
                4 | 5 => {
                    if self.spend(r).is_none() {
                        self.pay(r);
                    }
                }
                _ => {
                    self.noise(r);
                }
            }
        }
    }

    pub fn label_map(&self, labels: &[u32]) -> BTreeMap<PublicKey, (Scalar, u32)> {
        labels
            .iter()
            .map(|m| {
                let h = model::label_hash(&self.rv.scan, *m);
                (model::point_of(&h), (Scalar::from_be_bytes(h).unwrap(), *m))
            })
            .collect()
    }

    /// Any tweak other than the right one.
    pub fn junk_tweak(r: &mut Rng) -> PublicKey {
        r.sk().public_key(model::secp())
    }
}

pub fn block_hash(r: &mut Rng) -> bitcoin::BlockHash {
    bitcoin::BlockHash::from_byte_array(r.bytes())
}

pub fn subset(r: &mut Rng, v: &[u32]) -> Vec<u32> {
    v.iter().copied().filter(|_| r.chance(2, 3)).collect()
}
