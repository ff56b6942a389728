//! A stand-in for the crate `bdk_tx`: the part of its interface the wallet and its program use.
use bdk_coin_select as cs;
use miniscript::bitcoin::{absolute, psbt, transaction, Amount, FeeRate, OutPoint, Psbt, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use miniscript::plan::Plan;
use miniscript::psbt::PsbtInputSatisfier;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

pub use miniscript;
pub use miniscript::bitcoin;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TxStatus {
    pub height: absolute::Height,
    pub time: absolute::Time,
}

pub type TxWithStatus<T> = (T, Option<TxStatus>);

#[derive(Debug, Clone)]
pub struct Input {
    pub outpoint: OutPoint,
    pub txout: TxOut,
    pub tx: Arc<Transaction>,
    pub plan: Plan,
    pub status: Option<TxStatus>,
    pub is_coinbase: bool,
}

/// The outputs of canonical transactions no canonical transaction spends.
#[derive(Debug, Clone)]
pub struct CanonicalUnspents {
    txs: HashMap<Txid, Arc<Transaction>>,
    statuses: HashMap<Txid, TxStatus>,
    spent: HashSet<OutPoint>,
}

impl CanonicalUnspents {
    pub fn new<T: Into<Arc<Transaction>>>(txs: impl IntoIterator<Item = TxWithStatus<T>>) -> Self {
        let mut me = Self { txs: HashMap::new(), statuses: HashMap::new(), spent: HashSet::new() };
        for (tx, status) in txs {
            let tx: Arc<Transaction> = tx.into();
            me.spent.extend(tx.input.iter().map(|i| i.previous_output));
            let id = tx.compute_txid();
            if let Some(s) = status {
                me.statuses.insert(id, s);
            }
            me.txs.insert(id, tx);
        }
        me
    }
    pub fn is_unspent(&self, o: OutPoint) -> bool {
        !self.spent.contains(&o) && self.txs.get(&o.txid).is_some_and(|t| t.output.len() > o.vout as usize)
    }
    pub fn try_get_unspent(&self, outpoint: OutPoint, plan: Plan) -> Option<Input> {
        if !self.is_unspent(outpoint) {
            return None;
        }
        let tx = self.txs[&outpoint.txid].clone();
        Some(Input {
            outpoint,
            txout: tx.output[outpoint.vout as usize].clone(),
            is_coinbase: tx.is_coinbase(),
            status: self.statuses.get(&outpoint.txid).copied(),
            tx,
            plan,
        })
    }
    pub fn try_get_unspents<'a, I>(&'a self, outpoints: I) -> impl Iterator<Item = Input> + 'a
    where
        I: IntoIterator<Item = (OutPoint, Plan)>,
        I::IntoIter: 'a,
    {
        outpoints.into_iter().filter_map(|(o, p)| self.try_get_unspent(o, p))
    }
}

#[derive(Debug, Clone)]
pub struct InputCandidates {
    /// inputs spent together
    pub groups: Vec<Vec<Input>>,
    must: usize,
}

impl InputCandidates {
    pub fn new(must_select: impl IntoIterator<Item = Input>, can_select: impl IntoIterator<Item = Input>) -> Self {
        let mut groups: Vec<Vec<Input>> = vec![];
        let m: Vec<Input> = must_select.into_iter().collect();
        let must = usize::from(!m.is_empty());
        let have: HashSet<OutPoint> = m.iter().map(|i| i.outpoint).collect();
        if must == 1 {
            groups.push(m);
        }
        let mut seen = have;
        groups.extend(can_select.into_iter().filter(|i| seen.insert(i.outpoint)).map(|i| vec![i]));
        Self { groups, must }
    }
    pub fn inputs(&self) -> impl Iterator<Item = &Input> {
        self.groups.iter().flatten()
    }
    pub fn regroup<G: Ord + Clone>(self, mut policy: impl FnMut(&Input) -> G) -> Self {
        let mut it = self.groups.into_iter();
        let mut groups: Vec<Vec<Input>> = it.by_ref().take(self.must).collect();
        let mut by: BTreeMap<G, Vec<Input>> = BTreeMap::new();
        for i in it.flatten() {
            by.entry(policy(&i)).or_default().push(i);
        }
        groups.extend(by.into_values());
        Self { groups, must: self.must }
    }
    pub fn filter(self, mut policy: impl FnMut(&Input) -> bool) -> Self {
        let must = self.must;
        let groups = self
            .groups
            .into_iter()
            .enumerate()
            .filter_map(|(k, mut g)| {
                if k >= must {
                    g.retain(|i| policy(i));
                }
                (!g.is_empty()).then_some(g)
            })
            .collect();
        Self { groups, must }
    }
    pub fn into_selection<E: std::fmt::Debug>(self, algorithm: impl FnOnce(&mut Selector) -> Result<(), E>, params: SelectorParams) -> Result<Selection, Error> {
        let candidates: Vec<cs::Candidate> = self
            .groups
            .iter()
            .map(|g| cs::Candidate {
                value: g.iter().map(|i| i.txout.value.to_sat()).sum(),
                weight: g.iter().map(|i| cs::TXIN_BASE_WEIGHT + i.plan.satisfaction_weight() as u64).sum(),
                input_count: g.len(),
                is_segwit: g.iter().any(|i| i.plan.witness_version().is_some()),
            })
            .collect();
        let rate = match params.fee_strategy {
            FeeStrategy::FeeRate(r) => cs::FeeRate::from_sat_per_wu(r.to_sat_per_kwu() as f32 / 1000.0),
        };
        let target = cs::Target {
            fee: cs::TargetFee::from_feerate(rate),
            outputs: cs::TargetOutputs::fund_outputs(params.outputs.iter().map(|o| (o.txout().weight().to_wu(), o.value.to_sat()))),
        };
        let mut inner = cs::CoinSelector::new(&candidates);
        for k in 0..self.must {
            inner.select(k);
        }
        if !inner.is_selection_possible(target) {
            return Err(Error("the target cannot be met".into()));
        }
        let mut sel = Selector { inner, target, change_policy: params.change_policy };
        algorithm(&mut sel).map_err(|e| Error(format!("{e:?}")))?;
        if !sel.inner.is_target_met(target) {
            return Err(Error("the target is not met".into()));
        }
        let drain = sel.inner.drain(target, params.change_policy);
        let chosen: Vec<usize> = sel.inner.selected_indices().iter().copied().collect();
        let mut outputs = params.outputs;
        if drain.is_some() {
            outputs.push(Output::with_script(params.change.0, Amount::from_sat(drain.value)));
        }
        let mut groups: Vec<Option<Vec<Input>>> = self.groups.into_iter().map(Some).collect();
        let inputs = chosen.into_iter().flat_map(|k| groups[k].take().unwrap()).collect();
        Ok(Selection { inputs, outputs })
    }
}

pub fn group_by_spk() -> impl Fn(&Input) -> ScriptBuf {
    |i| i.txout.script_pubkey.clone()
}

pub fn filter_unspendable_now(tip_height: absolute::Height, _tip_time: absolute::Time) -> impl Fn(&Input) -> bool {
    move |i| {
        !i.is_coinbase
            || i.status.is_some_and(|s| tip_height.to_consensus_u32() + 1 >= s.height.to_consensus_u32() + 100)
    }
}

#[derive(Debug)]
pub struct Selector<'a> {
    inner: cs::CoinSelector<'a>,
    target: cs::Target,
    change_policy: cs::ChangePolicy,
}

pub fn selection_algorithm_lowest_fee_bnb(longterm_feerate: FeeRate, max_rounds: usize) -> impl FnOnce(&mut Selector) -> Result<(), cs::NoBnbSolution> {
    let long_term_feerate = cs::FeeRate::from_sat_per_wu(longterm_feerate.to_sat_per_kwu() as f32 / 1000.0);
    move |s| {
        let metric = cs::metrics::LowestFee { target: s.target, long_term_feerate, change_policy: s.change_policy };
        s.inner.run_bnb(metric, max_rounds).map(|_| ())
    }
}

#[derive(Debug, Clone)]
pub struct Output {
    pub value: Amount,
    pub script: ScriptBuf,
}
impl Output {
    pub fn with_script(script: ScriptBuf, value: Amount) -> Self {
        Self { value, script }
    }
    pub fn txout(&self) -> TxOut {
        TxOut { value: self.value, script_pubkey: self.script.clone() }
    }
}

#[derive(Debug, Clone)]
pub struct ScriptSource(ScriptBuf);
impl ScriptSource {
    pub fn from_script(s: ScriptBuf) -> Self {
        Self(s)
    }
}

#[derive(Debug, Clone)]
pub enum FeeStrategy {
    FeeRate(FeeRate),
}

#[derive(Debug, Clone)]
pub struct SelectorParams {
    pub fee_strategy: FeeStrategy,
    pub outputs: Vec<Output>,
    pub change: ScriptSource,
    pub change_policy: cs::ChangePolicy,
}
impl SelectorParams {
    pub fn new(fee_strategy: FeeStrategy, outputs: Vec<Output>, change: ScriptSource, change_policy: cs::ChangePolicy) -> Self {
        Self { fee_strategy, outputs, change, change_policy }
    }
}

#[derive(Debug, Clone)]
pub struct PsbtParams {
    pub version: transaction::Version,
    pub fallback_locktime: absolute::LockTime,
    pub fallback_sequence: Sequence,
    pub mandate_full_tx_for_segwit_v0: bool,
}
impl Default for PsbtParams {
    fn default() -> Self {
        Self {
            version: transaction::Version::TWO,
            fallback_locktime: absolute::LockTime::ZERO,
            fallback_sequence: Sequence::ENABLE_LOCKTIME_NO_RBF,
            mandate_full_tx_for_segwit_v0: true,
        }
    }
}

#[derive(Debug, Clone)]
pub struct Selection {
    pub inputs: Vec<Input>,
    pub outputs: Vec<Output>,
}
impl Selection {
    pub fn create_psbt(&self, params: PsbtParams) -> Result<Psbt, Error> {
        let mut p = Psbt::from_unsigned_tx(Transaction {
            version: params.version,
            lock_time: params.fallback_locktime,
            input: self
                .inputs
                .iter()
                .map(|i| TxIn {
                    previous_output: i.outpoint,
                    sequence: params.fallback_sequence,
                    ..Default::default()
                })
                .collect(),
            output: self.outputs.iter().map(|o| o.txout()).collect(),
        })
        .map_err(|e| Error(e.to_string()))?;
        for (i, pi) in self.inputs.iter().zip(&mut p.inputs) {
            i.plan.update_psbt_input(pi);
            if i.plan.witness_version().is_some() {
                pi.witness_utxo = Some(i.txout.clone());
            }
            pi.non_witness_utxo = Some((*i.tx).clone());
        }
        Ok(p)
    }
    pub fn into_finalizer(self) -> Finalizer {
        Finalizer { plans: self.inputs.into_iter().map(|i| (i.outpoint, i.plan)).collect() }
    }
}

#[derive(Debug)]
pub struct Finalizer {
    plans: HashMap<OutPoint, Plan>,
}
#[derive(Debug)]
pub struct FinalizeMap(pub BTreeMap<usize, Result<bool, miniscript::Error>>);
impl Finalizer {
    pub fn finalize(&self, psbt: &mut Psbt) -> FinalizeMap {
        FinalizeMap((0..psbt.inputs.len()).map(|k| (k, self.finalize_input(psbt, k))).collect())
    }
    pub fn finalize_input(&self, psbt: &mut Psbt, k: usize) -> Result<bool, miniscript::Error> {
        if psbt.inputs[k].final_script_sig.is_some() || psbt.inputs[k].final_script_witness.is_some() {
            return Ok(true);
        }
        let Some(plan) = self.plans.get(&psbt.unsigned_tx.input[k].previous_output) else { return Ok(false) };
        let (stack, script) = plan.satisfy(&PsbtInputSatisfier::new(psbt, k))?;
        let old = std::mem::take(&mut psbt.inputs[k]);
        psbt.inputs[k] = psbt::Input { non_witness_utxo: old.non_witness_utxo, witness_utxo: old.witness_utxo, ..Default::default() };
        if !script.is_empty() {
            psbt.inputs[k].final_script_sig = Some(script);
        }
        if !stack.is_empty() {
            psbt.inputs[k].final_script_witness = Some(Witness::from_slice(&stack));
        }
        Ok(true)
    }
}

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
