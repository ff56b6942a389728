use crate::v1::{scanner, src, Src};
use crate::world::*;
use bdk_chain::{ConfirmationBlockTime, TxGraph};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::scan::Scanner;
use bitcoin::{Network, OutPoint};
use indexer::v2::SpIndexerV2;
use indexer::{SpIndexer, SpIndexes};
use kit::{bad, ensure, model, run, Spec};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type A = ConfirmationBlockTime;

pub fn c09() -> i32 {
    run(
        Spec {
            prop: "C09",
            rule: "wallet with at least one label that received payments attributed by both indexes; distinct by (registration order, label numbers, kinds of payments)",
            quick: 1500,
            thorough: 15000,
            require: &[("labels_registered", 1800), ("codes_compared", 5000), ("labelled_payments", 3000), ("unregistered_payments", 500), ("re_registered", 1800), ("spend_keys_checked", 4000), ("change_label", 500)],
            assumptions: &["secp256k1 is correct"],
            threads: 0,
        },
        |r, o, _| {
            let mut w = World::new(r, 1);
            let net = *r.pick(&[Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest]);
            let all = w.rv.labels.clone();
            let mut reg: Vec<u32> = all.iter().copied().filter(|_| r.chance(3, 4)).collect();
            r.shuffle(&mut reg);
            let base = SilentPaymentCode::new_v0(w.rv.scan_pk(), w.rv.spend_pk(), net);
            let mut v1 = SpIndexes::default();
            let mut v2: SpIndexerV2<A> = SpIndexerV2::new(w.rv.scan, w.rv.spend_pk());
            let mut codes: BTreeSet<String> = BTreeSet::new();
            codes.insert(base.to_string());
            let want_base = model::encode_code(hrp(net), 0, &w.rv.scan_pk(), &w.rv.spend_pk());
            ensure!(base.to_string() == want_base, "base-code", "base code {base}, should be {want_base}");
            ensure!(v2.get_address(net) == base, "v2-base-code", "second index shows {} as the base code", v2.get_address(net));
            for m in &reg {
                o.count("labels_registered");
                if *m == 0 {
                    o.count("change_label");
                }
                let h = model::label_hash(&w.rv.scan, *m);
                let got = SilentPaymentCode::get_label(w.rv.scan, *m);
                ensure!(got.to_be_bytes() == h, "label-tweak", "label {m}: tweak {:?} should be {h:?}", got.to_be_bytes());
                let want = model::encode_code(hrp(net), 0, &w.rv.scan_pk(), &w.rv.b_m(Some(*m)));
                let (c, before) = match v1.add_label(base.clone(), w.rv.scan, *m) {
                    Ok(c) => (c, v1.clone()),
                    Err(e) => return bad("add-label", format!("label {m} refused by the first index: {e}")),
                };
                ensure!(c.to_string() == want, "labelled-code", "label {m}: first index gives code {c}, should be {want}");
                let k = match base.add_label(got) {
                    Ok(k) => k,
                    Err(e) => return bad("add-label", format!("label {m} refused: {e}")),
                };
                ensure!(k.to_string() == want, "labelled-code", "label {m}: code {k}, should be {want}");
                let via_address = r.chance(1, 2);
                if !via_address {
                    let _ = v2.add_label(*m);
                }
                let c2 = v2.get_labeled_address(*m, net);
                ensure!(c2.to_string() == want, "v2-labelled-code", "label {m}: second index gives code {c2}, should be {want}");
                o.add("codes_compared", 3);
                ensure!(codes.insert(want), "labels-collide", "label {m} gives a code already handed out");
                // again: nothing changes
                let state = v2.index().clone();
                let c = v1.add_label(base.clone(), w.rv.scan, *m).map(|c| c.to_string()).unwrap_or_default();
                ensure!(c == c2.to_string() && before == v1, "re-register", "registering label {m} again changed the first index");
                let _ = v2.add_label(*m);
                ensure!(v2.get_labeled_address(*m, net) == c2 && *v2.index() == state, "re-register", "registering label {m} again changed the second index");
                o.count("re_registered");
                ensure!(v1.get_label(*m).map(|s| s.to_be_bytes()) == Some(h), "get-label", "first index: label {m} has tweak {:?}", v1.get_label(*m));
                ensure!(v2.index().get_label(*m).map(|s| s.to_be_bytes()) == Some(h), "get-label", "second index: label {m} has tweak {:?}", v2.index().get_label(*m));
            }
            for m in all.iter().filter(|m| !reg.contains(m)) {
                ensure!(v1.get_label(*m).is_none() && v2.index().get_label(*m).is_none(), "unregistered-label", "label {m} was never registered but has a tweak");
            }
            let want_map = w.label_map(&reg);
            ensure!(v1.label_to_tweak == want_map, "label-map", "first index maps labels {:?}, should be {want_map:?}", v1.label_to_tweak);
            ensure!(v2.index().label_lookup == want_map, "label-map", "second index maps labels {:?}, should be {want_map:?}", v2.index().label_lookup);

            // payments on all of these codes, and on codes never registered
            let n = r.range(2, 6);
            for _ in 0..n {
                w.pay(r);
            }
            // the first index scans with the labels it registered
            let sc = if r.chance(1, 2) {
                Scanner::new(w.rv.scan, w.rv.spend_pk(), v1.label_to_tweak.clone())
            } else {
                scanner(&w, &reg)
            };
            let mut one: SpIndexer<Src, A> = SpIndexer::new(src(&w), sc, v1, TxGraph::default());
            let mut want: BTreeMap<OutPoint, (Option<u32>, [u8; 32])> = BTreeMap::new();
            for t in &w.txs {
                if let Err(e) = one.index_tx(&t.tx) {
                    return bad("index-error", format!("{e}"));
                }
                let tw = t.tweak.unwrap();
                let _ = v2.batch_insert_relevant([(t.tx.clone(), tw, Vec::<A>::new())]);
                for s in w.spouts(t, Some(&tw), &reg) {
                    want.insert(s.outpoint, (s.label, s.tweak.secret_bytes()));
                }
            }
            let got1: BTreeMap<_, _> = one.indexes.spouts.iter().map(|(k, s)| (*k, (s.label, s.tweak.secret_bytes()))).collect();
            ensure!(got1 == want, "attribution-v1", "first index attributes {got1:?}, should be {want:?}");
            let lab2: BTreeSet<(Option<u32>, OutPoint)> = v2.index().by_label.iter().copied().collect();
            let want2: BTreeSet<(Option<u32>, OutPoint)> = want.iter().map(|(op, (l, _))| (*l, *op)).collect();
            ensure!(lab2 == want2, "attribution-v2", "second index attributes {lab2:?}, should be {want2:?}");
            for (op, c) in &w.coins {
                let Some((l, t)) = want.get(op) else {
                    o.count("unregistered_payments");
                    ensure!(!v2.index().by_shared_secret.contains_key(op), "unregistered-found", "{op} pays an unregistered label but is indexed");
                    continue;
                };
                if l.is_some() {
                    o.count("labelled_payments");
                }
                // the key made from the reported tweak controls the output
                for tw in [one.indexes.spouts[op].tweak.secret_bytes(), v2.index().by_shared_secret[op].secret_bytes(), *t] {
                    let sk = model::add_sk(&w.rv.spend, &tw);
                    let x = model::xonly(&sk.public_key(model::secp()));
                    ensure!(c.txout.script_pubkey == model::p2tr_spk(&x), "spend-key", "output {op} (label {l:?}) is not controlled by spend key plus reported tweak");
                    o.count("spend_keys_checked");
                }
            }
            for m in reg.iter().map(|m| Some(*m)).chain([None]) {
                let mut a: Vec<[u8; 32]> = v2.index().get_by_label(m).map(|s| s.secret_bytes()).collect();
                let mut b: Vec<[u8; 32]> = want.values().filter(|(l, _)| *l == m).map(|(_, t)| *t).collect();
                a.sort();
                b.sort();
                ensure!(a == b, "get-by-label", "second index lists {} outputs under label {m:?}, should be {}", a.len(), b.len());
            }
            o.nontrivial = want.values().any(|(l, _)| l.is_some());
            o.distinct(&format!("{reg:?}|{}", want.values().map(|(l, _)| format!("{l:?}")).collect::<String>()));
            if o.nontrivial && r.chance(1, 50) {
                o.sample = Some(json!({"registered": reg, "unregistered": all.iter().filter(|m| !reg.contains(m)).collect::<Vec<_>>(), "payments": want.len()}));
            }
            Ok(())
        },
    )
}

pub fn hrp(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "sp",
        Network::Regtest => "sprt",
        _ => "tsp",
    }
}
