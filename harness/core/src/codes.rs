use crate::util::*;
use bdk_sp::encoding::SilentPaymentCode;
use bitcoin::secp256k1::{PublicKey, Scalar};
use bitcoin::Network;
use kit::gen::Receiver;
use kit::model::{self, secp};
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;
use std::collections::HashMap;
use std::sync::Mutex;

fn hrp(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "sp",
        Network::Regtest => "sprt",
        _ => "tsp",
    }
}
fn class(n: Network) -> Network {
    match n {
        Network::Bitcoin => Network::Bitcoin,
        Network::Regtest => Network::Regtest,
        _ => Network::Testnet,
    }
}

pub fn c07() -> i32 {
    let seen: Mutex<HashMap<String, (PublicKey, PublicKey, Network)>> = Mutex::new(HashMap::new());
    run(
        Spec {
            prop: "C07",
            rule: "random and edge keys, all networks, all readable versions, labelled codes; text form compared with an independent bech32m/BIP352 encoder and parsed back, in lower and upper case; distinct codes are tracked over the whole run for collisions",
            quick: 48000,
            thorough: 250000,
            require: &[("roundtrips", 12000), ("uppercase", 3000), ("future_versions", 1500), ("labelled", 2000), ("placeholders", 3000)],
            assumptions: &["text form identifies testnets and signet alike, as BIP352 does"],
            threads: 0,
        },
        |r, o, _| {
            let rv = Receiver::new(r);
            let net = *r.pick(&nets());
            let mut c = SilentPaymentCode::new_v0(rv.scan_pk(), rv.spend_pk(), net);
            ensure!(c.version() == 0 && c.scan == rv.scan_pk() && c.spend == rv.spend_pk() && c.network == net, "new", "new_v0 does not keep its arguments");
            let version = if r.chance(1, 4) { r.range(1, 30) as u8 } else { 0 };
            if version > 0 {
                let s = model::encode_code(hrp(net), version, &c.scan, &c.spend);
                c = match SilentPaymentCode::try_from(s.as_str()) {
                    Ok(x) => x,
                    Err(e) => return bad("parse-future", format!("version {version} code {s} does not parse: {e}")),
                };
                ensure!(c.version() == version, "version", "version {version} parsed as {}", c.version());
                o.count("future_versions");
            }
            if r.chance(1, 4) {
                let m = r.edgy_u32();
                let before = c.clone();
                c = c.add_label(SilentPaymentCode::get_label(rv.scan, m)).map_err(|e| Bad { sig: "label-code".into(), msg: e.to_string(), detail: json!(null) })?;
                ensure!(c.version() == before.version() && c.scan == before.scan && c.network == before.network, "label-keeps", "labelling changed version, scan key or network");
                let want = before.spend.combine(&model::point_of(&model::label_hash(&rv.scan, m))).unwrap();
                ensure!(c.spend == want, "label-spend", "label {m}: spend key {} expected {want}", c.spend);
                o.count("labelled");
            }
            let s = c.to_string();
            let want = model::encode_code(hrp(net), version, &c.scan, &c.spend);
            ensure!(s == want, "format", "text form {s}, expected {want}");
            let n = class(c.network);
            for (text, how) in [(s.clone(), "lower"), (s.to_uppercase(), "upper")] {
                if how == "upper" {
                    if !r.chance(1, 2) {
                        continue;
                    }
                    o.count("uppercase");
                }
                let p = match SilentPaymentCode::try_from(text.as_str()) {
                    Ok(p) => p,
                    Err(e) => return bad("reparse", format!("{how} case form {text} does not parse: {e}")),
                };
                ensure!(p.scan == c.scan && p.spend == c.spend && p.version() == c.version(), "reparse", "{text} parses to other keys or version");
                ensure!(p.network == n, "network", "{text} of {:?} parses as {:?}", c.network, p.network);
                ensure!(p.to_string() == s, "canonical", "{text} formats again as {p}");
                o.count("roundtrips");
                if r.chance(1, 3) {
                    let spk = p.get_placeholder_p2tr_spk();
                    ensure!(spk == c.get_placeholder_p2tr_spk(), "placeholder", "placeholder script differs after a round trip");
                    ensure!(model::is_p2tr(spk.as_bytes()), "placeholder", "placeholder {spk:x} is not P2TR");
                    // same keys with one exchanged must not share the placeholder
                    let mut d = c.clone();
                    match r.below(6) {
                        0 | 1 => d.spend = r.sk().public_key(secp()),
                        2 => d.scan = r.sk().public_key(secp()),
                        3 => d.spend = c.spend.negate(secp()),
                        4 => d.scan = c.scan.negate(secp()),
                        _ => std::mem::swap(&mut d.scan, &mut d.spend),
                    }
                    ensure!((d == c) == (d.scan == c.scan && d.spend == c.spend), "equality", "codes with other keys are equal");
                    if d != c {
                        ensure!(d.get_placeholder_p2tr_spk() != spk, "placeholder", "two different codes share a placeholder script");
                    }
                    o.count("placeholders");
                }
            }
            let mut seen = seen.lock().unwrap();
            let entry = (c.scan, c.spend, n);
            if let Some(x) = seen.insert(format!("{version}:{s}"), entry) {
                ensure!(x == entry, "collision", "{s} stands for two codes");
            }
            o.nontrivial = true;
            o.distinct(&s);
            if o.sample.is_none() {
                o.sample = Some(json!(s));
            }
            Ok(())
        },
    )
}

fn judge_parse(o: &mut Obs, s: &str, what: &str) -> Result<(), Bad> {
    let want = model::decode_code(s);
    let got = SilentPaymentCode::try_from(s);
    o.count("strings_judged");
    match (want, got) {
        (None, Err(_)) => {
            o.count("rejected");
            Ok(())
        }
        (Some(w), Ok(g)) => {
            o.count("accepted");
            ensure!(
                w.scan == g.scan && w.spend == g.spend && w.version == g.version() && hrp(g.network) == w.hrp,
                "parsed-wrong",
                "{what}: {s} parsed as {g:?}, expected {w:?}"
            );
            Ok(())
        }
        (None, Ok(g)) => bad(&format!("accepts:{what}"), format!("{what}: {s:?} is not a silent payment code but parses as {g:?}")),
        (Some(_), Err(e)) => bad(&format!("rejects:{what}"), format!("{what}: {s:?} is a valid code but is refused: {e}")),
    }
}

fn mutant(r: &mut Rng) -> (String, &'static str) {
    let h = *r.pick(&["sp", "tsp", "sprt"]);
    let (scan, spend) = (r.sk().public_key(secp()), r.sk().public_key(secp()));
    let mut payload = scan.serialize().to_vec();
    payload.extend_from_slice(&spend.serialize());
    let version = match r.below(4) {
        0 => r.below(32) as u8,
        _ => 0,
    };
    let with = |h: &str, v: u8, p: &[u8]| {
        let mut d = vec![v];
        d.extend(model::to_fives(p));
        model::bech32_encode(h, &d, model::BECH32M)
    };
    let good = with(h, version, &payload);
    match r.below(20) {
        0 => (good, "plain"),
        1 | 2 => {
            // up to four character substitutions; bech32m guarantees detection
            let mut b = good.into_bytes();
            let n = r.range(1, 4);
            for _ in 0..n {
                let i = r.range(h.len() + 1, b.len() - 1);
                let c = *r.pick(b"qpzry9x8gf2tvdw0s3jn54khce6mua7l");
                b[i] = c;
            }
            (String::from_utf8(b).unwrap(), "substitution")
        }
        3 => {
            let mut b = good.into_bytes();
            let i = r.range(h.len() + 1, b.len() - 2);
            b.swap(i, i + 1);
            (String::from_utf8(b).unwrap(), "transposition")
        }
        4 => {
            let mut b = good.into_bytes();
            let i = r.below(b.len());
            b[i] = b[i].to_ascii_uppercase();
            (String::from_utf8(b).unwrap(), "mixed case")
        }
        5 => {
            let mut d = vec![version];
            d.extend(model::to_fives(&payload));
            (model::bech32_encode(h, &d, 1), "bech32 checksum")
        }
        6 => {
            let n = match r.below(4) {
                0 => r.below(5),
                1 => 65,
                2 => 67 + r.below(40),
                _ => 60 + r.below(12),
            };
            let mut p = payload.clone();
            while p.len() < n {
                p.push(r.u32() as u8);
            }
            p.truncate(n);
            (with(h, version, &p), "payload length")
        }
        7 => {
            let v = r.below(32) as u8;
            (with(h, v, &payload), "version")
        }
        8 => {
            let hh = *r.pick(&["bc", "tb", "s", "spp", "tsp1", "sptr", "bcrt", "sprt1sp", "a", "t", "sp1"]);
            (with(hh, version, &payload), "foreign prefix")
        }
        9 => {
            let at = *r.pick(&[0usize, 33]);
            let mut p = payload.clone();
            p[at] = *r.pick(&[0u8, 1, 4, 5, 6, 7, 0xff]);
            (with(h, version, &p), "key prefix")
        }
        10 => {
            // x not on the curve
            let at = *r.pick(&[1usize, 34]);
            let mut p = payload.clone();
            loop {
                let x: [u8; 32] = r.bytes();
                if model::xonly_key(&x).is_none() {
                    p[at..at + 32].copy_from_slice(&x);
                    break;
                }
            }
            (with(h, version, &p), "key not on curve")
        }
        11 => {
            // non-zero padding bits
            let mut d = vec![version];
            d.extend(model::to_fives(&payload));
            let l = d.len() - 1;
            d[l] |= r.range(1, 3) as u8;
            (model::bech32_encode(h, &d, model::BECH32M), "padding bits")
        }
        12 => {
            // one superfluous group
            let mut d = vec![version];
            d.extend(model::to_fives(&payload));
            d.push(if r.chance(1, 2) { 0 } else { r.below(32) as u8 });
            (model::bech32_encode(h, &d, model::BECH32M), "extra group")
        }
        13 => {
            // no or hardly any data under a right checksum
            let n = r.below(4);
            let d: Vec<u8> = (0..n).map(|_| r.below(32) as u8).collect();
            let hh = *r.pick(&["sp", "tsp", "sprt", "a"]);
            (model::bech32_encode(hh, &d, model::BECH32M), "empty data")
        }
        14 => {
            let mut s = good;
            let i = r.below(s.len() + 1);
            s.insert(i, *r.pick(&[' ', '\n', '1', 'b', 'i', 'o', 'q', '\u{e9}', '\0', '-']));
            (s, "insertion")
        }
        15 => {
            let mut s = good;
            s.remove(r.below(s.len()));
            (s, "deletion")
        }
        16 => {
            // future versions may carry more data
            let v = r.range(1, 31) as u8;
            let mut p = payload.clone();
            let n = r.below(700);
            p.extend(r.vec(n));
            (with(h, v, &p), "long future version")
        }
        17 => (good.to_uppercase(), "upper case"),
        18 => {
            let n = r.below(120);
            let s: String = (0..n).map(|_| *r.pick(b"sptr1qpzry9x8gf2tvdw0s3jn54khce6mua7lQPZ \x7f") as char).collect();
            (s, "junk")
        }
        _ => {
            // keys swapped, or the same twice: still a code
            let mut p = spend.serialize().to_vec();
            p.extend_from_slice(&spend.serialize());
            (with(h, version, &p), "equal keys")
        }
    }
}

pub fn c08() -> i32 {
    run(
        Spec {
            prop: "C08",
            rule: "strings near valid codes: substitutions, transpositions, insertions, deletions, case, bech32 instead of bech32m, wrong lengths, versions 0-31, foreign prefixes, bad keys, bad padding, empty data, junk; accepted exactly when an independent BIP350/BIP352 parser accepts, with the same meaning",
            quick: 160000,
            thorough: 1000000,
            require: &[("strings_judged", 40000), ("accepted", 4000), ("rejected", 20000)],
            assumptions: &["libsecp256k1 point decoding is trusted"],
            threads: 0,
        },
        |r, o, _| {
            let (s, what) = mutant(r);
            o.count(&format!("mutation:{what}"));
            o.nontrivial = true;
            o.distinct(&s);
            if o.sample.is_none() {
                o.sample = Some(json!({"what": what, "text": s}));
            }
            let _ = Scalar::ONE;
            judge_parse(o, &s, what)
        },
    )
}
