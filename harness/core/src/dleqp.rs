use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use dleq::{dleq_generate_proof, dleq_verify_proof};
use kit::model::{self, secp, Dleq};
use kit::{bad, ensure, run, Bad, Obs, Rng, Spec};
use serde_json::json;

struct Inst {
    a: SecretKey,
    pa: PublicKey,
    b: PublicKey,
    c: PublicKey,
    g: PublicKey,
    r: [u8; 32],
    m: Option<[u8; 32]>,
}

fn generator() -> PublicKey {
    let mut one = [0u8; 32];
    one[31] = 1;
    model::point_of(&one)
}

fn inst(r: &mut Rng) -> Inst {
    let a = r.sk();
    let g = if r.chance(1, 2) { generator() } else { r.sk().public_key(secp()) };
    let b = match r.below(12) {
        0 => g,
        1 => a.public_key(secp()),
        2 => generator(),
        _ => r.sk().public_key(secp()),
    };
    let rr = match r.below(6) {
        0 => [0u8; 32],
        1 => [0xff; 32],
        2 => a.secret_bytes(),
        _ => r.bytes(),
    };
    let m = match r.below(5) {
        0 => None,
        1 => Some([0u8; 32]),
        2 => Some([0xff; 32]),
        _ => Some(r.bytes()),
    };
    Inst { pa: model::mul_point(&g, &a.secret_bytes()), c: model::mul_point(&b, &a.secret_bytes()), a, b, g, r: rr, m }
}

pub fn c15() -> i32 {
    run(
        Spec {
            prop: "C15",
            rule: "random and edge secrets, points (including B=G, B=A), generators, auxiliary randomness and messages; the proof is produced, accepted by the library's verifier and by an independent BIP374 verifier, and equal to the proof an independent BIP374 prover makes",
            quick: 16000,
            thorough: 80000,
            require: &[("proofs", 4000), ("with_message", 2000), ("without_message", 500), ("other_generator", 1000)],
            assumptions: &["libsecp256k1 group arithmetic and SHA256 are trusted"],
            threads: 0,
        },
        |r, o, _| {
            let i = inst(r);
            let p = match dleq_generate_proof(i.a, i.b, &i.r, i.g, i.m.as_ref()) {
                Ok(p) => p,
                Err(e) => return bad("no-proof", format!("no proof for a true statement: {e}")),
            };
            o.count("proofs");
            o.count(if i.m.is_some() { "with_message" } else { "without_message" });
            if i.g != generator() {
                o.count("other_generator");
            }
            o.nontrivial = true;
            o.distinct(&format!("{p:02x?}"));
            let v = dleq_verify_proof(i.pa, i.b, i.c, &p, i.g, i.m.as_ref());
            ensure!(matches!(v, Ok(true)), "own-proof-rejected", "verifier says {v:?} to an honest proof");
            ensure!(Dleq::verify(&i.pa, &i.b, &i.c, &p, &i.g, i.m.as_ref()), "not-bip374", "an independent BIP374 verifier rejects the proof");
            let want = Dleq::prove(&i.a, &i.b, &i.r, &i.g, i.m.as_ref());
            ensure!(p == want, "not-bip374", "proof differs from BIP374: {p:02x?} expected {want:02x?}");
            // an independent proof is accepted too
            let w2 = Dleq::prove(&i.a, &i.b, &r.bytes(), &i.g, i.m.as_ref());
            let v = dleq_verify_proof(i.pa, i.b, i.c, &w2, i.g, i.m.as_ref());
            ensure!(matches!(v, Ok(true)), "foreign-proof-rejected", "verifier says {v:?} to an independent honest proof");
            if o.sample.is_none() {
                o.sample = Some(json!({"message": i.m.is_some(), "a_point": i.pa.to_string()}));
            }
            Ok(())
        },
    )
}

fn must_fail(o: &mut Obs, what: &str, a: PublicKey, b: PublicKey, c: PublicKey, p: &[u8; 64], g: PublicKey, m: Option<&[u8; 32]>) -> Result<(), Bad> {
    let v = dleq_verify_proof(a, b, c, p, g, m);
    let want = Dleq::verify(&a, &b, &c, p, &g, m);
    o.count("verifications");
    o.count(&format!("tamper:{what}"));
    if want {
        // the tampering happened to be a no-op
        ensure!(matches!(v, Ok(true)), "verdict", "{what}: verifier says {v:?}, BIP374 accepts");
        return Ok(());
    }
    o.count("rejected");
    ensure!(!matches!(v, Ok(true)), "accepts-false", "{what}: a proof that does not prove the statement is accepted");
    Ok(())
}

pub fn c16() -> i32 {
    run(
        Spec {
            prop: "C16",
            rule: "honest proofs with one thing changed: each point (replaced, negated, swapped with another), message (changed, dropped, added), generator, every bit region of the proof, e or s replaced by 0, n, n-1, values beyond n; proofs for false statements (C not a*B), degenerate proofs and challenge-grinding forgeries; accepted exactly when the independent verifier accepts",
            quick: 3000,
            thorough: 60000,
            require: &[("verifications", 20000), ("rejected", 15000)],
            assumptions: &["libsecp256k1 group arithmetic and SHA256 are trusted", "soundness is observed against listed forgery strategies, not proved"],
            threads: 0,
        },
        |r, o, _| {
            let i = inst(r);
            let p = Dleq::prove(&i.a, &i.b, &i.r, &i.g, i.m.as_ref());
            let m = i.m.as_ref();
            o.nontrivial = true;
            o.distinct(&format!("{p:02x?}"));
            let rp = r.sk().public_key(secp());
            let neg = |x: PublicKey| x.negate(secp());
            must_fail(o, "A replaced", rp, i.b, i.c, &p, i.g, m)?;
            must_fail(o, "B replaced", i.pa, rp, i.c, &p, i.g, m)?;
            must_fail(o, "C replaced", i.pa, i.b, rp, &p, i.g, m)?;
            must_fail(o, "G replaced", i.pa, i.b, i.c, &p, rp, m)?;
            must_fail(o, "A negated", neg(i.pa), i.b, i.c, &p, i.g, m)?;
            must_fail(o, "B negated", i.pa, neg(i.b), i.c, &p, i.g, m)?;
            must_fail(o, "C negated", i.pa, i.b, neg(i.c), &p, i.g, m)?;
            must_fail(o, "G negated", i.pa, i.b, i.c, &p, neg(i.g), m)?;
            must_fail(o, "all negated", neg(i.pa), neg(i.b), neg(i.c), &p, neg(i.g), m)?;
            must_fail(o, "A and C swapped", i.c, i.b, i.pa, &p, i.g, m)?;
            must_fail(o, "A and B swapped", i.b, i.pa, i.c, &p, i.g, m)?;
            must_fail(o, "B and G swapped", i.pa, i.g, i.c, &p, i.b, m)?;
            must_fail(o, "swapped pairs", i.c, i.g, i.pa, &p, i.b, m)?;
            let m2 = r.bytes::<32>();
            must_fail(o, "message replaced", i.pa, i.b, i.c, &p, i.g, Some(&m2))?;
            match m {
                Some(x) => {
                    must_fail(o, "message dropped", i.pa, i.b, i.c, &p, i.g, None)?;
                    let mut y = *x;
                    y[r.below(32)] ^= 1 << r.below(8);
                    must_fail(o, "message bit", i.pa, i.b, i.c, &p, i.g, Some(&y))?;
                }
                None => must_fail(o, "zero message added", i.pa, i.b, i.c, &p, i.g, Some(&[0; 32]))?,
            }
            // proof bytes
            for _ in 0..4 {
                let mut q = p;
                q[r.below(64)] ^= 1 << r.below(8);
                must_fail(o, "proof bit", i.pa, i.b, i.c, &q, i.g, m)?;
            }
            let order: [u8; 32] = [
                0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae,
                0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
            ];
            let mut nm1 = order;
            nm1[31] -= 1;
            for (half, name) in [(0usize, "e"), (32, "s")] {
                for v in [[0u8; 32], order, nm1, [0xff; 32], r.bytes()] {
                    let mut q = p;
                    q[half..half + 32].copy_from_slice(&v);
                    must_fail(o, &format!("{name} replaced"), i.pa, i.b, i.c, &q, i.g, m)?;
                }
            }
            must_fail(o, "zero proof", i.pa, i.b, i.c, &[0; 64], i.g, m)?;
            let mut sw = p;
            sw[..32].copy_from_slice(&p[32..]);
            sw[32..].copy_from_slice(&p[..32]);
            must_fail(o, "e and s swapped", i.pa, i.b, i.c, &sw, i.g, m)?;
            // false statement: C = a'*B. Prover knowing both a and a' tries each way.
            let a2 = loop {
                let x = r.sk();
                if x != i.a && x != i.a.negate() {
                    break x;
                }
            };
            let c2 = model::mul_point(&i.b, &a2.secret_bytes());
            let k = r.sk();
            let r1 = model::mul_point(&i.g, &k.secret_bytes());
            let r2 = model::mul_point(&i.b, &k.secret_bytes());
            let e = Dleq::challenge(&i.pa, &i.b, &c2, &i.g, &r1, &r2, m);
            for x in [i.a, a2] {
                let ex = x.mul_tweak(&Scalar::from_be_bytes(e).unwrap()).unwrap();
                if let Ok(s) = k.add_tweak(&Scalar::from(ex)) {
                    let mut q = [0u8; 64];
                    q[..32].copy_from_slice(&e);
                    q[32..].copy_from_slice(&s.secret_bytes());
                    must_fail(o, "forgery for false C", i.pa, i.b, c2, &q, i.g, m)?;
                }
            }
            // weak Fiat-Shamir forgeries: proofs that would pass if one element were left out of
            // the challenge, or if only one of the two equations were checked
            forge_weak(r, o, &i, &c2)?;
            // statement reuse: proof made for other message / other B is not valid here
            let p2 = Dleq::prove(&i.a, &rp, &i.r, &i.g, m);
            must_fail(o, "proof of another B", i.pa, i.b, i.c, &p2, i.g, m)?;
            if o.sample.is_none() {
                o.sample = Some(json!({"message": i.m.is_some(), "statement": [i.pa.to_string(), i.b.to_string(), i.c.to_string()]}));
            }
            Ok(())
        },
    )
}

/// For a false C, forge a proof against verifiers that omit parts of the challenge or of the
/// equations.
fn forge_weak(r: &mut Rng, o: &mut Obs, i: &Inst, c2: &PublicKey) -> Result<(), Bad> {
    let m = i.m.as_ref();
    // simulate: choose e, s freely, compute R1, R2 from the equations; valid only if the hash is
    // ignored
    let (e, s) = (r.sk().secret_bytes(), r.sk().secret_bytes());
    let mut q = [0u8; 64];
    q[..32].copy_from_slice(&e);
    q[32..].copy_from_slice(&s);
    must_fail(o, "simulated transcript", i.pa, i.b, *c2, &q, i.g, m)?;
    // challenges that omit one element each; then pick that element afterwards to satisfy the
    // equations: with e fixed by a hash without C, C = e^-1 (s*B - R2)
    let k = r.sk();
    let k2 = r.sk();
    let r1 = model::mul_point(&i.g, &k.secret_bytes());
    let r2 = model::mul_point(&i.b, &k2.secret_bytes());
    let ser = |p: &PublicKey| p.serialize().to_vec();
    let all = [ser(&i.pa), ser(&i.b), vec![], ser(&i.g), ser(&r1), ser(&r2), m.map(|x| x.to_vec()).unwrap_or_default()];
    let parts: Vec<&[u8]> = all.iter().map(|v| v.as_slice()).collect();
    let e = model::tagged("BIP0374/challenge", &parts);
    let es = Scalar::from_be_bytes(e).unwrap();
    let s = k.add_tweak(&Scalar::from(i.a.mul_tweak(&es).unwrap()));
    if let Ok(s) = s {
        // C such that s*B - e*C = R2
        let t = model::mul_point(&i.b, &s.secret_bytes()).combine(&r2.negate(secp()));
        if let Ok(t) = t {
            let c = model::mul_point(&t, &model_inv(&e));
            let mut q = [0u8; 64];
            q[..32].copy_from_slice(&e);
            q[32..].copy_from_slice(&s.secret_bytes());
            must_fail(o, "challenge without C", i.pa, i.b, c, &q, i.g, m)?;
        }
    }
    // challenge without R2: only the first equation is bound
    let all = [ser(&i.pa), ser(&i.b), ser(c2), ser(&i.g), ser(&r1)];
    for with_m in [false, true] {
        let mut parts: Vec<&[u8]> = all.iter().map(|v| v.as_slice()).collect();
        if with_m {
            if let Some(x) = m {
                parts.push(x);
            }
        }
        let e = model::tagged("BIP0374/challenge", &parts);
        let es = Scalar::from_be_bytes(e).unwrap();
        if let Ok(s) = k.add_tweak(&Scalar::from(i.a.mul_tweak(&es).unwrap())) {
            let mut q = [0u8; 64];
            q[..32].copy_from_slice(&e);
            q[32..].copy_from_slice(&s.secret_bytes());
            must_fail(o, "challenge without R2", i.pa, i.b, *c2, &q, i.g, m)?;
        }
    }
    Ok(())
}

/// Inverse mod n by Fermat: e^(n-2).
fn model_inv(e: &[u8; 32]) -> [u8; 32] {
    let exp: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc,
        0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x3f,
    ];
    let base = SecretKey::from_slice(e).unwrap();
    let mut acc: Option<SecretKey> = None;
    for byte in exp {
        for bit in (0..8).rev() {
            if let Some(a) = acc {
                acc = Some(a.mul_tweak(&Scalar::from(a)).unwrap());
            }
            if (byte >> bit) & 1 == 1 {
                acc = Some(match acc {
                    None => base,
                    Some(a) => a.mul_tweak(&Scalar::from(base)).unwrap(),
                });
            }
        }
    }
    acc.unwrap().secret_bytes()
}
