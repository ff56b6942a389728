//! Running the command line wallet and the keys of its descriptors.
use crate::node::Node;
use crate::world::World;
use bitcoin::bip32::{DerivationPath, Xpriv};
use bitcoin::secp256k1::SecretKey;
use bitcoin::{Network, NetworkKind};
use kit::{bad, model, Bad, Rng};
use serde_json::Value;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub ok: bool,
    pub killed: bool,
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

impl Out {
    pub fn json(&self) -> Vec<Value> {
        serde_json::Deserializer::from_str(&self.out).into_iter::<Value>().map_while(Result::ok).collect()
    }
    pub fn field(&self, k: &str) -> Option<Value> {
        self.json().into_iter().find_map(|v| v.get(k).cloned())
    }
    pub fn text(&self, k: &str) -> Option<String> {
        self.field(k).and_then(|v| v.as_str().map(String::from))
    }
    pub fn why(&self) -> String {
        let e: String = self.err.chars().take(600).collect();
        format!("exit {:?}: {e}", self.code)
    }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vp-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Cli {
    pub dir: Scratch,
    pub net: Network,
    pub scan_d: String,
    pub spend_d: String,
    /// The whole wallet, for the second program.
    pub tr_d: String,
    pub two: bool,
    /// The first block the wallet looks at.
    pub birthday: usize,
    pub birthday_hash: String,
    rand: std::cell::Cell<u64>,
}

pub fn program(two: bool) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(if two { "sp-cli2" } else { "sp-cli1" })
}

impl Cli {
    /// Keys for a wallet of the world, chosen by the generator.
    pub fn new(r: &mut Rng, net: Network) -> Self {
        let seed: [u8; 32] = r.bytes();
        let m = Xpriv::new_master(NetworkKind::from(net), &seed).unwrap();
        let n = if r.chance(1, 4) { r.below(1000) } else { 0 };
        let mut c = Self {
            dir: Scratch::new(),
            net,
            scan_d: String::new(),
            spend_d: String::new(),
            tr_d: String::new(),
            two: false,
            birthday: 0,
            birthday_hash: String::new(),
            rand: std::cell::Cell::new(r.next()),
        };
        c.set_keys(&m, n);
        c
    }

    fn set_keys(&mut self, m: &Xpriv, n: usize) {
        let coin = if self.net == Network::Bitcoin { 0 } else { 1 };
        let fp = m.fingerprint(model::secp());
        let d = |what: u8| format!("tr([{fp}]{m}/352h/{coin}h/0h/{what}h/{n})");
        (self.scan_d, self.spend_d, self.tr_d) = (d(1), d(0), format!("tr([{fp}]{m})"));
    }

    /// A wallet for the second interface, with keys chosen by the generator.
    pub fn new_two(r: &mut Rng, net: Network) -> Self {
        let mut c = Self::new(r, net);
        let m: Xpriv = c.tr_d.trim_end_matches(')').rsplit(']').next().unwrap().parse().unwrap();
        c.set_keys(&m, 0);
        c.two = true;
        c
    }

    /// A wallet made by the second program, which chooses the keys.
    pub fn create(r: &mut Rng, net: Network) -> Result<Self, Bad> {
        let mut c = Self::new_two(r, net);
        c.birthday = if r.chance(1, 2) { 0 } else { r.range(1, 6) };
        let hash = format!("{:064x}", r.next());
        let (n, b) = (net.to_string(), c.birthday.to_string());
        let genesis = bitcoin::constants::genesis_block(net).block_hash().to_string();
        let mut args = vec!["create", "--network", &n, "--birthday-height", &b, "--birthday-hash", &hash];
        if r.chance(1, 3) {
            args.push(&genesis);
        }
        let o = c.must(&args, "create")?;
        let Some(d) = o.text("tr_xprv") else { return bad("create", format!("create prints {:?}", o.out)) };
        let parts = d.strip_prefix("tr([").and_then(|x| x.strip_suffix(')')).and_then(|x| x.split_once(']'));
        let Some((fp, m)) = parts.and_then(|(f, x)| Some((f, x.parse::<Xpriv>().ok()?))) else { return bad("create", format!("create prints {d}")) };
        if fp != m.fingerprint(model::secp()).to_string() || m.network != NetworkKind::from(net) || m.depth != 0 {
            return bad("create", format!("the key made for {net} is {d}"));
        }
        if r.chance(1, 4) {
            // another wallet does not take the place of the first
            let o = c.run(&args);
            if o.ok || o.text("tr_xprv").is_some_and(|x| x == d) {
                return bad("create-twice", "a second wallet is made over the first one, or with the same keys");
            }
        }
        c.set_keys(&m, 0);
        c.birthday_hash = hash;
        c.check_birthday()?;
        Ok(c)
    }

    pub fn check_birthday(&self) -> Result<(), Bad> {
        let hash = &self.birthday_hash;
        let o = self.must(&["birthday"], "birthday")?;
        if o.field("height").and_then(|v| v.as_u64()) != Some(self.birthday as u64) || o.text("hash").as_ref() != Some(hash) {
            return bad("birthday", format!("the birthday is {} {hash}, shown as {:?}", self.birthday, o.out));
        }
        Ok(())
    }

    pub fn keys(&self) -> Option<(SecretKey, SecretKey)> {
        Some((key_of(&self.scan_d)?, key_of(&self.spend_d)?))
    }

    pub fn run(&self, args: &[&str]) -> Out {
        self.run_with(args, None)
    }

    pub fn run_with(&self, args: &[&str], node: Option<&Node>) -> Out {
        let clock = self.dir.0.join("clock").display().to_string();
        match node {
            Some(n) => self.run_env(args, &[("VP_CLOCK", clock)], &|| n.st().held),
            None => self.run_env(args, &[], &|| false),
        }
    }

    /// With more environment, killed when `held` says so.
    pub fn run_env(&self, args: &[&str], env: &[(&str, String)], held: &dyn Fn() -> bool) -> Out {
        let mut c = Command::new(program(self.two));
        self.rand.set(self.rand.get().wrapping_add(1));
        c.args(args)
            .current_dir(&self.dir.0)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &self.dir.0)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(self.dir.0.join("stdout")).expect("scratch"))
            .stderr(std::fs::File::create(self.dir.0.join("stderr")).expect("scratch"));
        c.env("LD_PRELOAD", kit::run::verif_dir().join(".build/clock.so")).env("VP_RAND", self.rand.get().to_string());
        c.envs(env.iter().map(|(k, v)| (k, v)));
        let mut child = c.spawn().expect("running the wallet");
        let start = Instant::now();
        let mut killed = false;
        let mut nap = 200;
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break s;
            }
            if !killed && (held() || start.elapsed() > Duration::from_secs(120)) {
                let _ = child.kill();
                killed = true;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 3 / 2).min(4000);
        };
        let read = |f: &str| String::from_utf8_lossy(&std::fs::read(self.dir.0.join(f)).unwrap_or_default()).into_owned();
        Out { ok: status.success(), killed, code: status.code(), out: read("stdout"), err: read("stderr") }
    }

    pub fn must(&self, args: &[&str], what: &str) -> Result<Out, Bad> {
        let o = self.run(args);
        if !o.ok {
            return bad(&format!("{what}-fails"), format!("{what} fails: {}", o.why()));
        }
        Ok(o)
    }

    pub fn hrp(&self) -> &'static str {
        match self.net {
            Network::Bitcoin => "sp",
            Network::Regtest => "sprt",
            _ => "tsp",
        }
    }

    pub fn code_of(&self, w: &World, label: Option<u32>) -> String {
        model::encode_code(self.hrp(), 0, &w.rv.scan_pk(), &w.rv.b_m(label))
    }

    pub fn scan_args(&self, w: &World, node: &Node) -> Vec<String> {
        if self.two {
            return vec!["scan-rpc".into(), "--url".into(), format!("127.0.0.1:{}", node.port)];
        }
        ["scan", "--scan", &self.scan_d, "--code", &self.code_of(w, None), "--url", &format!("127.0.0.1:{}", node.port)]
            .iter()
            .map(|s| s.to_string())
            .collect()
    }

    /// `init`, check the code shown, register every label but those returned.
    pub fn setup(&self, r: &mut Rng, w: &World) -> Result<(), Bad> {
        if self.two {
            return self.check_code(w);
        }
        let n = self.net.to_string();
        self.must(&["init", "--network", &n, "--scan", &self.scan_d, "--spend", &self.spend_d], "init")?;
        if r.chance(1, 4) {
            // a second init must not take the place of the first
            let o = self.run(&["init", "--network", &n, "--scan", &self.spend_d, "--spend", &self.scan_d]);
            if o.ok {
                return bad("init-twice", "a second init succeeds over an existing wallet");
            }
        }
        self.check_code(w)
    }

    pub fn check_code(&self, w: &World) -> Result<(), Bad> {
        let o = self.must(&["code"], "code")?;
        let want = self.code_of(w, None);
        match o.text("silent_payment_code") {
            Some(c) if c == want => Ok(()),
            c => bad("code", format!("the wallet shows {c:?}, its keys make {want}")),
        }
    }

    pub fn add_label(&self, w: &World, m: u32) -> Result<(), Bad> {
        let n = m.to_string();
        let (args, name) = if self.two {
            (vec!["code", "--label", &n], "silent_payment_code")
        } else {
            (vec!["code", "--label", &n, "--scan", &self.scan_d], "labelled_silent_payment_code")
        };
        let o = self.must(&args, "code --label")?;
        let want = self.code_of(w, Some(m));
        match o.text(name) {
            Some(c) if c == want => Ok(()),
            c => bad("label-code", format!("the wallet shows {c:?} for label {m}, its keys make {want}")),
        }
    }
}

/// The private key of `tr([fp]xprv/path)`.
pub fn key_of(desc: &str) -> Option<SecretKey> {
    let d = desc.split('#').next()?.strip_prefix("tr(")?.strip_suffix(')')?;
    let d = d.rsplit(']').next()?;
    let (x, path) = d.split_once('/')?;
    let x: Xpriv = x.parse().ok()?;
    let p: DerivationPath = path.parse().ok()?;
    Some(x.derive_priv(model::secp(), &p).ok()?.private_key)
}
