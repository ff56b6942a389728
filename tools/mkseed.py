#!/usr/bin/env python3
"""Development tool (no check uses it): make /verif/seeded/<id> from a definition file.

A definition is a python file setting ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], KIND
('core' | 'idx' | 'orc' | 'cli' | 'wal' | 'cli2' | 'cbf') and DEMO (rust main.rs)."""
import json, os, shutil, subprocess, sys
REPO = '/repo'
DEPS = {
 'core': ('core', '''bdk_sp = { path = "$repo/silentpayments", features = ["serde", "psbt_sp_spend"] }
dleq = { path = "$repo/dleq" }
bitcoin = { version = "0.32.6", features = ["serde", "base64"] }
serde_json = "1"
'''),
 'idx': ('idx', '''bdk_sp = { path = "$repo/silentpayments", features = ["serde"] }
indexer = { path = "$repo/indexer", features = ["serde"] }
bdk_chain = { version = "0.23.0", features = ["serde"] }
bitcoin = { version = "0.32.6", features = ["serde", "base64"] }
serde_json = "1"
'''),
 'orc': ('orc', '''bdk_sp = { path = "$repo/silentpayments", features = ["serde"] }
indexer = { path = "$repo/indexer", features = ["serde"] }
oracles = { package = "bdk_sp_oracles", path = "$repo/oracles" }
bip157 = "0.2.0"
bitcoin = { version = "0.32.7", features = ["serde"] }
redb = "2.4.0"
serde_json = "1"
futures = "0.3"
tokio = { version = "1.47", features = ["rt-multi-thread", "net", "time", "sync", "io-util", "macros"] }
[patch.crates-io]
bip157 = { path = "bip157" }
'''),
 'cli': ('cli', '''bdk_sp = { version = "0.1.0", path = "$repo/silentpayments/", features = ["serde"]}
bdk_file_store = "0.21.0"
bdk_chain = { version = "0.23.0", features = ["serde", "miniscript"]}
bdk_bitcoind_rpc = { version = "0.20.0" }
bdk_coin_select = { version = "0.4.0" }
miniscript = { version = "12.0.0", default-features = true }
serde_json = "1.0"
clap = { version = "4.5.17", features = ["derive", "env"] }
anyhow = "1"
bitcoin = { version = "0.32.0", features = ["base64"], default-features = false }
serde = "1.0.219"
rand = "0.9.0"
indexer = { version = "0.1.0", path = "$repo/indexer", features = ["serde"]}
[[bin]]
name = "demo"
path = "src/main.rs"
[[bin]]
name = "sp-cli1"
path = "$repo/cli/v1/src/main.rs"
'''),
}
DEPS['wal'] = ('wal', DEPS['idx'][1] + '''bdk_sp_wallet = { path = "wallet", features = ["serde"] }
bincode = "1"
''')
DEPS['cli2'] = ('wal', '''bdk_sp = { version = "0.1.0", path = "$repo/silentpayments/", features = ["serde", "psbt_sp_spend"]}
bdk_file_store = "0.21.0"
bdk_chain = { version = "0.23.0", features = ["serde", "miniscript"]}
bdk_bitcoind_rpc = { version = "0.20.0" }
bdk_coin_select = { version = "0.4.0" }
miniscript = { version = "12.0.0", features = [ "base64" ]}
bitcoin = { version = "0.32.0", features = ["serde", "base64"] }
serde_json = "1.0"
clap = { version = "4.5.17", features = ["derive", "env"] }
anyhow = "1"
serde = "1.0.219"
rand = "0.9.0"
indexer = { version = "0.1.0", path = "$repo/indexer", features = ["serde"]}
bdk_sp_wallet = { path = "wallet", features = ["serde"] }
bdk_sp_oracles = { version = "0.1.0", path = "$repo/oracles" }
tracing = "0.1.41"
tracing-subscriber = { path = "tracing_subscriber" }
[[bin]]
name = "demo"
path = "src/main.rs"
[[bin]]
name = "sp-cli2"
path = "$repo/cli/v2/src/main.rs"
[patch.crates-io]
bip157 = { path = "bip157" }
''')
# the wallet needs crates which are not in the offline cache: stand-ins lie beside the demonstration
STUBS = '''mkdir -p "$d/wallet" "$d/bdk_tx/src" "$d/tracing_subscriber/src"
cp "$here/bdk_tx.rs" "$d/bdk_tx/src/lib.rs"
sed "/^.workspace.$/d" "$here/bdk_tx.toml" > "$d/bdk_tx/Cargo.toml"
cp "$here/tracing_subscriber.rs" "$d/tracing_subscriber/src/lib.rs"
sed "/^.workspace.$/d" "$here/tracing_subscriber.toml" > "$d/tracing_subscriber/Cargo.toml"
sed "s#/repo/#$repo/#; /^.workspace.$/d" "$here/wallet.toml" > "$d/wallet/Cargo.toml"
'''
PRE = '''# a copy of bip157 whose filter events can be made outside the crate
mkdir "$d/bip157"
cp -r "$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/bip157-0.2.0 | head -1)/." "$d/bip157/"
cat >> "$d/bip157/src/lib.rs" <<'R'
impl IndexedFilter {
    pub fn for_demo(height: u32, contents: Vec<u8>, hash: BlockHash) -> Self {
        Self::new(height, crate::chain::Filter::new(contents, hash))
    }
}
impl SyncUpdate {
    pub fn for_demo(tip: HeaderCheckpoint) -> Self {
        Self::new(tip, Default::default())
    }
}
R
'''
# and a node that takes its events from a script
SCRIPTED = PRE + '''sed -i 's/^    pub async fn run(mut self) -> Result<(), NodeError> {$/&\\
        if let Ok(port) = std::env::var("VP_NODE") {\\
            return self.scripted(port).await;\\
        }/' "$d/bip157/src/node.rs"
cat "$here/scripted.rs" >> "$d/bip157/src/node.rs"
'''
DEPS['cbf'] = DEPS['cli2']
SH = '''#!/bin/bash
# Run with cwd = the repository, after it was built. Exit 0: the property holds here.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
mkdir "$d/src" "$d/work"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
#PRE#cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
%s[profile.dev]
debug = 0
incremental = false
[profile.dev.package."*"]
opt-level = 1
EOF
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1
export CARGO_TARGET_DIR=${DEMO_TARGET:-$d/target}
export REPO=$repo
unset RUSTFLAGS CARGO_BUILD_TARGET
cargo build --offline -q --manifest-path "$d/Cargo.toml" || { echo "the demonstration does not build"; exit 3; }
cd "$d/work" && timeout 200 "$CARGO_TARGET_DIR/debug/demo"
'''
def main(path):
    ns = {}
    exec(compile(open(path).read(), path, 'exec'), ns)
    sid = ns['ID']
    assert subprocess.run(['git','-C',REPO,'status','--porcelain'],capture_output=True,text=True).stdout.strip()=='' , 'dirty'
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    for f, old, new in ns['EDITS']:
        p = os.path.join(REPO, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',REPO,'checkout','-q','--','.'],check=True)
    open(f'{d}/patch.diff','w').write(diff)
    json.dump({'property':ns['PROPERTY'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(f'{d}/meta.json','w'),indent=1)
    crate, deps = DEPS[ns['KIND']]
    extra = ns.get('EXTRA_DEPS','')
    open(f'{d}/demo.sh','w').write(SH.replace('#PRE#', {'orc': PRE, 'cli2': PRE + STUBS, 'cbf': SCRIPTED + STUBS, 'wal': STUBS}.get(ns['KIND'], '')) % (deps+extra)); os.chmod(f'{d}/demo.sh',0o755)
    shutil.copy(ns.get('LOCK', f'/verif/harness/{crate}/Cargo.lock'), f'{d}/Cargo.lock')
    open(f'{d}/main.rs','w').write(ns.get('PRELUDE','')+ns['DEMO'])
    if ns['KIND'] == 'cbf':
        shutil.copy('/verif/harness/orc/scripted.rs', f'{d}/scripted.rs')
    if ns['KIND'] in ('wal', 'cli2', 'cbf'):
        H = '/verif/harness'
        for a, b in [('bdk_tx/src/lib.rs', 'bdk_tx.rs'), ('bdk_tx/Cargo.toml', 'bdk_tx.toml'), ('tracing_subscriber/src/lib.rs', 'tracing_subscriber.rs'),
                     ('tracing_subscriber/Cargo.toml', 'tracing_subscriber.toml'), ('spwallet/Cargo.toml', 'wallet.toml')]:
            shutil.copy(f'{H}/{a}', f'{d}/{b}')
    # which removed lines are original
    base = {}
    print(sid, 'written;', sum(1 for l in diff.splitlines() if l[:1] in '+-' and l[:3] not in ('+++','---')), 'changed lines')
for p in sys.argv[1:]: main(p)
