#!/bin/bash
# A copy of the bip157 crate whose filter events can be made outside the crate (the constructors are
# private), and whose `sleep` can be made to pass quickly on a thread, for servers which are away for
# hours; and whose node, told by VP_NODE, takes its events from a script (scripted.rs). The node of
# that crate is not under test.
set -eu
. "$(dirname "$(readlink -f "$0")")/../../env.sh"
DST=$HERE/.build/bip157
SRC=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/bip157-0.2.0 | head -1)
STAMP=$(cat "$HERE/harness/orc/prepare.sh" "$HERE/harness/orc/scripted.rs" | sha256sum)
if [ "$(cat "$DST/stamp" 2>/dev/null)" != "$STAMP" ]; then
  mkdir -p "$DST"
  cp -r "$SRC/." "$DST/"
  sed -i 's/^pub extern crate tokio;$/pub mod tokio {\
    pub use ::tokio::*;\
    pub mod time {\
        pub use ::tokio::time::*;\
        thread_local!(static FAST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });\
        \/\/\/ Added for the monitors.\
        pub fn fast_sleeps(on: bool) {\
            FAST.with(|f| f.set(on))\
        }\
        pub fn sleep(d: std::time::Duration) -> Sleep {\
            ::tokio::time::sleep(if FAST.with(|f| f.get()) { d \/ 2000 } else { d })\
        }\
    }\
}/' "$DST/src/lib.rs"
  grep -q fast_sleeps "$DST/src/lib.rs"
  cat >> "$DST/src/lib.rs" <<'R'

impl IndexedFilter {
    /// Added for the monitors.
    pub fn for_monitor(height: u32, contents: Vec<u8>, hash: BlockHash) -> Self {
        Self::new(height, crate::chain::Filter::new(contents, hash))
    }
}
R
  sed -i 's/^    pub async fn run(mut self) -> Result<(), NodeError> {$/&\
        if let Ok(port) = std::env::var("VP_NODE") {\
            return self.scripted(port).await;\
        }/' "$DST/src/node.rs"
  grep -q VP_NODE "$DST/src/node.rs"
  cat "$HERE/harness/orc/scripted.rs" >> "$DST/src/node.rs"
  echo "$STAMP" > "$DST/stamp"
fi
