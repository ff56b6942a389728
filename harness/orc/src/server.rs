//! A tweak server (HTTP/1.1 on the loopback interface) which fails in every way a server can, and
//! writes down what it was asked.
use bitcoin::secp256k1::PublicKey;
use kit::Rng;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Drop,
    Reset,
    Err500EmptyList,
    Err404,
    Err429Tweaks,
    Err503,
    Html200,
    ErrorObject200,
    Truncated200,
    CutList200,
    BadKey200,
    EmptyBody200,
    Err204,
    /// no answer, or no end of it, and the connection stays open
    Silence,
}
pub const FAULTS: &[Fault] = &[
    Fault::Drop, Fault::Reset, Fault::Err500EmptyList, Fault::Err404, Fault::Err429Tweaks, Fault::Err503, Fault::Html200,
    Fault::ErrorObject200, Fault::Truncated200, Fault::CutList200, Fault::BadKey200, Fault::EmptyBody200, Fault::Err204,
];

#[derive(Default)]
pub struct State {
    /// tweak and highest taproot output of its transaction, by height of the server's chain
    pub tweaks: BTreeMap<u32, Vec<(PublicKey, u64)>>,
    /// faults still to come, by height
    pub faults: HashMap<u32, Vec<Fault>>,
    /// from then on nothing fails
    pub gone_early: bool,
    pub healed: Option<Instant>,
    pub delay_ms: HashMap<u32, u64>,
    pub log: Vec<(u32, Option<Fault>)>,
    pub unexpected: Vec<String>,
    pub style: u64,
    pub max_parallel: usize,
    pub parallel: usize,
}

pub type Shared = Arc<Mutex<State>>;

fn list(ts: &[PublicKey]) -> String {
    format!("[{}]", ts.iter().map(|t| format!("\"{t}\"")).collect::<Vec<_>>().join(","))
}

pub async fn serve(l: TcpListener, st: Shared, prefix: String) {
    loop {
        let Ok((s, _)) = l.accept().await else { return };
        tokio::spawn(connection(s, st.clone(), prefix.clone()));
    }
}

async fn connection(mut s: TcpStream, st: Shared, prefix: String) {
    let mut buf = vec![];
    loop {
        let head = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                let h = String::from_utf8_lossy(&buf[..p]).to_string();
                buf.drain(..p + 4);
                break h;
            }
            let mut b = [0u8; 4096];
            match s.read(&mut b).await {
                Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
                _ => return,
            }
        };
        let line = head.lines().next().unwrap_or("").to_string();
        let target = line.split(' ').nth(1).unwrap_or("").to_string();
        let (path, query) = target.split_once('?').unwrap_or((&target, ""));
        let path = path.strip_prefix(prefix.as_str()).unwrap_or("?");
        let (height, fault, delay, tweaks, style) = {
            let mut st = st.lock().unwrap();
            st.style = st.style.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let style = st.style >> 33;
            match path.strip_prefix("/tweaks/").and_then(|h| h.parse::<u32>().ok()) {
                Some(h) => {
                    st.parallel += 1;
                    st.max_parallel = st.max_parallel.max(st.parallel);
                    if st.healed.is_some_and(|t| Instant::now() > t) {
                        st.faults.clear();
                        st.gone_early = true;
                    }
                    let f = st.faults.get_mut(&h).and_then(|v| v.pop());
                    st.log.push((h, f));
                    let dust = query
                        .split('&')
                        .find_map(|q| q.strip_prefix("dustLimit="))
                        .and_then(|v| v.parse::<u64>().ok())
                        .unwrap_or(0);
                    let ts: Option<Vec<PublicKey>> = st
                        .tweaks
                        .get(&h)
                        .map(|v| v.iter().filter(|(_, max)| *max >= dust).map(|(t, _)| *t).collect());
                    (Some(h), f, st.delay_ms.get(&h).copied().unwrap_or(0), ts, style)
                }
                None => {
                    if path != "/block-height" && path != "/info" {
                        st.unexpected.push(line.clone());
                    }
                    (None, None, 0, None, style)
                }
            }
        };
        if delay > 0 {
            tokio::time::sleep(Duration::from_millis(delay)).await;
        }
        if height.is_some() {
            st.lock().unwrap().parallel -= 1;
        }
        let right = match (height, path) {
            (Some(_), _) => tweaks.as_ref().map(|t| list(t)),
            (None, "/block-height") => Some("{\"block_height\":812345,\"height\":812345}".into()),
            (None, "/info") => Some(
                "{\"network\":\"signet\",\"height\":812345,\"tweaks_only\":true,\"tweaks_full_basic\":true,\
                 \"tweaks_full_with_dust_filter\":false,\"tweaks_cut_through_with_dust_filter\":true}"
                    .into(),
            ),
            _ => None,
        };
        let fault = if right.is_none() { Some(fault.unwrap_or(Fault::Err404)) } else { fault };
        let right = right.unwrap_or_default();
        let plain = |code: &str, body: &str| {
            format!("HTTP/1.1 {code}\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: {}\r\n\r\n{body}", body.len())
        };
        let (bytes, close): (Vec<u8>, bool) = match fault {
            None => match style % 4 {
                0 if right.len() > 1 => {
                    // chunked
                    let cut = 1 + (style as usize / 4) % (right.len() - 1);
                    let (a, b) = right.split_at(cut);
                    let t = format!(
                        "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n{:x}\r\n{a}\r\n{:x}\r\n{b}\r\n0\r\n\r\n",
                        a.len(), b.len());
                    (t.into_bytes(), false)
                }
                1 => (plain("200 OK", &right.replace(',', ", \n ")).into_bytes(), false),
                2 => {
                    // no length: until the connection ends
                    (format!("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n{right}").into_bytes(), true)
                }
                _ => (plain("200 OK", &right).into_bytes(), false),
            },
            Some(Fault::Drop) => (vec![], true),
            Some(Fault::Reset) => {
                #[allow(deprecated)]
                let _ = s.set_linger(Some(Duration::ZERO));
                (vec![], true)
            }
            Some(Fault::Err500EmptyList) => (plain("500 Internal Server Error", "[]").into_bytes(), false),
            Some(Fault::Err404) => (plain("404 Not Found", "404 page not found").into_bytes(), false),
            Some(Fault::Err429Tweaks) => (plain("429 Too Many Requests", "[]").into_bytes(), false),
            Some(Fault::Err503) => (plain("503 Service Unavailable", "{\"error\":\"syncing\"}").into_bytes(), true),
            Some(Fault::Html200) => (plain("200 OK", "<html><body>maintenance</body></html>").into_bytes(), false),
            Some(Fault::ErrorObject200) => (plain("200 OK", "{\"error\":\"could not retrieve data\"}").into_bytes(), false),
            Some(Fault::Truncated200) => {
                let half = &right[..right.len() / 2];
                (format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{half}", right.len().max(1)).into_bytes(), true)
            }
            Some(Fault::CutList200) => (plain("200 OK", &right[..right.len() - 1]).into_bytes(), false),
            Some(Fault::BadKey200) => {
                let mut t = right.trim_end_matches(']').to_string();
                if t.len() > 1 {
                    t.push(',');
                }
                t.push_str("\"02ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff\"]");
                (plain("200 OK", &t).into_bytes(), false)
            }
            Some(Fault::EmptyBody200) => (plain("200 OK", "").into_bytes(), false),
            Some(Fault::Silence) => {
                if style % 2 == 0 {
                    let t = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", right.len(), &right[..right.len() / 2]);
                    let _ = s.write_all(t.as_bytes()).await;
                }
                // until the client gives up
                let mut b = [0u8; 64];
                while matches!(s.read(&mut b).await, Ok(n) if n > 0) {}
                return;
            }
            Some(Fault::Err204) => (b"HTTP/1.1 204 No Content\r\n\r\n".to_vec(), false),
        };
        if style % 3 == 0 && bytes.len() > 10 {
            let (a, b) = bytes.split_at(bytes.len() / 2);
            if s.write_all(a).await.is_err() {
                return;
            }
            tokio::task::yield_now().await;
            if s.write_all(b).await.is_err() {
                return;
            }
        } else if s.write_all(&bytes).await.is_err() {
            return;
        }
        if close {
            return;
        }
    }
}

/// A plan of faults: most heights none, some one or two, rarely more.
pub fn plan(r: &mut Rng, heights: impl Iterator<Item = u32>, rate: usize) -> HashMap<u32, Vec<Fault>> {
    let mut m = HashMap::new();
    for h in heights {
        if r.chance(rate, 100) {
            let n = *r.pick(&[1, 1, 1, 1, 2, 2, 3]);
            m.insert(h, (0..n).map(|_| *r.pick(FAULTS)).collect());
        }
    }
    m
}
