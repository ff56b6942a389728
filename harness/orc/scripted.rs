
/// Added for the monitors: a node whose events and answers come from a script.
mod scripted {
    use super::*;
    use bitcoin::consensus::encode::deserialize_hex;
    use std::collections::HashMap;
    use std::str::FromStr;
    use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};

    impl Node {
        pub(super) async fn scripted(mut self, port: String) -> Result<(), NodeError> {
            let s = tokio::net::TcpStream::connect(format!("127.0.0.1:{port}"))
                .await
                .map_err(|_| NodeError::NoReachablePeers)?;
            let (r, mut w) = s.into_split();
            let mut lines = BufReader::new(r).lines();
            let mut asked: HashMap<BlockHash, Vec<BlockRecipient>> = HashMap::new();
            loop {
                select! {
                    line = lines.next_line() => {
                        let Ok(Some(line)) = line else { return Err(NodeError::NoReachablePeers) };
                        let a: Vec<&str> = line.split(' ').collect();
                        let hash = |s: &str| BlockHash::from_str(s).unwrap();
                        let take = |asked: &mut HashMap<BlockHash, Vec<BlockRecipient>>, h: &str| {
                            asked.remove(&hash(h)).unwrap_or_default().into_iter().filter_map(|r| match r {
                                BlockRecipient::Client(s) => Some(s),
                                BlockRecipient::Event => None,
                            }).collect::<Vec<_>>()
                        };
                        match a[0] {
                            "filter" => {
                                let bytes: Vec<u8> = (0..a[3].len() / 2).map(|i| u8::from_str_radix(&a[3][2 * i..2 * i + 2], 16).unwrap()).collect();
                                let f = crate::chain::Filter::new(bytes, hash(a[2]));
                                self.dialog.send_event(Event::IndexedFilter(crate::IndexedFilter::new(a[1].parse().unwrap(), f)));
                            }
                            "synced" => {
                                let tip = HeaderCheckpoint::new(a[1].parse::<u32>().unwrap(), hash(a[2]));
                                self.dialog.send_event(Event::FiltersSynced(SyncUpdate::new(tip, Default::default())));
                            }
                            "block" => {
                                let b: Block = deserialize_hex(a[3]).unwrap();
                                for s in take(&mut asked, a[1]) {
                                    let _ = s.send(Ok(IndexedBlock::new(a[2].parse().unwrap(), b.clone())));
                                }
                            }
                            "unknown" => {
                                for s in take(&mut asked, a[1]) {
                                    let _ = s.send(Err(FetchBlockError::UnknownHash));
                                }
                            }
                            "forget" => {
                                take(&mut asked, a[1]);
                            }
                            "info" => {
                                let p = crate::messages::Progress::new(a[1].parse().unwrap(), a[1].parse().unwrap(), 1000);
                                self.dialog.send_info(Info::Progress(p)).await;
                            }
                            "warn" => self.dialog.send_warning(Warning::PeerTimedOut),
                            "stop" => {
                                self.client_recv.close();
                                return Err(NodeError::NoReachablePeers);
                            }
                            x => panic!("{x}"),
                        }
                    }
                    m = self.client_recv.recv() => {
                        match m {
                            Some(ClientMessage::GetBlock(req)) => {
                                let (h, s) = req.into_values();
                                asked.entry(h).or_default().push(BlockRecipient::Client(s));
                                let _ = w.write_all(format!("get {h}\n").as_bytes()).await;
                            }
                            Some(ClientMessage::Shutdown) => {
                                let _ = w.write_all(b"shutdown\n").await;
                                return Ok(());
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
    }
}
