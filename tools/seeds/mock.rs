//! A scripted gateway on the loopback interface. The runtime runs with a paused clock, so waiting costs nothing.
#![allow(dead_code)]
use std::future::Future;
use std::net::SocketAddr;
use std::time::Duration;
use tokio::net::UdpSocket;

pub fn run<F: Future<Output = ()>>(f: F) {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f)
}
pub struct Gw {
    pub s: UdpSocket,
    pub peer: Option<SocketAddr>,
}
impl Gw {
    pub async fn new() -> (Gw, String) {
        let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let a = s.local_addr().unwrap().to_string();
        (Gw { s, peer: None }, a)
    }
    /// next datagram within so many (virtual) seconds
    pub async fn recv(&mut self, secs: u64) -> Option<Vec<u8>> {
        let mut b = vec![0; 2048];
        match tokio::time::timeout(Duration::from_secs(secs), self.s.recv_from(&mut b)).await {
            Ok(Ok((n, p))) => {
                self.peer = Some(p);
                b.truncate(n);
                Some(b)
            }
            _ => None,
        }
    }
    /// next datagram with this service identifier, others are ignored
    pub async fn want(&mut self, sid: u16, secs: u64) -> Option<Vec<u8>> {
        let end = tokio::time::Instant::now() + Duration::from_secs(secs);
        while tokio::time::Instant::now() < end {
            let left = (end - tokio::time::Instant::now()).as_secs().max(1);
            if let Some(d) = self.recv(left).await {
                if d.len() >= 4 && u16::from_be_bytes([d[2], d[3]]) == sid {
                    return Some(d);
                }
            }
        }
        None
    }
    pub async fn send(&self, d: &[u8]) {
        self.s.send_to(d, self.peer.unwrap()).await.unwrap();
        settle().await;
    }
    /// waits for a connect request and grants the channel
    pub async fn accept(&mut self, ch: u8) {
        self.want(0x0205, 60).await.expect("no connect request");
        self.send(&[6, 16, 2, 6, 0, 20, ch, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57, 4, 4, 0x11, 1]).await;
    }
    pub async fn tunnel(&self, ch: u8, seq: u8, cemi: &[u8]) {
        self.send(&tunnel(ch, seq, cemi)).await;
    }
}
pub async fn settle() {
    for _ in 0..20 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(1)).await;
}
pub async fn secs(n: u64) {
    tokio::time::sleep(Duration::from_secs(n)).await;
}
pub fn tunnel(ch: u8, seq: u8, cemi: &[u8]) -> Vec<u8> {
    let n = 10 + cemi.len();
    let mut v = vec![6, 16, 4, 0x20, (n >> 8) as u8, n as u8, 4, ch, seq, 0];
    v.extend(cemi);
    v
}
/// group value write/response indication
pub fn ind(dest: u16, value: &[u8]) -> Vec<u8> {
    let mut v = vec![0x29, 0, 0xbc, 0xe0, 0x11, 2, (dest >> 8) as u8, dest as u8, 1 + value.len() as u8, 0, 0x40];
    v.extend(value);
    v
}
pub fn con(dest: u16, ok: bool) -> Vec<u8> {
    vec![0x2e, 0, 0xbc | !ok as u8, 0xe0, 0x11, 1, (dest >> 8) as u8, dest as u8, 1, 0, 0x81]
}
pub fn check(c: bool, m: &str) {
    if !c {
        println!("BROKEN: {m}");
        std::process::exit(1);
    }
}
