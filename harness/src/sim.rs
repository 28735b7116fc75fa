//! Controlled environment: one execution = one list of choices.
use crate::frames::{self, Frame, Hpai, Val};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::mc::{Env, Site};
use tokio::time::Instant;

// ---------------------------------------------------------------- the clock of the standard library
thread_local! {
    /// simulated time of the execution on this thread, microseconds
    static VT: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: std::ffi::c_long, ...) -> std::ffi::c_long;
}
/// `std::time::Instant` and `SystemTime` follow the simulated time during an execution.
///
/// # Safety
/// as the C library's function of that name
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    match VT.try_with(|v| v.get()).ok().flatten() {
        Some(us) => {
            (*ts).sec = 1_000_000 + (us / 1_000_000) as i64;
            (*ts).nsec = (us % 1_000_000) as i64 * 1000;
            0
        }
        None => {
            let n = if cfg!(target_arch = "aarch64") { 113 } else { 228 };
            syscall(n, clk as std::ffi::c_long, ts) as i32
        }
    }
}
/// `std::thread::sleep` stops everything on this thread while the simulated time goes by.
///
/// # Safety
/// as the C library's function of that name
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if VT.try_with(|v| v.get()).ok().flatten().is_some() {
        let d = Duration::new((*req).sec as u64, (*req).nsec as u32);
        if flags == 0 && tokio::mc::block(d) {
            return 0;
        }
    }
    let n = if cfg!(target_arch = "aarch64") { 115 } else { 230 };
    if syscall(n, clk as std::ffi::c_long, flags as std::ffi::c_long, req, rem) == 0 {
        0
    } else {
        4
    }
}
/// # Safety
/// as the C library's function of that name
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    -((clock_nanosleep(1, 0, req, rem) != 0) as i32)
}
pub fn std_clock(t: Option<u64>) {
    VT.with(|v| v.set(t));
}

pub const GW_ADDR: &str = "10.9.8.7:3671";
/// the address of the gateway of object `k`: some share one
pub fn gw_addr(k: usize) -> SocketAddr {
    [GW_ADDR, "10.9.8.8:3671"][k % 2].parse().unwrap()
}
pub const ELSEWHERE: &str = "10.9.8.99:3671";
/// Ways to name a gateway: 0.. usable, 20.. unusable. The first five are text.
pub const USABLE: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
pub const UNUSABLE: [usize; 9] = [20, 21, 22, 23, 24, 25, 26, 27, 28];
fn form_text(form: usize, g: SocketAddr) -> String {
    let (ip, port) = (g.ip(), g.port());
    match form {
        0 => g.to_string(),
        1 => format!("gateway{}.test:{port}", ip.to_string().rsplit('.').next().unwrap()),
        2 => format!("dual{}.test:{port}", ip.to_string().rsplit('.').next().unwrap()),
        3 => format!("several{}.test:{port}", ip.to_string().rsplit('.').next().unwrap()),
        20 => format!("nowhere.test:{port}"),
        21 => ip.to_string(),
        22 => String::new(),
        23 => format!("{ip}:99999"),
        24 => format!("[fe80::1]:{port}"),
        25 => format!("none.test:{port}"),
        26 => format!("{ip}:"),
        27 => format!("v6.test:{port}"),
        _ => g.to_string(),
    }
}

// ---------------------------------------------------------------- choices
#[derive(Default, Clone)]
pub struct Chooser {
    pub prefix: Vec<u16>,
    pub taken: Vec<(u16, u16)>,
    pub dev_left: u32,
    pub diverged: bool,
}
impl Chooser {
    pub fn free(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let pick = self.prefix.get(self.taken.len()).copied().unwrap_or(0);
        let pick = if pick as usize >= n {
            self.diverged = true;
            0
        } else {
            pick
        };
        self.taken.push((pick, n as u16));
        pick as usize
    }
    pub fn dev(&mut self, n: usize) -> usize {
        if self.dev_left == 0 {
            return 0;
        }
        let p = self.free(n);
        if p > 0 {
            self.dev_left -= 1;
        }
        p
    }
}

// ---------------------------------------------------------------- trace
#[derive(Clone, Debug, PartialEq)]
pub enum OpKind {
    Read(u16),
    Write(u16, Val),
    Status,
    Disconnect,
    Next,
    IsConn,
    AddSub(usize),
    Solicit(u16),
    MWrite(u16, Val),
    MDisconnect,
    Search(u64),
    /// create a monitor (or a client), gateway named in that form; is that to succeed? (None: it may)
    Open(bool, usize, Option<bool>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct IndView {
    pub code: u8,
    pub infos: usize,
    pub service: Vec<u8>,
    pub src: u16,
    pub dst: u16,
    pub flags: [bool; 4],
    pub value: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    Bytes(Vec<u8>),
    State(u8, u8),
    Ind(IndView),
    Bool(bool),
    U8(u8),
    Found(Vec<Vec<u8>>),
    Err(String),
}
impl Res {
    pub fn ok(&self) -> bool {
        !matches!(self, Res::Err(_))
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Bind(usize, SocketAddr),
    Sent { s: usize, to: Option<SocketAddr>, d: Vec<u8>, f: Frame, op: Option<usize> },
    SendFail { s: usize, d: Vec<u8>, f: Frame, op: Option<usize> },
    Enq { s: usize, id: usize },
    Recvd { s: usize, id: usize, d: Vec<u8>, f: Frame, cut: bool },
    RecvErr { s: usize },
    Close(usize),
    Start(usize, OpKind),
    End(usize, Res),
    Cancel(usize),
    Dropped,
    Notified(usize),
    /// subscriber channel created with this capacity
    SubCap(usize, usize),
    SubGone(usize),
    /// every subscriber channel has just been emptied
    Drained,
    /// nothing runnable, driver in control
    Quiet,
    /// as Quiet and no datagram is waiting in any socket and no gateway answer is outstanding
    Settled,
    Note(&'static str),
    /// the thread was blocked for so many microseconds
    Blocked(u64),
    /// the object about to be created with that socket is for this gateway
    Target(usize, SocketAddr),
    /// what the driver does from here on concerns this object, which has that socket
    Focus(usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub t: u64, // microseconds of simulated time
    pub ev: Ev,
}
pub type Trace = Vec<Rec>;

// ---------------------------------------------------------------- gateway
#[derive(Clone, Debug, PartialEq)]
pub enum ConnAns {
    Accept,
    AcceptLate(u64),
    Refuse(u8),
    Silent,
    /// these datagrams, then accept
    NoiseAccept(Vec<Vec<u8>>),
    /// these datagrams only
    Noise(Vec<Vec<u8>>),
    RecvErr,
}
#[derive(Clone, Debug, PartialEq)]
pub enum StAns {
    Status(u8),
    Silent,
    Late(u64, u8),
}
/// Pieces a gateway may answer a request with.
#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Ack,
    AckErr,
    ConOk,
    ConNeg,
    ConTo(u16, bool),
    /// response to the requested address
    Resp(Val),
    /// A_Write telegram to the requested address
    Wr(Val),
    /// another node's A_Read for the requested address
    Rd,
    RespTo(u16, Val),
    Raw(Vec<u8>),
    /// raw cEMI in a tunnelling request
    Cemi(Vec<u8>),
    Wait(u64),
}
pub type Ans = Vec<Piece>;

pub struct Gw {
    pub addr: SocketAddr,
    pub conn: VecDeque<ConnAns>,
    pub conn_default: ConnAns,
    pub next_ch: u8,
    /// grant the same channel again after a loss
    pub same_ch: bool,
    pub ch: u8,
    pub ep: Hpai,
    pub ep_bump: bool,
    pub st: VecDeque<StAns>,
    pub st_default: StAns,
    pub req: VecDeque<Ans>,
    pub req_default: Ans,
    pub disc: VecDeque<Ans>,
    pub disc_status: Option<u8>,
    pub seq: u8,
    pub feat_answer: bool,
    pub search: Vec<(u64, Vec<u8>)>,
}
impl Default for Gw {
    fn default() -> Self {
        Gw {
            conn: VecDeque::new(),
            conn_default: ConnAns::Accept,
            next_ch: 7,
            same_ch: false,
            ch: 0,
            ep: frames::hpai([10, 9, 8, 7], 3671),
            ep_bump: true,
            st: VecDeque::new(),
            st_default: StAns::Status(0),
            req: VecDeque::new(),
            req_default: vec![Piece::Ack],
            disc: VecDeque::new(),
            disc_status: Some(0),
            seq: 0,
            feat_answer: false,
            search: vec![],
            addr: gw_addr(0),
        }
    }
}
pub enum In {
    Data(Vec<u8>),
    Err,
    /// from somebody who is not the gateway
    Foreign(Vec<u8>),
}
impl Gw {
    fn tun(&mut self, c: &[u8]) -> Vec<u8> {
        let f = frames::tunnel(self.ch, self.seq, c);
        self.seq = self.seq.wrapping_add(1);
        f
    }
    fn accept(&mut self) -> Vec<u8> {
        self.ch = self.next_ch;
        if !self.same_ch {
            self.next_ch = self.next_ch.wrapping_add(1);
        }
        self.seq = 0;
        if self.ep_bump {
            let p = u16::from_be_bytes([self.ep[6], self.ep[7]]).wrapping_add(1).to_be_bytes();
            self.ep[6] = p[0];
            self.ep[7] = p[1];
        }
        frames::connect_resp(self.ch, 0, &self.ep, 0x1101)
    }
    fn pieces(&mut self, ans: &Ans, ch: u8, seq: u8, c: &[u8]) -> Vec<(u64, In)> {
        let mut out = vec![];
        let mut t = 0;
        let q = frames::parse_req(c);
        let (dst, apci, val) = match &q {
            Some(q) => (q.dst, q.apci, q.val.clone()),
            None => (0, 0, Val::Small(0)),
        };
        for p in ans {
            let d = match p {
                Piece::Ack => frames::ack(ch, seq, 0),
                Piece::AckErr => frames::ack(ch, seq, 0x29),
                Piece::ConOk => self.tun(&frames::con(dst, true, apci, &val)),
                Piece::ConNeg => self.tun(&frames::con(dst, false, apci, &val)),
                Piece::ConTo(a, ok) => self.tun(&frames::con(*a, *ok, apci, &val)),
                Piece::Resp(v) => self.tun(&frames::ind(0x1122, dst, frames::A_RESP, v)),
                Piece::Wr(v) => self.tun(&frames::ind(0x1123, dst, frames::A_WRITE, v)),
                Piece::Rd => self.tun(&frames::ind(0x1124, dst, frames::A_READ, &Val::Small(0))),
                Piece::RespTo(a, v) => self.tun(&frames::ind(0x1122, *a, frames::A_RESP, v)),
                Piece::Raw(d) => d.clone(),
                Piece::Cemi(c) => self.tun(c),
                Piece::Wait(ms) => {
                    t += ms;
                    continue;
                }
            };
            out.push((t, In::Data(d)));
        }
        out
    }
    fn on_frame(&mut self, f: &Frame) -> Vec<(u64, In)> {
        match f {
            Frame::ConnReq { .. } => {
                let a = self.conn.pop_front().unwrap_or_else(|| self.conn_default.clone());
                match a {
                    ConnAns::Accept => vec![(0, In::Data(self.accept()))],
                    ConnAns::AcceptLate(ms) => vec![(ms, In::Data(self.accept()))],
                    ConnAns::Refuse(st) => vec![(0, In::Data(frames::connect_err(st)))],
                    ConnAns::Silent => vec![],
                    ConnAns::NoiseAccept(n) => {
                        let mut v: Vec<_> = n.into_iter().map(|d| (0, In::Data(d))).collect();
                        v.push((0, In::Data(self.accept())));
                        v
                    }
                    ConnAns::Noise(n) => n.into_iter().map(|d| (0, In::Data(d))).collect(),
                    ConnAns::RecvErr => vec![(0, In::Err)],
                }
            }
            Frame::StateReq { ch, .. } => match self.st.pop_front().unwrap_or_else(|| self.st_default.clone()) {
                StAns::Status(s) => vec![(0, In::Data(frames::state_resp(*ch, s)))],
                StAns::Late(ms, s) => vec![(ms, In::Data(frames::state_resp(*ch, s)))],
                StAns::Silent => vec![],
            },
            Frame::DiscReq { ch, .. } => {
                let mut v = vec![];
                if let Some(a) = self.disc.pop_front() {
                    v = self.pieces(&a, *ch, 0, &[]);
                }
                let t = v.last().map_or(0, |x| x.0);
                if let Some(s) = self.disc_status {
                    v.push((t, In::Data(frames::disc_resp(*ch, s))));
                }
                v
            }
            Frame::Tunnel { ch, seq, cemi } => {
                let a = self.req.pop_front().unwrap_or_else(|| self.req_default.clone());
                self.pieces(&a, *ch, *seq, cemi)
            }
            Frame::FeatSet { ch, seq, feat, val } if self.feat_answer => {
                let r = frames::feat_resp(*ch, self.seq, *feat, 0, *val);
                self.seq = self.seq.wrapping_add(1);
                vec![(0, In::Data(frames::ack(*ch, *seq, 0))), (0, In::Data(r))]
            }
            Frame::SearchReq { .. } => self.search.drain(..).map(|(t, d)| (t, In::Data(d))).collect(),
            _ => vec![],
        }
    }
}

// ---------------------------------------------------------------- world
struct Sock {
    /// the gateway at the other end
    gw: usize,
    local: SocketAddr,
    peer: Option<SocketAddr>,
    q: VecDeque<(usize, In)>,
    wakers: Vec<Waker>,
    open: bool,
}
struct Item {
    due: u64,
    s: usize,
    d: In,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Quiesce,
    Time,
}
pub struct W {
    pub ch: Chooser,
    /// one gateway per object under test
    pub gws: Vec<Gw>,
    pub focus: usize,
    pub trace: Trace,
    socks: Vec<Sock>,
    agenda: Vec<Item>,
    next_dg: usize,
    mode: Mode,
    idle: bool,
    pub polls: u64,
    pub poll_cap: u64,
    t0: Option<Instant>,
    pub cur_op: Option<usize>,
    /// calls are numbered in the order they are made
    next_op: usize,
    pub opts: Opts,
    pub fail_next: Vec<u16>,
    pub fail_bind: bool,
    pub fail_connect: bool,
    errors: usize,
    pub yields: u64,
}
/// What kinds of scheduling deviation are offered.
#[derive(Clone, Copy, Debug, Default)]
pub struct Opts {
    pub preempt: bool,
    pub order: bool,
    pub select: bool,
    pub glue: bool,
    /// yield at every synchronisation operation (cancellation points)
    pub always_yield: bool,
}
pub struct World {
    pub w: RefCell<W>,
    pub progress: Arc<AtomicU64>,
}
pub struct Livelock;

impl W {
    fn begin(&mut self, k: OpKind) -> usize {
        let id = self.next_op;
        self.next_op += 1;
        self.log(Ev::Start(id, k));
        id
    }
    pub fn now(&self) -> u64 {
        match self.t0 {
            Some(t0) => Instant::now().saturating_duration_since(t0).as_micros() as u64,
            None => 0,
        }
    }
    /// the kinds of socket error in turn
    fn error(&mut self) -> io::ErrorKind {
        use io::ErrorKind::*;
        self.errors += 1;
        [ConnectionRefused, NetworkUnreachable, HostUnreachable, Other, NetworkDown, PermissionDenied][(self.errors - 1) % 6]
    }
    pub fn log(&mut self, ev: Ev) {
        let t = self.now();
        self.trace.push(Rec { t, ev });
    }
}
impl World {
    /// A datagram has just been sent. Deviation: everybody else, the gateway and its answers included, is
    /// faster than the sender (which is not a point where the sender could be abandoned).
    fn overtake(&self, ready: usize) -> bool {
        {
            let mut w = self.w.borrow_mut();
            let now = w.now();
            let due = w.agenda.iter().any(|i| i.due <= now);
            if w.opts.always_yield || !w.opts.preempt || (ready == 0 && !due) || w.ch.dev(2) == 0 {
                return false;
            }
        }
        while let Some((s, d)) = self.pop_due() {
            self.enqueue(s, d);
        }
        true
    }
    fn pop_due(&self) -> Option<(usize, In)> {
        let mut w = self.w.borrow_mut();
        let now = w.now();
        let i = w.agenda.iter().position(|i| i.due <= now)?;
        let it = w.agenda.remove(i);
        Some((it.s, it.d))
    }
    fn enqueue(&self, s: usize, d: In) {
        let ws = {
            let mut w = self.w.borrow_mut();
            if s >= w.socks.len() || !w.socks[s].open {
                return;
            }
            // a connected socket receives from its peer only
            let from = match d {
                In::Foreign(_) => Some(ELSEWHERE.parse().unwrap()),
                In::Data(_) => Some(w.gws[w.socks[s].gw].addr),
                In::Err => None,
            };
            if from.is_some() && w.socks[s].peer.is_some() && w.socks[s].peer != from {
                if matches!(d, In::Data(_)) {
                    let id = w.next_dg;
                    w.next_dg += 1;
                    w.log(Ev::Enq { s, id });
                }
                return;
            }
            if matches!(d, In::Foreign(_)) {
                w.socks[s].q.push_back((usize::MAX, d));
                let ws = std::mem::take(&mut w.socks[s].wakers);
                drop(w);
                ws.into_iter().for_each(|x| x.wake());
                return;
            }
            let id = w.next_dg;
            w.next_dg += 1;
            w.socks[s].q.push_back((id, d));
            w.log(Ev::Enq { s, id });
            std::mem::take(&mut w.socks[s].wakers)
        };
        for x in ws {
            x.wake();
        }
    }
}
impl Env for World {
    fn choose_task(&self, n: usize) -> usize {
        let mut w = self.w.borrow_mut();
        if w.opts.order {
            w.ch.dev(n)
        } else {
            0
        }
    }
    fn select_start(&self, n: u32) -> u32 {
        let mut w = self.w.borrow_mut();
        if w.opts.select {
            w.ch.dev(n as usize) as u32
        } else {
            0
        }
    }
    fn yield_point(&self, site: Site, ready: usize) -> bool {
        if site == Site::Sent {
            return self.overtake(ready);
        }
        let mut w = self.w.borrow_mut();
        w.yields += 1;
        if w.opts.always_yield {
            return true;
        }
        if w.opts.preempt && ready > 0 {
            w.ch.dev(2) == 1
        } else {
            false
        }
    }
    fn on_idle(&self) -> bool {
        let mut w = self.w.borrow_mut();
        if w.mode == Mode::Quiesce || w.agenda.iter().any(|i| i.due == 0) {
            w.idle = true;
            true
        } else {
            false
        }
    }
    fn before_poll(&self) {
        self.progress.fetch_add(1, Ordering::Relaxed);
        let mut w = self.w.borrow_mut();
        std_clock(Some(w.now()));
        w.polls += 1;
        if w.polls > w.poll_cap {
            drop(w);
            std::panic::panic_any(Livelock);
        }
    }
    fn blocked(&self, d: Duration) {
        let mut w = self.w.borrow_mut();
        std_clock(Some(w.now()));
        w.log(Ev::Blocked(d.as_micros() as u64));
    }
    fn resolve(&self, host: &str, port: u16) -> io::Result<Vec<SocketAddr>> {
        let v6 = SocketAddr::new("fe80::1".parse().unwrap(), port);
        let v4 = |n: &str| SocketAddr::new(format!("10.9.8.{n}").parse().unwrap(), port);
        match host.strip_suffix(".test") {
            Some("none") => Ok(vec![]),
            Some("v6") => Ok(vec![v6, v6]),
            Some(h) if h.starts_with("gateway") => Ok(vec![v4(&h[7..])]),
            Some(h) if h.starts_with("dual") => Ok(vec![v6, v4(&h[4..])]),
            Some(h) if h.starts_with("several") => Ok(vec![v4(&h[7..]), v4("77")]),
            _ => Err(io::Error::new(io::ErrorKind::Other, "failed to lookup address information")),
        }
    }
    fn bind(&self, addr: SocketAddr) -> io::Result<usize> {
        let mut w = self.w.borrow_mut();
        if w.fail_bind {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        let id = w.socks.len();
        let mut local = addr;
        if local.port() == 0 {
            local.set_port(40000 + id as u16);
        } else if w.socks.iter().any(|s| s.open && s.local.port() == local.port()) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        let gw = w.focus;
        w.socks.push(Sock {
            gw,
            local,
            peer: None,
            q: VecDeque::new(),
            wakers: vec![],
            open: true,
        });
        w.log(Ev::Bind(id, local));
        Ok(id)
    }
    fn local_addr(&self, s: usize) -> io::Result<SocketAddr> {
        Ok(self.w.borrow().socks[s].local)
    }
    fn peer_addr(&self, s: usize) -> io::Result<SocketAddr> {
        self.w.borrow().socks[s].peer.ok_or_else(|| io::ErrorKind::NotConnected.into())
    }
    fn connect(&self, s: usize, peer: SocketAddr) -> io::Result<()> {
        let mut w = self.w.borrow_mut();
        if w.fail_connect || peer.is_ipv4() != w.socks[s].local.is_ipv4() {
            return Err(io::ErrorKind::Unsupported.into());
        }
        w.socks[s].peer = Some(peer);
        Ok(())
    }
    fn send(&self, s: usize, to: Option<SocketAddr>, buf: &[u8]) -> io::Result<usize> {
        let mut w = self.w.borrow_mut();
        let f = frames::parse(buf);
        let op = w.cur_op;
        let to = to.or(w.socks[s].peer);
        if to.is_none() {
            return Err(io::ErrorKind::NotConnected.into());
        }
        let svc = if buf.len() >= 4 { u16::from_be_bytes([buf[2], buf[3]]) } else { 0 };
        if let Some(i) = w.fail_next.iter().position(|x| *x == svc || *x == 0) {
            w.fail_next.remove(i);
            w.log(Ev::SendFail { s, d: buf.to_vec(), f, op });
            return Err(w.error().into());
        }
        let g = w.socks[s].gw;
        // what goes elsewhere is lost
        let there = to == Some(w.gws[g].addr) || to.map_or(false, |a| a.ip().is_multicast());
        let out = if there { w.gws[g].on_frame(&f) } else { vec![] };
        w.log(Ev::Sent { s, to, d: buf.to_vec(), f, op });
        let now = w.now();
        for (ms, d) in out {
            let due = if ms == 0 { 0 } else { now + ms * 1000 };
            w.agenda.push(Item { due, s, d });
        }
        Ok(buf.len())
    }
    fn poll_recv(&self, s: usize, waker: Option<&Waker>, buf: &mut [u8], peek: bool) -> Poll<io::Result<(usize, SocketAddr)>> {
        let mut w = self.w.borrow_mut();
        let peer = w.gws[w.socks[s].gw].addr;
        let taken = if peek {
            w.socks[s].q.pop_front().map(|x| {
                let c = match &x.1 {
                    In::Data(d) => (x.0, In::Data(d.clone())),
                    In::Foreign(d) => (x.0, In::Foreign(d.clone())),
                    In::Err => (x.0, In::Err),
                };
                w.socks[s].q.push_front(x);
                c
            })
        } else {
            w.socks[s].q.pop_front()
        };
        match taken {
            Some((id, In::Data(d))) => {
                let n = d.len().min(buf.len());
                buf[..n].copy_from_slice(&d[..n]);
                if !peek {
                    let f = frames::parse(&d);
                    w.log(Ev::Recvd { s, id, cut: n < d.len(), d, f });
                }
                Poll::Ready(Ok((n, peer)))
            }
            Some((_, In::Foreign(d))) => {
                let n = d.len().min(buf.len());
                buf[..n].copy_from_slice(&d[..n]);
                if !peek {
                    w.log(Ev::Note("datagram from elsewhere"));
                }
                Poll::Ready(Ok((n, ELSEWHERE.parse().unwrap())))
            }
            Some((_, In::Err)) => {
                w.log(Ev::RecvErr { s });
                Poll::Ready(Err(w.error().into()))
            }
            None => {
                if let Some(wk) = waker {
                    let ws = &mut w.socks[s].wakers;
                    if !ws.iter().any(|x| x.will_wake(wk)) {
                        ws.push(wk.clone());
                    }
                }
                Poll::Pending
            }
        }
    }
    fn poll_readable(&self, s: usize, waker: Option<&Waker>) -> Poll<()> {
        let mut w = self.w.borrow_mut();
        if !w.socks[s].q.is_empty() {
            return Poll::Ready(());
        }
        if let Some(wk) = waker {
            let ws = &mut w.socks[s].wakers;
            if !ws.iter().any(|x| x.will_wake(wk)) {
                ws.push(wk.clone());
            }
        }
        Poll::Pending
    }
    fn close(&self, s: usize) {
        let ws = {
            let mut w = self.w.borrow_mut();
            w.socks[s].open = false;
            w.log(Ev::Close(s));
            std::mem::take(&mut w.socks[s].wakers)
        };
        drop(ws);
    }
}

// ---------------------------------------------------------------- driver
pub struct Drv {
    pub world: Rc<World>,
    /// the objects under test; most scripts have one
    pub objs: Vec<Obj>,
    pub focus: usize,
    pub ops: Vec<OpSlot>,
    pub subs: Vec<Option<tokio::sync::mpsc::Receiver<()>>>,
    pub sub_tx: Vec<Option<tokio::sync::mpsc::Sender<()>>>,
    pub next_cancel: Option<u32>,
    pub levels: u8,
    opened: Opened,
}
type Opened = Rc<RefCell<Vec<(usize, Option<Arc<knx_ip_client::transport::udp::UdpClient>>, Option<Arc<knx_ip_client::transport::udp_monitor::UdpMonitor>>)>>>;
#[derive(Default)]
pub struct Obj {
    pub client: Option<Arc<knx_ip_client::transport::udp::UdpClient>>,
    pub monitor: Option<Arc<knx_ip_client::transport::udp_monitor::UdpMonitor>>,
    pub sock: usize,
}
pub struct OpSlot {
    pub obj: usize,
    pub kind: OpKind,
    pub h: tokio::task::AbortHandle,
    pub done: Rc<RefCell<Option<Option<Res>>>>, // Some(None): cancelled
}

struct Call {
    inner: Option<Pin<Box<dyn Future<Output = Res>>>>,
    id: usize,
    kind: OpKind,
    done: Rc<RefCell<Option<Option<Res>>>>,
}
/// One task of the application: calls made one after the other.
struct OpFut {
    cur: Call,
    next: VecDeque<Call>,
    world: Rc<World>,
    cancel_after: Option<u32>,
    polls: u32,
}
// Everything runs on one thread (current-thread runtime per worker).
unsafe impl Send for OpFut {}
impl Future for OpFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        loop {
            let id = me.cur.id;
            let prev = me.world.w.borrow_mut().cur_op.replace(id);
            let r = me.cur.inner.as_mut().unwrap().as_mut().poll(cx);
            me.world.w.borrow_mut().cur_op = prev;
            me.polls += 1;
            match r {
                Poll::Ready(res) => {
                    me.cur.inner = None;
                    *me.cur.done.borrow_mut() = Some(Some(res.clone()));
                    let mut w = me.world.w.borrow_mut();
                    w.log(Ev::End(id, res));
                    match me.next.pop_front() {
                        Some(c) => {
                            me.cur = c;
                            me.cur.id = w.begin(me.cur.kind.clone());
                        }
                        None => return Poll::Ready(()),
                    }
                }
                Poll::Pending => {
                    if me.cancel_after.map_or(false, |k| me.polls >= k) {
                        me.cur.inner = None;
                        *me.cur.done.borrow_mut() = Some(None);
                        me.world.w.borrow_mut().log(Ev::Cancel(id));
                        return Poll::Ready(());
                    }
                    return Poll::Pending;
                }
            }
        }
    }
}
impl Drop for OpFut {
    fn drop(&mut self) {
        for c in &self.next {
            *c.done.borrow_mut() = Some(None);
        }
        if self.cur.inner.take().is_some() {
            *self.cur.done.borrow_mut() = Some(None);
            if let Ok(mut w) = self.world.w.try_borrow_mut() {
                w.log(Ev::Cancel(self.cur.id));
            }
        }
    }
}

struct Wait {
    world: Rc<World>,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}
impl Future for Wait {
    type Output = bool; // true: time reached
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        std_clock(Some(self.world.w.borrow().now()));
        if let Some(s) = self.sleep.as_mut() {
            if s.as_mut().poll(cx).is_ready() {
                return Poll::Ready(true);
            }
        }
        let mut w = self.world.w.borrow_mut();
        if std::mem::take(&mut w.idle) {
            return Poll::Ready(false);
        }
        Poll::Pending
    }
}

/// the group address in one of its three notations
pub fn ga(levels: u8, a: u16) -> knx_ip_client::packets::addresses::KnxAddress {
    use knx_ip_client::packets::addresses::KnxAddress as K;
    match levels {
        1 => K::group_1_level(a),
        2 => K::group_2_level((a >> 11) as u8, a & 0x7ff),
        _ => K::group_3_level((a >> 11) as u8, ((a >> 8) & 7) as u8, a as u8),
    }
}
pub fn ind_view(i: knx_ip_client::packets::emi::LDataInd) -> IndView {
    IndView {
        code: i.cemi.msg_code,
        infos: i.cemi.additional_infos.len(),
        service: i.cemi.service_info.clone(),
        src: i.l_data.src,
        dst: i.l_data.dest,
        flags: [i.l_data.frame_type, i.l_data.repetition, i.l_data.system_broadcast, i.l_data.ack_request],
        value: i.value,
    }
}
fn e<E: std::fmt::Debug>(e: E) -> Res {
    Res::Err(format!("{e:?}"))
}

impl Drv {
    pub fn choose(&self, n: usize) -> usize {
        self.world.w.borrow_mut().ch.free(n)
    }
    pub fn gw<R>(&self, f: impl FnOnce(&mut Gw) -> R) -> R {
        f(&mut self.world.w.borrow_mut().gws[self.focus])
    }
    pub fn note(&self, s: &'static str) {
        self.world.w.borrow_mut().log(Ev::Note(s));
    }
    pub fn now(&self) -> u64 {
        self.world.w.borrow().now()
    }
    /// Runs everything runnable without letting time pass.
    pub async fn quiesce(&self) {
        {
            let mut w = self.world.w.borrow_mut();
            w.mode = Mode::Quiesce;
            w.idle = false;
        }
        Wait {
            world: self.world.clone(),
            sleep: None,
        }
        .await;
        self.world.w.borrow_mut().log(Ev::Quiet);
    }
    /// Delivers everything due, one datagram per quiescent point (several at once is a deviation).
    pub async fn pump(&self) {
        self.quiesce().await;
        loop {
            let Some((s, d)) = self.world.pop_due() else { break };
            self.world.enqueue(s, d);
            loop {
                let more = {
                    let mut w = self.world.w.borrow_mut();
                    let now = w.now();
                    let has = w.agenda.iter().any(|i| i.due <= now);
                    has && w.opts.glue && w.ch.dev(2) == 1
                };
                if !more {
                    break;
                }
                if let Some((s, d)) = self.world.pop_due() {
                    self.world.enqueue(s, d);
                }
            }
            self.quiesce().await;
        }
        let w = self.world.w.borrow();
        let empty = w.socks.iter().all(|s| !s.open || s.q.is_empty());
        drop(w);
        if empty {
            self.world.w.borrow_mut().log(Ev::Settled);
        }
    }
    /// Lets `ms` of simulated time pass, delivering gateway answers as they fall due.
    pub async fn run(&self, ms: u64) {
        let target = self.now() + ms * 1000;
        self.run_until(target).await
    }
    /// As `run`, but returns at the very instant, before what the clock has just woken gets to run.
    pub async fn run_to_instant(&self, ms: u64) {
        let target = self.now() + ms * 1000;
        self.pump().await;
        self.advance(target, true).await
    }
    pub async fn run_until(&self, target: u64) {
        self.pump().await;
        self.advance(target, false).await
    }
    async fn advance(&self, target: u64, stop_short: bool) {
        loop {
            let now = self.now();
            if now >= target {
                break;
            }
            let next = {
                let w = self.world.w.borrow();
                w.agenda.iter().filter(|i| i.due > now).map(|i| i.due).min().unwrap_or(u64::MAX).min(target)
            };
            {
                let mut w = self.world.w.borrow_mut();
                w.mode = Mode::Time;
                w.idle = false;
            }
            let t0 = self.world.w.borrow().t0.unwrap();
            Wait {
                world: self.world.clone(),
                sleep: Some(Box::pin(tokio::time::sleep_until(t0 + Duration::from_micros(next)))),
            }
            .await;
            if stop_short && self.now() >= target {
                break;
            }
            self.pump().await;
        }
    }
    fn new_sock(&mut self) {
        let mut w = self.world.w.borrow_mut();
        let n = w.socks.len();
        self.objs[self.focus].sock = n;
        if self.focus > 0 || n > 0 {
            w.log(Ev::Focus(self.focus, n));
        }
        let a = w.gws[self.focus].addr;
        w.log(Ev::Target(n, a));
    }
    /// What follows concerns object `k`.
    pub fn set_focus(&mut self, k: usize) {
        while self.objs.len() <= k {
            self.objs.push(Obj { sock: usize::MAX, ..Default::default() });
        }
        self.focus = k;
        let mut w = self.world.w.borrow_mut();
        while w.gws.len() <= k {
            let addr = gw_addr(w.gws.len());
            w.gws.push(Gw { addr, ..Gw::default() });
        }
        w.focus = k;
        w.log(Ev::Focus(k, self.objs[k].sock));
    }
    pub async fn connect_client(&mut self) -> bool {
        self.new_sock();
        let r = knx_ip_client::transport::udp::UdpClient::connect(self.gw(|g| g.addr)).await;
        match r {
            Ok(c) => {
                self.objs[self.focus].client = Some(Arc::new(c));
                true
            }
            Err(_) => false,
        }
    }
    pub async fn connect_monitor(&mut self) -> bool {
        self.new_sock();
        match knx_ip_client::transport::udp_monitor::UdpMonitor::connect(&self.gw(|g| g.addr).to_string()).await {
            Ok(c) => {
                self.objs[self.focus].monitor = Some(Arc::new(c));
                true
            }
            Err(_) => false,
        }
    }
    /// Puts a gateway datagram on the socket of the object under test right now.
    pub fn inject(&self, d: Vec<u8>) {
        self.world.enqueue(self.objs[self.focus].sock, In::Data(d));
    }
    /// a datagram somebody else sends to that socket
    pub fn inject_foreign(&self, d: Vec<u8>) {
        self.world.enqueue(self.objs[self.focus].sock, In::Foreign(d));
    }
    /// takes over what `Open` has created
    pub fn absorb(&mut self) {
        let v: Vec<_> = self.opened.borrow_mut().drain(..).collect();
        for (k, c, m) in v {
            self.objs[k].client = c;
            self.objs[k].monitor = m;
        }
    }
    pub fn inject_to(&self, s: usize, d: Vec<u8>) {
        self.world.enqueue(s, In::Data(d));
    }
    pub fn inject_err(&self) {
        self.world.enqueue(self.objs[self.focus].sock, In::Err);
    }
    pub fn inject_err_to(&self, s: usize) {
        self.world.enqueue(s, In::Err);
    }
    pub fn gw_tunnel(&self, c: &[u8]) -> Vec<u8> {
        self.gw(|g| g.tun(c))
    }
    pub fn pending(&self) -> Vec<usize> {
        (0..self.ops.len()).filter(|i| self.ops[*i].obj == self.focus && self.ops[*i].done.borrow().is_none()).collect()
    }
    pub fn result(&self, i: usize) -> Option<Res> {
        self.ops[i].done.borrow().clone().flatten()
    }
    pub fn cancel(&self, i: usize) {
        self.ops[i].h.abort();
    }
    fn call(&mut self, kind: OpKind) -> Call {
        let c = self.objs[self.focus].client.clone();
        let m = self.objs[self.focus].monitor.clone();
        let k = kind.clone();
        let lv = self.levels;
        let (opened, k_obj, g) = (self.opened.clone(), self.focus, self.gw(|g| g.addr));
        let tx = match &kind {
            OpKind::AddSub(i) => self.sub_tx[*i].take(),
            _ => None,
        };
        let inner: Pin<Box<dyn Future<Output = Res>>> = Box::pin(async move {
            match k {
                OpKind::Read(a) => c.unwrap().read_group_address_value(ga(lv, a)).await.map_or_else(e, Res::Bytes),
                OpKind::Write(a, v) => {
                    let small = matches!(v, Val::Small(_));
                    c.unwrap().write_group_address_value(ga(lv, a), v.bytes(), small).await.map_or_else(e, |_| Res::Unit)
                }
                OpKind::Status => c
                    .unwrap()
                    .get_connection_status()
                    .await
                    .map_or_else(e, |r| Res::State(r.communication_channel_id, r.status)),
                OpKind::Disconnect => c.unwrap().disconnect().await.map_or_else(e, |_| Res::Unit),
                OpKind::Next => m.unwrap().next_msg().await.map_or_else(e, |i| Res::Ind(ind_view(i))),
                OpKind::IsConn => Res::Bool(m.unwrap().is_connected().await),
                OpKind::AddSub(_) => {
                    m.unwrap().add_on_connect(tx.unwrap()).await;
                    Res::Unit
                }
                OpKind::Solicit(a) => m.unwrap().solecitate_group_read(ga(lv, a)).await.map_or_else(e, |_| Res::Unit),
                OpKind::MWrite(a, v) => {
                    let small = matches!(v, Val::Small(_));
                    m.unwrap().write_group_address_value(ga(lv, a), v.bytes(), small).await.map_or_else(e, |_| Res::Unit)
                }
                OpKind::MDisconnect => m.unwrap().disconnect().await.map_or_else(e, Res::U8),
                OpKind::Search(ms) => knx_ip_client::transport::udp::UdpClient::search(Duration::from_millis(ms))
                    .await
                    .map_or_else(e, |v| Res::Found(v.iter().map(crate::scen::found_key).collect())),
                OpKind::Open(true, form, _) => match knx_ip_client::transport::udp_monitor::UdpMonitor::connect(&form_text(form, g)).await {
                    Ok(m) => {
                        opened.borrow_mut().push((k_obj, None, Some(Arc::new(m))));
                        Res::Unit
                    }
                    Err(x) => e(x),
                },
                OpKind::Open(false, form, _) => {
                    use knx_ip_client::transport::udp::UdpClient as U;
                    let t = form_text(form, g);
                    let v6 = SocketAddr::new("fe80::1".parse().unwrap(), g.port());
                    let other: SocketAddr = ELSEWHERE.parse().unwrap();
                    let r = match form {
                        4 => U::connect(g).await,
                        5 => U::connect((g.ip(), g.port())).await,
                        6 => U::connect(t).await,
                        7 => U::connect(&[v6, g][..]).await,
                        8 => U::connect(&[g, other][..]).await,
                        28 => U::connect(&[][..] as &[SocketAddr]).await,
                        _ => U::connect(t.as_str()).await,
                    };
                    match r {
                        Ok(c) => {
                            opened.borrow_mut().push((k_obj, Some(Arc::new(c)), None));
                            Res::Unit
                        }
                        Err(x) => e(x),
                    }
                }
            }
        });
        Call {
            inner: Some(inner),
            id: usize::MAX,
            kind,
            done: Rc::new(RefCell::new(None)),
        }
    }
    pub fn start(&mut self, kind: OpKind) -> usize {
        self.start_all(vec![kind])
    }
    /// One task that makes these calls one right after the other.
    pub fn start_all(&mut self, kinds: Vec<OpKind>) -> usize {
        let id = self.ops.len();
        let o = &self.objs[self.focus];
        if o.client.is_none() && o.monitor.is_none() && kinds.iter().any(|k| !matches!(k, OpKind::Search(_) | OpKind::Open(..))) {
            return id; // the application cannot call a method of what it has dropped
        }
        if kinds.iter().any(|k| matches!(k, OpKind::Open(..))) {
            self.new_sock();
        }
        let mut calls: VecDeque<Call> = VecDeque::new();
        for k in kinds {
            let c = self.call(k);
            calls.push_back(c);
        }
        let slots: Vec<_> = calls.iter().map(|c| (c.kind.clone(), c.done.clone())).collect();
        let mut cur = calls.pop_front().unwrap();
        cur.id = self.world.w.borrow_mut().begin(cur.kind.clone());
        let f = OpFut {
            cur,
            next: calls,
            world: self.world.clone(),
            cancel_after: self.next_cancel.take(),
            polls: 0,
        };
        let h = tokio::spawn(f).abort_handle();
        for (kind, done) in slots {
            self.ops.push(OpSlot { obj: self.focus, kind, h: h.clone(), done });
        }
        id
    }
    pub fn add_sub_channel(&mut self, cap: usize) -> usize {
        let (tx, rx) = tokio::sync::mpsc::channel(cap);
        self.subs.push(Some(rx));
        self.sub_tx.push(Some(tx));
        let i = self.subs.len() - 1;
        self.world.w.borrow_mut().log(Ev::SubCap(i, cap));
        i
    }
    pub fn drain_subs(&mut self) {
        for (i, s) in self.subs.iter_mut().enumerate() {
            if let Some(rx) = s {
                while rx.try_recv().is_ok() {
                    self.world.w.borrow_mut().log(Ev::Notified(i));
                }
            }
        }
        self.world.w.borrow_mut().log(Ev::Drained);
    }
    /// Drops the client/monitor together with every operation still pending on it.
    pub fn drop_all(&mut self) {
        self.absorb();
        for i in self.pending() {
            self.cancel(i);
        }
        self.objs[self.focus].client = None;
        self.objs[self.focus].monitor = None;
    }
    pub fn mark_dropped(&self) {
        self.world.w.borrow_mut().log(Ev::Dropped);
    }
}

pub struct Outcome {
    pub trace: Trace,
    pub taken: Vec<(u16, u16)>,
    pub panic: Option<String>,
    pub diverged: bool,
    pub err: Option<String>,
    pub yields: u64,
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<Livelock>().is_some() {
            "endless loop: the runtime kept polling without going idle".to_string()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{msg}{at}"));
            }
        });
    }));
}

pub type Body = dyn for<'a> Fn(&'a mut Drv) -> Pin<Box<dyn Future<Output = Result<(), String>> + 'a>> + Sync + Send;

pub fn execute(body: &Body, prefix: &[u16], devs: u32, opts: Opts, progress: &Arc<AtomicU64>) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    let world = Rc::new(World {
        progress: progress.clone(),
        w: RefCell::new(W {
            ch: Chooser {
                prefix: prefix.to_vec(),
                taken: vec![],
                dev_left: devs,
                diverged: false,
            },
            gws: vec![Gw::default()],
            focus: 0,
            trace: Vec::with_capacity(256),
            socks: vec![],
            agenda: vec![],
            next_dg: 0,
            mode: Mode::Quiesce,
            idle: false,
            polls: 0,
            poll_cap: 400_000,
            t0: None,
            cur_op: None,
            next_op: 0,
            opts,
            fail_next: vec![],
            fail_bind: false,
            fail_connect: false,
            errors: 0,
            yields: 0,
        }),
    });
    tokio::mc::install(Some(world.clone()));
    std_clock(Some(0));
    let w2 = world.clone();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap();
        let mut drv = Drv {
            world: w2.clone(),
            objs: vec![Obj::default()],
            focus: 0,
            ops: vec![],
            subs: vec![],
            sub_tx: vec![],
            next_cancel: None,
            levels: 3,
            opened: Rc::default(),
        };
        let r = rt.block_on(async {
            w2.w.borrow_mut().t0 = Some(Instant::now());
            let r = body(&mut drv).await;
            w2.w.borrow_mut().log(Ev::Note("end"));
            r
        });
        // tear-down is not part of the execution
        let (tr, tk) = {
            let mut w = w2.w.borrow_mut();
            w.ch.dev_left = 0;
            w.ch.prefix.clear();
            w.opts = Opts::default();
            (std::mem::take(&mut w.trace), w.ch.taken.clone())
        };
        drop(drv);
        drop(rt);
        (r, tr, tk)
    }));
    tokio::mc::install(None);
    std_clock(None);
    let panic = PANIC.with(|p| p.borrow_mut().take());
    let mut w = world.w.borrow_mut();
    let (err, trace, taken) = match res {
        Ok((r, tr, tk)) => (r.err(), tr, tk),
        Err(_) => (None, std::mem::take(&mut w.trace), w.ch.taken.clone()),
    };
    Outcome {
        trace,
        taken,
        panic,
        diverged: w.ch.diverged,
        err,
        yields: w.yields,
    }
}
