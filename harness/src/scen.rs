//! Environment scripts: steps, their interpretation, and script-enumerating families.
use crate::frames::{self, Val};
use crate::sim::*;
use std::future::Future;
use std::pin::Pin;

pub const A: u16 = 0x0901;
pub const B: u16 = 0x0a02;
pub const C: u16 = 0x3fff;

pub fn v1() -> Val {
    Val::Small(1)
}
pub fn v2() -> Val {
    Val::Big(vec![0x12, 0x34])
}
pub fn v3() -> Val {
    Val::Big(vec![0xde, 0xad, 0xbe])
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// start an operation whose request (if it sends one) the gateway answers like this
    Op(OpKind, Ans),
    /// as Op, abandoned after that many polls
    OpCancel(OpKind, Ans, u32),
    /// tunnelling request from the gateway with this cEMI
    Tun(Vec<u8>),
    Raw(Vec<u8>),
    StResp(u8),
    GwDisc,
    DiscResp(u8),
    Feat,
    GwAck(u8),
    RecvErr,
    Fail(u16),
    Run(u64),
    /// as Run; the step that follows happens before anything the clock has woken at that instant runs
    RunTo(u64),
    /// one task making these calls one right after the other
    Chain(Vec<(OpKind, Ans)>),
    Conn(ConnAns),
    ConnDefault(ConnAns),
    St(StAns),
    StDefault(StAns),
    DiscPol(Option<u8>),
    DiscPieces(Ans),
    ReqDefault(Ans),
    CancelOldest,
    CancelNewest,
    Drop,
    NewSub(usize),
    DropSub(usize),
    DrainSubs,
    Client,
    Monitor,
    /// keep the following datagrams coming at this period (ms) for that long (ms)
    Flood(Vec<Vec<u8>>, u64, u64),
    Many(Vec<Step>),
    /// forget every scripted misbehaviour of the gateway and of the socket
    Calm,
    Note(&'static str),
    /// that many telegrams in a row without letting the others run in between
    Burst(usize),
    Times(usize, Vec<Step>),
    Channel(u8),
    /// the gateway grants the same channel number every time
    SameCh,
    /// the endpoint the gateway grants from now on
    Endpoint([u8; 4], u16),
    /// notation of group addresses in the calls that follow
    Levels(u8),
    SearchAns(Vec<(u64, Vec<u8>)>),
    /// datagram to that socket
    RawTo(usize, Vec<u8>),
    ErrTo(usize),
    NoBind(bool),
    NoConnect(bool),
    /// the gateway of this object is at that address
    Addr(usize),
    /// somebody else sends this
    Foreign(Vec<u8>),
    /// somebody else sends what the gateway would: 0 telegram, 1 state error, 2 disconnect request, 3 disconnect response,
    /// 4 feature response, 5 state response, 6 connect response, 7 refusal, 8 confirmation, 9 empty, 10 acknowledgement
    Fake(u8),
    FloodTo(usize, Vec<u8>, u64, u64),
    Yielding(bool),
    /// what follows concerns that object
    Focus(usize),
}
use Step::*;

pub fn ind(a: u16, v: Val) -> Step {
    Tun(frames::ind(0x1122, a, frames::A_WRITE, &v))
}
pub fn rsp(a: u16, v: Val) -> Step {
    Tun(frames::ind(0x1122, a, frames::A_RESP, &v))
}
pub fn rd(a: u16) -> Step {
    Tun(frames::ind(0x1122, a, frames::A_READ, &Val::Small(0)))
}
pub fn con(a: u16, ok: bool) -> Step {
    Tun(frames::con(a, ok, frames::A_WRITE, &v1()))
}
pub fn op(k: OpKind) -> Step {
    Op(k, vec![])
}

pub fn found_key(r: &knx_ip_client::packets::core::SearchResponse) -> Vec<u8> {
    // every field, so that damage is visible
    let mut k = vec![r.control_endpoint.host_protocol_code];
    k.extend(r.control_endpoint.address.ip().octets());
    k.extend(r.control_endpoint.address.port().to_be_bytes());
    let d = &r.device_hardware;
    k.push(d.structure_length);
    k.push(d.knx_medium as u8);
    k.push(d.knx_device_status.bits());
    k.extend(d.knx_individual_address.to_u16().to_be_bytes());
    k.extend(d.project_installation_identifier.to_be_bytes());
    k.extend(d.serial_number);
    k.extend(d.routing_multicast_address.octets());
    k.extend(d.mac_address);
    k.extend(d.friendly_name);
    let f = &r.supported_service_families;
    k.push(f.structure_length);
    for s in &f.service_families {
        k.push(s.service_family);
        k.push(s.version);
    }
    k
}
/// Same key computed by the reference from the datagram.
pub fn found_ref(d: &[u8]) -> Option<Vec<u8>> {
    if d.len() < 6 + 8 + 54 + 2 || d[0] != 6 || d[1] != 0x10 || d[2..4] != [2, 2] {
        return None;
    }
    let mut k = vec![d[7]];
    if d[6] != 8 {
        return None;
    }
    k.extend(&d[8..14]);
    let i = &d[14..68];
    if i[1] != 1 || ![2, 3, 0x10, 0x20].contains(&i[2]) {
        return None;
    }
    k.push(i[0]);
    k.push(i[2]);
    k.push(i[3] & 1);
    k.extend(&i[4..54]);
    let f = &d[68..];
    if f[1] != 2 || f[0] < 2 || f.len() < f[0] as usize {
        return None;
    }
    k.push(f[0]);
    k.extend(&f[2..(f[0] as usize & !1)]);
    Some(k)
}

impl Drv {
    fn put(&mut self, k: &OpKind, a: &Ans) {
        if matches!(k, OpKind::Read(_) | OpKind::Write(..) | OpKind::Solicit(_) | OpKind::MWrite(..)) {
            let a = a.clone();
            self.gw(|g| g.req.push_back(a));
        }
    }
    pub fn apply<'a>(&'a mut self, s: &'a Step) -> Pin<Box<dyn Future<Output = ()> + 'a>> {
        Box::pin(async move {
            self.absorb();
            match s {
                Op(k, a) => {
                    self.put(k, a);
                    self.start(k.clone());
                }
                OpCancel(k, a, n) => {
                    self.put(k, a);
                    self.next_cancel = Some(*n);
                    self.start(k.clone());
                }
                Tun(c) => {
                    let d = self.gw_tunnel(c);
                    self.inject(d);
                }
                Raw(d) => self.inject(d.clone()),
                StResp(st) => {
                    let d = self.gw(|g| frames::state_resp(g.ch, *st));
                    self.inject(d);
                }
                GwDisc => {
                    let d = self.gw(|g| frames::disc_req(g.ch, &g.ep));
                    self.inject(d);
                }
                DiscResp(st) => {
                    let d = self.gw(|g| frames::disc_resp(g.ch, *st));
                    self.inject(d);
                }
                Feat => {
                    let d = self.gw(|g| {
                        let f = frames::feat_resp(g.ch, g.seq, 8, 0, 1);
                        g.seq = g.seq.wrapping_add(1);
                        f
                    });
                    self.inject(d);
                }
                GwAck(st) => {
                    let d = self.gw(|g| frames::ack(g.ch, 0, *st));
                    self.inject(d);
                }
                RecvErr => self.inject_err(),
                Fail(svc) => self.world.w.borrow_mut().fail_next.push(*svc),
                Run(ms) => self.run(*ms).await,
                RunTo(ms) => self.run_to_instant(*ms).await,
                Chain(v) => {
                    for (k, a) in v {
                        self.put(k, a);
                    }
                    self.start_all(v.iter().map(|x| x.0.clone()).collect());
                }
                Conn(a) => self.gw(|g| g.conn.push_back(a.clone())),
                ConnDefault(a) => self.gw(|g| g.conn_default = a.clone()),
                St(a) => self.gw(|g| g.st.push_back(a.clone())),
                StDefault(a) => self.gw(|g| g.st_default = a.clone()),
                DiscPol(a) => self.gw(|g| g.disc_status = *a),
                DiscPieces(a) => self.gw(|g| g.disc.push_back(a.clone())),
                ReqDefault(a) => self.gw(|g| g.req_default = a.clone()),
                CancelOldest => {
                    if let Some(i) = self.pending().first() {
                        self.cancel(*i);
                    }
                }
                CancelNewest => {
                    if let Some(i) = self.pending().last() {
                        self.cancel(*i);
                    }
                }
                Step::Drop => {
                    let p = self.pending();
                    if !p.is_empty() {
                        for i in p {
                            self.cancel(i);
                        }
                        self.quiesce().await;
                    }
                    self.drop_all();
                    self.mark_dropped();
                }
                NewSub(cap) => {
                    let i = self.add_sub_channel(*cap);
                    self.start(OpKind::AddSub(i));
                }
                DropSub(i) => {
                    if let Some(s) = self.subs.get_mut(*i) {
                        *s = None;
                        self.world.w.borrow_mut().log(Ev::SubGone(*i));
                    }
                }
                DrainSubs => {
                    self.drain_subs();
                }
                Client => {
                    self.connect_client().await;
                }
                Monitor => {
                    self.connect_monitor().await;
                }
                Flood(ds, period, total) => {
                    let mut t = 0;
                    let mut i = 0;
                    while t < *total {
                        let d = if ds[i % ds.len()].first() == Some(&6) {
                            ds[i % ds.len()].clone()
                        } else {
                            self.gw_tunnel(&ds[i % ds.len()])
                        };
                        self.inject(d);
                        self.run(*period).await;
                        t += period;
                        i += 1;
                    }
                }
                Many(v) => {
                    for s in v {
                        self.apply(s).await;
                    }
                }
                Calm => {
                    self.gw(|g| {
                        g.conn.clear();
                        g.conn_default = ConnAns::Accept;
                        g.st.clear();
                        g.st_default = StAns::Status(0);
                        g.req.clear();
                        g.disc.clear();
                        g.disc_status = Some(0);
                    });
                    self.world.w.borrow_mut().fail_next.clear();
                }
                Step::Note(s) => self.note(s),
                Burst(n) => {
                    for i in 0..*n {
                        let d = self.gw_tunnel(&frames::ind(0x1133, 0x2000 + i as u16, frames::A_WRITE, &Val::Big(vec![i as u8, 7])));
                        self.inject(d);
                    }
                }
                Times(n, v) => {
                    for _ in 0..*n {
                        for s in v {
                            self.step(s).await;
                        }
                    }
                }
                Channel(c) => self.gw(|g| g.next_ch = *c),
                SameCh => self.gw(|g| g.same_ch = true),
                Endpoint(ip, port) => self.gw(|g| {
                    g.ep = frames::hpai(*ip, *port);
                    g.ep_bump = false;
                }),
                Levels(n) => self.levels = *n,
                SearchAns(v) => self.gw(|g| g.search = v.clone()),
                RawTo(s, d) => self.inject_to(*s, d.clone()),
                ErrTo(s) => self.inject_err_to(*s),
                FloodTo(s, d, period, total) => {
                    let mut t = 0;
                    while t < *total {
                        self.inject_to(*s, d.clone());
                        self.run(*period).await;
                        t += period;
                    }
                }
                NoBind(b) => self.world.w.borrow_mut().fail_bind = *b,
                NoConnect(b) => self.world.w.borrow_mut().fail_connect = *b,
                Addr(n) => self.gw(|g| g.addr = gw_addr(*n)),
                Foreign(d) => self.inject_foreign(d.clone()),
                Fake(k) => {
                    let d = self.gw(|g| match k {
                        0 => frames::tunnel(g.ch, g.seq, &frames::ind(0x1122, A, frames::A_RESP, &Val::Big(vec![0x66]))),
                        1 => frames::state_resp(g.ch, 0x21),
                        2 => frames::disc_req(g.ch, &g.ep),
                        3 => frames::disc_resp(g.ch, 0),
                        4 => frames::feat_resp(g.ch, g.seq, 8, 0, 1),
                        5 => frames::state_resp(g.ch, 0),
                        6 => frames::connect_resp(g.ch.wrapping_add(5), 0, &g.ep, 0x1101),
                        7 => frames::connect_resp(0, 0x24, &g.ep, 0x1101),
                        8 => frames::tunnel(g.ch, g.seq, &frames::con(A, true, frames::A_WRITE, &v1())),
                        9 => vec![],
                        _ => frames::ack(g.ch, 0, 0),
                    });
                    self.inject_foreign(d);
                }
                Focus(k) => self.set_focus(*k),
                Yielding(b) => self.world.w.borrow_mut().opts.always_yield = *b,
            }
        })
    }
    /// Applies the step; then everything settles, unless running on at once is chosen (a deviation).
    pub async fn step(&mut self, s: &Step) {
        self.apply(s).await;
        if matches!(s, RunTo(_)) {
            return;
        }
        let glued = {
            let mut w = self.world.w.borrow_mut();
            w.opts.glue && !matches!(s, Run(_) | Flood(..) | FloodTo(..) | Times(..)) && w.ch.dev(2) == 1
        };
        if !glued {
            self.pump().await;
        }
    }
    pub async fn script(&mut self, v: &[Step]) {
        for s in v {
            self.step(s).await;
        }
    }
}

pub fn mk<F>(f: F) -> Box<Body>
where
    F: for<'a> Fn(&'a mut Drv) -> Pin<Box<dyn Future<Output = Result<(), String>> + 'a>> + Sync + Send + 'static,
{
    Box::new(f)
}

/// prologue; then every script over `alphabet` up to `depth`; then epilogue.
pub fn seq(prologue: Vec<Step>, alphabet: Vec<Step>, depth: usize, epilogue: Vec<Step>) -> Box<Body> {
    let data = std::sync::Arc::new((prologue, alphabet, epilogue));
    mk(move |d| {
        let data = data.clone();
        Box::pin(async move {
            let (p, al, e) = &*data;
            d.script(p).await;
            d.pump().await;
            for _ in 0..depth {
                let k = d.choose(al.len() + 1);
                if k == 0 {
                    break;
                }
                d.step(&al[k - 1]).await;
            }
            d.pump().await;
            d.note("epilogue");
            d.script(e).await;
            d.pump().await;
            Ok(())
        })
    })
}

/// The script `f` makes of every combination of parameters below `dims`.
pub fn par<F>(dims: Vec<usize>, f: F) -> Box<Body>
where
    F: Fn(&[usize]) -> Vec<Step> + Sync + Send + 'static,
{
    let f = std::sync::Arc::new(f);
    mk(move |d| {
        let f = f.clone();
        let dims = dims.clone();
        Box::pin(async move {
            let p: Vec<usize> = dims.iter().map(|n| d.choose(*n)).collect();
            let v = f(&p);
            d.script(&v).await;
            d.pump().await;
            Ok(())
        })
    })
}
