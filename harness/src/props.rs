//! Which families of executions decide which property.
use crate::explore::*;
use crate::frames::{self, Val};
use crate::monitors::*;
use crate::scen::Step::*;
use crate::scen::*;
use crate::sim::OpKind::*;
use crate::sim::*;

type Checks<'a> = &'a [fn(&View) -> M];

fn ok_write() -> Ans {
    vec![Piece::Ack, Piece::ConOk]
}
fn ok_read(v: Val) -> Ans {
    vec![Piece::Ack, Piece::ConOk, Piece::Resp(v)]
}
fn sop(k: OpKind, a: Ans) -> Step {
    Step::Op(k, a)
}
fn big(n: usize) -> Val {
    Val::Big((0..n).map(|i| (i * 7 + 3) as u8).collect())
}
/// cEMI whose service this client does not know
fn unknown_cemi(a: u16) -> Vec<u8> {
    let mut c = frames::ind(0x1122, a, frames::A_RESP, &v1());
    c[0] = 0x2d;
    c
}
/// indication that ends before the data it declares
fn short_cemi(a: u16) -> Vec<u8> {
    let mut c = frames::ind(0x1122, a, frames::A_RESP, &v3());
    c.truncate(c.len() - 1);
    c
}
fn short_con(_a: u16) -> Vec<u8> {
    vec![frames::CON, 0, 0xbc, 0xe0, 0x11]
}
fn info_cemi(code: u8, a: u16, apci: u16, v: &Val) -> Vec<u8> {
    frames::cemi(code, &[4, 4, 1, 2, 3, 4, 3, 1, 9], 0xbc, 0xe0, 0x1122, a, apci, v)
}

/// a telegram with n octets of additional info (one record, two from 8 octets on) and the shortest, a medium or the longest value
fn long_cemi(code: u8, a: u16, apci: u16, n: usize, k: usize) -> Vec<u8> {
    let mut i = vec![];
    if n >= 8 {
        i.extend([3, 2, 0x81, 0x82]);
    }
    if n >= 2 {
        i.extend([0xfe, (n - i.len() - 2) as u8]);
        i.extend((i.len()..n).map(|x| x as u8));
    }
    let v = [Val::Small(63), big(14), big(253)][k].clone();
    frames::cemi(code, &i, 0xbc, 0xe0, 0x1122, a, apci, &v)
}

/// everything a client's world may do
fn client_alpha() -> Vec<Step> {
    vec![
        sop(Read(A), ok_read(v2())),
        sop(Read(A), vec![Piece::Ack, Piece::ConOk]),
        sop(Read(B), vec![Piece::Ack, Piece::RespTo(A, v3()), Piece::Wait(2000), Piece::Resp(v1())]),
        sop(Write(A, v1()), ok_write()),
        sop(Write(A, v2()), vec![]),
        sop(Write(B, v3()), vec![Piece::Ack, Piece::ConNeg]),
        sop(Write(A, v2()), vec![Piece::Wr(v3()), Piece::ConTo(B, true), Piece::Wait(3000), Piece::ConOk]),
        op(Status),
        Many(vec![St(StAns::Late(3000, 0)), op(Status)]),
        op(Disconnect),
        ind(A, v3()),
        rsp(B, v2()),
        con(A, true),
        con(A, false),
        rd(A),
        StResp(0x21),
        GwDisc,
        RecvErr,
        Run(4000),
        Run(61_000),
        Raw(vec![6, 0x10, 4, 0x20, 0, 99, 4, 7]),
        Feat,
        Fail(0x0420),
        CancelNewest,
        Conn(ConnAns::Refuse(0x24)),
        Conn(ConnAns::Silent),
        Run(11_000),
        Tun(short_cemi(A)),
        St(StAns::Silent),
    ]
}
fn mon_alpha() -> Vec<Step> {
    vec![
        op(Next),
        op(IsConn),
        NewSub(1),
        NewSub(4),
        DrainSubs,
        DropSub(0),
        sop(Solicit(A), ok_read(v2())),
        sop(MWrite(B, v3()), ok_write()),
        op(MDisconnect),
        ind(A, v1()),
        rsp(B, v3()),
        Tun(frames::cemi(frames::BUSMON, &[3, 1, 0], 0xbc, 0xe0, 0x1101, A, frames::A_WRITE, &v2())),
        con(A, true),
        Tun(unknown_cemi(A)),
        Tun(short_cemi(A)),
        StResp(0x21),
        GwDisc,
        RecvErr,
        Run(4000),
        Run(61_000),
        Conn(ConnAns::Refuse(0x24)),
        Conn(ConnAns::Silent),
        CancelNewest,
        Fail(0x0420),
        Fail(0x0424),
        Feat,
        DiscPol(None),
    ]
}
fn probe_client() -> Vec<Step> {
    vec![
        Calm,
        Run(50_000),
        Step::Note("probe"),
        sop(Write(C, v2()), ok_write()),
        Run(100),
        sop(Read(C), ok_read(v3())),
        Run(100),
        op(Status),
        Run(100),
    ]
}
fn probe_mon() -> Vec<Step> {
    vec![
        Calm,
        Run(50_000),
        Step::Note("probe"),
        sop(MWrite(C, v2()), ok_write()),
        Run(100),
        sop(Solicit(C), ok_read(v3())),
        Run(100),
        op(Next),
        ind(C, v2()),
        op(IsConn),
        Run(100),
    ]
}
fn cat(a: Vec<Step>, b: Vec<Step>) -> Vec<Step> {
    let mut a = a;
    a.extend(b);
    a
}

struct B<'a> {
    id: &'a str,
    t: bool,
    out: Vec<Fam>,
}
impl<'a> B<'a> {
    fn seq(&mut self, name: &str, pro: Vec<Step>, al: Vec<Step>, depth: usize, epi: Vec<Step>, devs: u32, checks: Checks) {
        let n = format!("{}/{} alphabet={} depth={} deviations={}", self.id, name, al.len(), depth, devs);
        self.out.push(fam(&n, seq(pro, al, depth, epi), devs, checks));
    }
    fn par<F>(&mut self, name: &str, dims: Vec<usize>, devs: u32, checks: Checks, f: F)
    where
        F: Fn(&[usize]) -> Vec<Step> + Sync + Send + 'static,
    {
        let n = format!("{}/{} parameters={:?} deviations={}", self.id, name, dims, devs);
        if micro() && dims.iter().product::<usize>() > 40_000 {
            return;
        }
        self.out.push(fam(&n, par(dims, f), devs, checks));
    }
    /// the general client alphabet
    fn mix(&mut self, epi: Vec<Step>, checks: Checks) {
        let al = client_alpha();
        if micro() {
            return self.seq("client-mix", vec![Client], al.clone(), 2, epi.clone(), 1, checks);
        }
        self.seq("client-mix", vec![Client], al.clone(), 3, epi.clone(), 1, checks);
        if self.t {
            self.seq("client-mix", vec![Client], al.clone(), 3, epi.clone(), 2, checks);
            self.seq("client-mix", vec![Client], al, 5, epi, 0, checks);
        } else {
            self.seq("client-mix", vec![Client], al, 4, epi, 0, checks);
        }
    }
    fn mmix(&mut self, epi: Vec<Step>, checks: Checks) {
        let al = mon_alpha();
        if micro() {
            return self.seq("monitor-mix", vec![Monitor], al.clone(), 2, epi.clone(), 1, checks);
        }
        self.seq("monitor-mix", vec![Monitor], al.clone(), 3, epi.clone(), 1, checks);
        if self.t {
            self.seq("monitor-mix", vec![Monitor], al.clone(), 3, epi.clone(), 2, checks);
            self.seq("monitor-mix", vec![Monitor], al, 5, epi, 0, checks);
        } else {
            self.seq("monitor-mix", vec![Monitor], al, 4, epi, 0, checks);
        }
    }
    /// property-specific alphabet: deep without deviations, less deep with
    fn focus(&mut self, name: &str, pro: Vec<Step>, al: Vec<Step>, epi: Vec<Step>, checks: Checks) {
        let n = al.len() as f64;
        let budget: f64 = if micro() { 1.2e4 } else if self.t { 12e6 } else { 4e5 };
        let d0 = (budget.ln() / n.ln()).floor() as usize;
        let d1 = ((budget / 25.0).ln() / n.ln()).floor() as usize;
        let d2 = ((budget / 300.0).ln() / n.ln()).floor() as usize;
        self.seq(name, pro.clone(), al.clone(), if micro() { 2 } else { d0.max(3) }, epi.clone(), 0, checks);
        self.seq(name, pro.clone(), al.clone(), d1.max(2), epi.clone(), 1, checks);
        self.seq(name, pro, al, d2.max(2), epi, 2, checks);
    }
}


// ------------------------------------------------------------------ families shared by the transport properties
/// a whole life of a client: every kind of call, every kind of loss
fn tour(same: bool, ch: u8) -> Vec<Step> {
    let w = |v: Val| sop(Write(A, v), ok_write());
    let mut s = vec![Channel(ch)];
    if same {
        s.push(SameCh);
    }
    s.extend([
        Client, w(v1()), sop(Read(B), ok_read(v2())), Run(100), op(Status), ind(A, v3()), Run(61_000), w(v2()), GwDisc, Run(100), w(v1()), w(v3()), sop(Read(A), vec![Piece::Ack, Piece::Rd, Piece::Wait(700), Piece::Resp(v1())]), Run(1000),
        StResp(0x21), Run(10_500), ind(B, v1()), sop(Write(B, v2()), vec![Piece::Ack, Piece::ConNeg]), w(v1()), op(Status), Run(70_000), Feat, RecvErr, Conn(ConnAns::Refuse(0x24)), Run(30_000), w(v2()), sop(Read(C), ok_read(v3())),
        Fail(0x0420), w(v1()), Run(11_000), w(v2()), op(Disconnect), Run(130_000), w(v1()), op(Status), Run(100),
    ]);
    s
}
fn mtour(same: bool, ch: u8) -> Vec<Step> {
    let w = |v: Val| sop(MWrite(A, v), ok_write());
    let mut s = vec![Channel(ch)];
    if same {
        s.push(SameCh);
    }
    s.extend([
        Monitor, NewSub(3), w(v1()), op(Next), ind(A, v3()), op(IsConn), Run(61_000), w(v2()), GwDisc, Run(100), op(IsConn), w(v1()), sop(Solicit(B), ok_read(v1())), op(Next), DrainSubs, StResp(0x21), Run(10_500), ind(B, v1()), op(Next),
        w(v1()), Run(70_000), Feat, RecvErr, Conn(ConnAns::Refuse(0x24)), Run(30_000), op(IsConn), w(v2()), DrainSubs, Fail(0x0420), w(v1()), Run(11_000), w(v2()), ind(A, v2()), op(Next), op(MDisconnect), Run(130_000), op(IsConn), w(v1()), op(Next), Run(100),
    ]);
    s
}
/// every datagram that differs from a valid one in one octet and is itself a valid frame
pub fn mutants() -> Vec<Vec<u8>> {
    let ep = frames::hpai([10, 9, 8, 7], 3672);
    let mut v: Vec<Vec<u8>> = vec![];
    let base = vec![
        frames::tunnel(7, 0, &frames::ind(0x1122, A, frames::A_WRITE, &v3())),
        frames::tunnel(7, 0, &frames::ind(0x1122, A, frames::A_RESP, &v1())),
        frames::tunnel(7, 0, &frames::con(A, true, frames::A_WRITE, &v1())),
        frames::tunnel(7, 0, &frames::con(A, false, frames::A_WRITE, &v2())),
        frames::tunnel(7, 0, &info_cemi(frames::IND, A, frames::A_RESP, &v2())),
        frames::tunnel(7, 0, &info_cemi(frames::CON, A, frames::A_WRITE, &v2())),
        frames::tunnel(7, 0, &frames::cemi(frames::BUSMON, &[3, 1, 0], 0xbc, 0xe0, 0x1101, A, frames::A_WRITE, &v2())),
        frames::tunnel(7, 0, &frames::cemi(frames::REQ, &[], 0xbc, 0xe0, 0x1101, A, frames::A_WRITE, &v2())),
        frames::feat_resp(7, 0, 8, 0, 1),
        frames::ack(7, 0, 0),
        frames::state_resp(7, 0),
        frames::state_resp(7, 0x21),
        frames::disc_req(7, &ep),
        frames::disc_resp(7, 0),
        frames::connect_resp(7, 0, &ep, 0x1101),
        frames::connect_err(0x24),
    ];
    for f in base {
        for pos in 0..f.len() {
            for val in 0..=255u8 {
                let mut x = f.clone();
                x[pos] = val;
                if frames::parse(&x) != frames::Frame::Other {
                    v.push(x);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    if micro() {
        v = v.into_iter().step_by(16).collect();
    }
    v
}
/// much smaller bounds, for the development of the checker only
fn micro() -> bool {
    std::env::var_os("KMC_MICRO").is_some()
}
const OFTEN: [usize; 34] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 50, 99, 100, 101, 127, 128, 129, 200, 247, 248, 249, 250, 255, 256, 257, 300];
impl<'a> B<'a> {
    fn common(&mut self, cs: Checks, ms: Checks) {
        self.tight(cs, ms);
        if !cs.is_empty() {
            self.par("client's life on every channel", vec![256, 2, 3], 0, cs, |p| cat(vec![Levels(p[2] as u8 + 1)], tour(p[1] == 1, p[0] as u8)));
            self.par("client's life, reconnecting often", vec![OFTEN.len(), 2, 2], 0, cs, |p| {
                let loss = if p[2] == 0 { GwDisc } else { StResp(0x21) };
                let k = OFTEN[p[0]];
                let n = k % 7;
                let mut v = vec![Client, Times(k, vec![Times(n, vec![sop(Write(A, v1()), ok_write())]), loss, Run(50)])];
                if p[1] == 1 {
                    v.insert(0, SameCh);
                }
                cat(cat(v, vec![sop(Write(A, v1()), ok_write()), ind(A, v1())]), probe_client())
            });
            self.par("client, every octet of the granted endpoint", vec![6, 256], 0, cs, |p| {
                let mut e = [10, 9, 8, 7, 14, 87];
                e[p[0]] = p[1] as u8;
                let ep = Endpoint([e[0], e[1], e[2], e[3]], u16::from_be_bytes([e[4], e[5]]));
                vec![ep, Client, op(Status), Run(61_000), sop(Write(A, v1()), ok_write()), GwDisc, Run(100), op(Status), op(Disconnect), Run(100)]
            });
            let m: std::sync::Arc<Vec<Vec<u8>>> = std::sync::Arc::new(mutants());
            self.par("client, every octet of every frame", vec![m.len(), 7], 0, cs, move |p| {
                let x = Raw(m[p[0]].clone());
                let v = match p[1] {
                    0 => vec![Client, x],
                    1 => vec![Client, sop(Write(A, v1()), vec![]), x, con(A, true), Run(11_000)],
                    2 => vec![Client, sop(Write(A, v1()), vec![]), x, con(A, false), Run(11_000)],
                    3 => vec![Client, sop(Read(A), vec![]), x, rsp(A, v2()), Run(11_000)],
                    4 => vec![Client, St(StAns::Silent), op(Status), x, StResp(0), Run(11_000)],
                    5 => vec![Client, DiscPol(None), op(Disconnect), x, Run(100), DiscResp(0), Run(11_000)],
                    _ => vec![Conn(ConnAns::Noise(vec![m[p[0]].clone()])), Client, Run(45_000)],
                };
                cat(v, probe_client())
            });
        }
        if !ms.is_empty() {
            self.par("monitor's life on every channel", vec![256, 2, 3], 0, ms, |p| cat(vec![Levels(p[2] as u8 + 1)], mtour(p[1] == 1, p[0] as u8)));
            self.par("monitor's life, reconnecting often", vec![OFTEN.len(), 2, 2], 0, ms, |p| {
                let loss = if p[2] == 0 { GwDisc } else { StResp(0x21) };
                let k = OFTEN[p[0]];
                let n = k % 7;
                let mut v = vec![Monitor, Times(k, vec![Times(n, vec![sop(MWrite(A, v1()), ok_write())]), loss, Run(50)])];
                if p[1] == 1 {
                    v.insert(0, SameCh);
                }
                cat(cat(v, vec![sop(MWrite(A, v1()), ok_write()), ind(A, v1())]), probe_mon())
            });
            self.par("monitor, every octet of the granted endpoint", vec![6, 256], 0, ms, |p| {
                let mut e = [10, 9, 8, 7, 14, 87];
                e[p[0]] = p[1] as u8;
                let ep = Endpoint([e[0], e[1], e[2], e[3]], u16::from_be_bytes([e[4], e[5]]));
                vec![ep, Monitor, Run(61_000), sop(MWrite(A, v1()), ok_write()), GwDisc, Run(100), op(MDisconnect), Run(100)]
            });
            let m: std::sync::Arc<Vec<Vec<u8>>> = std::sync::Arc::new(mutants());
            self.par("monitor, every octet of every frame", vec![m.len(), 4], 0, ms, move |p| {
                let x = Raw(m[p[0]].clone());
                let v = match p[1] {
                    0 => vec![Monitor, NewSub(2), x, op(Next), ind(B, v1()), DrainSubs],
                    1 => vec![Monitor, op(Next), op(Next), x, ind(B, v1()), op(IsConn)],
                    2 => vec![Monitor, DiscPol(None), op(MDisconnect), x, Run(100), DiscResp(0), Run(11_000)],
                    _ => vec![Conn(ConnAns::Noise(vec![m[p[0]].clone()])), Monitor, NewSub(2), Run(45_000), DrainSubs],
                };
                cat(v, probe_mon())
            });
        }
    }
}

/// calls on a client, with the gateway's answers
fn calls() -> Vec<(OpKind, Ans)> {
    vec![
        (Read(A), ok_read(v2())),
        (Read(B), vec![Piece::Ack, Piece::Wait(1500), Piece::Resp(v1())]),
        (Write(A, v1()), ok_write()),
        (Write(B, v3()), vec![Piece::Ack, Piece::Wait(1500), Piece::ConOk]),
        (Write(A, v2()), vec![]),
        (Status, vec![]),
        (Disconnect, vec![]),
    ]
}
fn mcalls() -> Vec<(OpKind, Ans)> {
    vec![(MWrite(A, v1()), ok_write()), (Solicit(B), ok_read(v3())), (Next, vec![]), (IsConn, vec![]), (MDisconnect, vec![])]
}
/// what may happen at the very instant a timer fires
fn at_once(m: bool) -> Vec<Step> {
    let mut v = vec![
        ind(A, v3()),
        rsp(A, v2()),
        con(A, true),
        con(A, false),
        StResp(0),
        StResp(0x21),
        GwDisc,
        DiscResp(0),
        RecvErr,
        Feat,
        Raw(vec![6, 0x10, 4, 0x20, 0, 99, 4, 7]),
        Raw(frames::connect_resp(9, 0, &frames::hpai([10, 9, 8, 7], 3671), 0x1101)),
        Raw(frames::connect_err(0x24)),
        CancelNewest,
        Fail(0),
    ];
    if m {
        v.extend(mcalls().into_iter().map(|(k, a)| sop(k, a)));
        v.push(NewSub(1));
    } else {
        v.extend(calls().into_iter().map(|(k, a)| sop(k, a)));
    }
    v
}
/// up to the instant one of the timers fires
fn timers(m: bool) -> Vec<Vec<Step>> {
    let o = || if m { Monitor } else { Client };
    let mut v = vec![
        vec![o(), RunTo(60_000)],
        vec![o(), Run(61_000), RunTo(59_000)],
        vec![Conn(ConnAns::Refuse(0x24)), o(), RunTo(10_000)],
        vec![Conn(ConnAns::Silent), o(), RunTo(30_000)],
        vec![Conn(ConnAns::Silent), o(), RunTo(40_000)],
        vec![Conn(ConnAns::AcceptLate(30_000)), o(), RunTo(30_000)],
        vec![o(), Run(100), Conn(ConnAns::Refuse(0x24)), GwDisc, RunTo(10_000)],
        vec![o(), DiscPol(None), op(if m { MDisconnect } else { Disconnect }), RunTo(10_000)],
    ];
    if m {
        v.push(vec![o(), op(Next), RunTo(60_000)]);
        v.push(vec![o(), NewSub(1), Run(100), ConnDefault(ConnAns::Refuse(0x24)), StResp(0x21), Run(20_100), ConnDefault(ConnAns::Accept), RunTo(9_900)]);
    } else {
        v.push(vec![o(), sop(Write(A, v1()), vec![]), RunTo(10_000)]);
        v.push(vec![o(), sop(Read(A), vec![]), RunTo(10_000)]);
        v.push(vec![o(), Run(50_000), sop(Read(A), vec![]), RunTo(10_000)]);
        v.push(vec![o(), Run(55_000), sop(Write(A, v1()), vec![]), RunTo(5_000)]);
        v.push(vec![o(), Run(100), St(StAns::Silent), op(Status), RunTo(10_000)]);
        v.push(vec![o(), Run(50_000), St(StAns::Silent), op(Status), RunTo(10_000)]);
    }
    v
}
impl<'a> B<'a> {
    /// several things at one instant, one right after the other, abandoned half way
    fn noisy_connect(&mut self, m: bool, k: Checks) {
        let who = if m { "monitor" } else { "client" };
        let probe = if m { probe_mon } else { probe_client };
        // noise before the answer to a connect request
        const NOISE: [usize; 8] = [1, 2, 5, 12, 33, 70, 130, 300];
        self.par(&format!("{who}, noise before the connect response"), vec![10, NOISE.len(), 4], 0, k, move |p| {
            let x = match p[0] {
                0 => vec![],
                1 => vec![6, 0x10, 2],
                2 => frames::tunnel(7, 3, &frames::ind(0x1122, A, frames::A_WRITE, &v2())),
                3 => frames::tunnel(7, 3, &frames::con(A, true, frames::A_WRITE, &v1())),
                4 => frames::ack(7, 0, 0),
                5 => frames::feat_resp(7, 0, 8, 0, 1),
                6 => frames::state_resp(7, 0x21),
                7 => frames::disc_req(7, &frames::hpai([10, 9, 8, 7], 3671)),
                8 => frames::disc_resp(7, 0),
                _ => frames::hdr(0x0530, &[0x29, 0]),
            };
            let n = NOISE[p[1]];
            let o = if m { Monitor } else { Client };
            let v = match p[2] {
                0 => vec![Conn(ConnAns::NoiseAccept(vec![x; n])), o, Run(100)],
                1 => vec![o, Run(500), Conn(ConnAns::NoiseAccept(vec![x; n])), GwDisc, Run(100)],
                2 => vec![Conn(ConnAns::AcceptLate(n as u64 * 50 + 100)), o, Times(n, vec![Raw(x), Run(50)]), Run(1000)],
                _ => vec![o, Run(500), Conn(ConnAns::AcceptLate(n as u64 * 50 + 100)), StResp(0x21), Times(n, vec![Raw(x), Run(50)]), Run(1000)],
            };
            cat(v, probe())
        });
    }
    fn tight(&mut self, cs: Checks, ms: Checks) {
        let t = self.t;
        for (m, k) in [(false, cs), (true, ms)] {
            if k.is_empty() {
                continue;
            }
            let who = if m { "monitor" } else { "client" };
            let probe = move || if m { probe_mon() } else { probe_client() };
            let (n, a) = (timers(m).len(), at_once(m).len());
            self.par(&format!("{who}, at the instant a timer fires"), vec![n, a], if t { 3 } else { 2 }, k, move |p| cat(cat(timers(m)[p[0]].clone(), vec![at_once(m)[p[1]].clone(), Run(11_000)]), probe()));
            self.par(&format!("{who}, two things at the instant a timer fires"), vec![n, a, a], if t { 1 } else { 0 }, k, move |p| {
                let x = at_once(m);
                cat(cat(timers(m)[p[0]].clone(), vec![Many(vec![x[p[1]].clone(), x[p[2]].clone()]), Run(11_000)]), probe())
            });
            self.par(&format!("{who}, two things at once"), vec![a, a, 2], if t { 2 } else { 1 }, k, move |p| {
                let x = at_once(m);
                let pre = if p[2] == 0 { vec![] } else { vec![sop(if m { Next } else { Read(A) }, vec![]), Run(3000)] };
                cat(cat(vec![if m { Monitor } else { Client }], pre), cat(vec![Many(vec![x[p[0]].clone(), x[p[1]].clone()]), Run(11_000)], probe()))
            });
            // who sent it to whom, and who we are
            const WHO: [u16; 9] = [0, 1, 0x00ff, 0x1101, 0x1100, 0x7fff, 0x8000, A, 0xffff];
            self.par(&format!("{who}, special addresses"), vec![9, 9, 4, 3, 2], 0, k, move |p| {
                let code = [frames::IND, frames::BUSMON, frames::CON, frames::REQ][p[2]];
                let x = Tun(frames::cemi(code, &[], 0xbc, 0xe0, WHO[p[0]], WHO[p[1]], [frames::A_WRITE, frames::A_RESP, frames::A_READ][p[3]], &v2()));
                let x = if p[4] == 0 { x } else { Many(vec![x.clone(), ind(A, v1()), x]) };
                if m {
                    cat(vec![Monitor, x, op(Next), op(Next)], probe())
                } else {
                    cat(vec![Client, x.clone(), sop(Read(WHO[p[1]]), vec![]), x.clone(), Run(11_000), sop(Write(WHO[p[1]], v1()), vec![]), x, Run(11_000)], probe())
                }
            });
            // the same thing over and over
            let al = if m { mon_alpha() } else { client_alpha() };
            self.par(&format!("{who}, the same thing over and over"), vec![al.len() + 1, OFTEN.len(), 2], 0, k, move |p| {
                let x = if p[0] == 0 { Run(60_000) } else { al[p[0] - 1].clone() };
                let gap = if p[2] == 0 { vec![x] } else { vec![x, Run(300)] };
                cat(vec![if m { Monitor } else { Client }, Times(OFTEN[p[1]], gap)], probe())
            });
            // many other frames while a call waits
            const MANY: [usize; 12] = [1, 2, 3, 5, 9, 12, 17, 33, 65, 90, 130, 300];
            self.par(&format!("{who}, many other frames while a call waits"), vec![if m { 2 } else { 5 }, 12, MANY.len(), 2], 0, k, move |p| {
                let (pre, answer) = match (m, p[0]) {
                    (false, 0) => (vec![sop(Read(A), vec![])], rsp(A, v2())),
                    (false, 1) => (vec![sop(Write(A, v1()), vec![])], con(A, true)),
                    (false, 2) => (vec![sop(Write(A, v1()), vec![])], con(A, false)),
                    (false, 3) => (vec![St(StAns::Silent), op(Status)], StResp(0)),
                    (false, _) => (vec![DiscPol(None), op(Disconnect)], DiscResp(0)),
                    (true, 0) => (vec![op(Next)], ind(A, v2())),
                    (true, _) => (vec![DiscPol(None), op(MDisconnect)], DiscResp(0)),
                };
                // (frame, takes a place in the queue)
                let (x, queued) = match p[1] {
                    0 => (ind(B, v1()), true),
                    1 => (con(B, true), true),
                    2 => (con(B, false), true),
                    3 => (ind(A, v3()), true),
                    4 => (con(A, true), true),
                    5 => (Tun(frames::ind(0x1122, A, frames::A_READ, &Val::Small(0))), true),
                    6 => (Tun(vec![0x13, 0, 1, 2, 3]), true),
                    7 => (Feat, false),
                    8 => (GwAck(0), false),
                    9 => (GwAck(0x29), false),
                    10 => (StResp(0), false),
                    _ => (Raw(vec![6, 0x10, 5, 0x30, 0, 6]), false),
                };
                let n = MANY[p[2]];
                if queued && p[3] == 0 && n > 90 {
                    return vec![];
                }
                let mut v = cat(vec![if m { Monitor } else { Client }], pre);
                v.push(Run(100));
                if p[3] == 0 {
                    v.push(Many((0..n).map(|_| x.clone()).chain([answer]).collect()));
                } else {
                    v.push(Times(n, vec![x, Run(25)]));
                    v.push(answer);
                }
                v.push(Run(100));
                cat(v, probe())
            });
            self.noisy_connect(m, k);
            // a gateway that is away for long
            self.par(&format!("{who}, long outages"), vec![OFTEN.len(), 9, 3], 0, k, move |p| {
                let n = OFTEN[p[0]];
                let (cause, wait) = match p[1] {
                    0 => (Times(n, vec![Conn(ConnAns::Refuse(0x24))]), 10 * n),
                    1 => (Times(n, vec![Conn(ConnAns::Silent)]), 40 * n),
                    2 => (Times(n, vec![Conn(ConnAns::RecvErr)]), 10 * n),
                    3 => (Times(n, vec![Fail(0x0205)]), 10 * n),
                    4 => (Times(n, vec![Conn(ConnAns::Noise(vec![vec![], vec![6, 0x10, 2, 8, 0, 8, 7, 0], vec![1, 2, 3]]))]), 40 * n),
                    5 => (Times(n, vec![Conn(ConnAns::Refuse(0x24)), Conn(ConnAns::Silent), Conn(ConnAns::RecvErr)]), 60 * n),
                    6 => (Times(n, vec![Conn(ConnAns::Refuse([0x22, 0x23, 0x29, 1, 0xff][n % 5]))]), 10 * n),
                    7 => (Conn(ConnAns::AcceptLate(n as u64 * 200)), 60),
                    _ => (Times(n, vec![Conn(ConnAns::Noise(vec![frames::connect_resp(7, 0x21, &frames::hpai([10, 9, 8, 7], 3671), 0x1101)]))]), 10 * n),
                };
                let o = if m { Monitor } else { Client };
                let sub = if m { NewSub(4) } else { Step::Note("") };
                let w = wait as u64 * 1000 + 100;
                let mut v = match p[2] {
                    0 => vec![cause, o, sub, Run(w)],
                    1 => vec![o, sub, Run(500), cause, GwDisc, Run(w)],
                    _ => vec![o, sub, Run(500), cause, StResp(0x21), Run(w), ind(A, v1())],
                };
                if m {
                    v.push(DrainSubs);
                }
                cat(v, probe())
            });
            let c: fn() -> Vec<(OpKind, Ans)> = if m { mcalls } else { calls };
            let n = c().len();
            self.par(&format!("{who}, calls one right after the other beside another"), vec![n, n, n, n + 1], 1, k, move |p| {
                let o = c();
                let mut v = vec![if m { Monitor } else { Client }, Chain(vec![o[p[0]].clone(), o[p[1]].clone(), o[p[2]].clone()])];
                if p[3] < n {
                    let (k, a) = o[p[3]].clone();
                    let last = v.pop().unwrap();
                    v.push(Many(vec![last, sop(k, a)]));
                }
                cat(v, probe())
            });
            for y in [true, false] {
                self.par(&format!("{who}, call abandoned at every {}", if y { "await point" } else { "real suspension" }), vec![n, 24, n + 3, 4], 0, k, move |p| {
                    let o = c();
                    let x = OpCancel(o[p[0]].0.clone(), o[p[0]].1.clone(), p[1] as u32 + 1);
                    let second = match p[2].checked_sub(n) {
                        None => sop(o[p[2]].0.clone(), o[p[2]].1.clone()),
                        Some(0) => ind(A, v2()),
                        Some(1) => StResp(0x21),
                        _ => GwDisc,
                    };
                    let body = match p[3] {
                        0 => vec![x, ind(B, v1()), Run(50), second],
                        1 => vec![Many(vec![x, second])],
                        2 => vec![Many(vec![second, x])],
                        _ => vec![Many(vec![x, ind(A, v3())]), second],
                    };
                    cat(cat(vec![if m { Monitor } else { Client }, Yielding(y)], body), cat(vec![Yielding(false)], probe()))
                });
            }
        }
    }
}

/// the families of all properties, each explored once under all the monitors applied to it (development only)
fn everything(t: bool) -> Vec<Fam> {
    let mut out: Vec<Fam> = vec![];
    for i in [17, 6].into_iter().chain((11..=27).filter(|i| *i != 17)) {
        for mut f in families(&format!("C{i:02}"), t) {
            f.name = format!("ALL/{}", f.name.split_once('/').unwrap().1);
            let same = out.iter_mut().find(|g| g.name == f.name && g.by_obj.is_empty() && f.by_obj.is_empty());
            match same {
                Some(g) => {
                    for c in f.checks {
                        if !g.checks.iter().any(|x| *x as usize == c as usize) {
                            g.checks.push(c);
                        }
                    }
                }
                None => out.push(f),
            }
        }
    }
    out.sort_by_key(|f| (f.name.contains("-mix"), f.devs));
    out
}

pub fn families(id: &str, t: bool) -> Vec<Fam> {
    if id == "ALL" {
        return everything(t);
    }
    let mut b = B { id, t, out: vec![] };
    match id {
        "C06" => c06f(&mut b),
        "C11" => {
            c11f(&mut b);
            b.common(&[c11], &[c11]);
        }
        "C12" => {
            c12f(&mut b);
            b.common(&[c12], &[c12]);
        }
        "C13" => {
            c13f(&mut b);
            b.common(&[], &[c13]);
        }
        "C14" => {
            c14f(&mut b);
            b.common(&[c14], &[]);
        }
        "C15" => {
            c15f(&mut b);
            b.common(&[c15], &[]);
        }
        "C16" => {
            c16f(&mut b);
            b.mix(vec![Run(45_000)], &[c16]);
            b.mmix(vec![Run(45_000)], &[c16]);
            b.common(&[c16], &[c16]);
        }
        "C17" => {
            c17f(&mut b);
            b.common(&[c17], &[c17]);
        }
        "C18" => {
            c18f(&mut b);
            b.common(&[c18], &[c18]);
        }
        "C19" => {
            c19f(&mut b);
            b.common(&[c19], &[c19]);
        }
        "C20" => c20f(&mut b),
        "C21" => c21f(&mut b),
        "C22" => c22f(&mut b),
        "C23" => {
            c23f(&mut b);
            b.common(&[], &[c23, c16]);
        }
        "C24" => {
            c24f(&mut b);
            b.common(&[c24], &[]);
        }
        "C25" => {
            c25f(&mut b);
            b.common(&[c11, c12, c14, c15, c16, c17, c24, no_orphans], &[c11, c12, c13, c16, c17, c23, no_orphans]);
        }
        "C26" => {
            c26f(&mut b);
            c26_beside(&mut b);
        }
        "C27" => c27f(&mut b),
        "C28" => c28f(&mut b),
        _ => (),
    }
    // the cheap ones first
    b.out.sort_by_key(|f| (f.name.contains("-mix"), f.devs));
    b.out
}

// ------------------------------------------------------------------ C06: what a client call puts on the wire
fn c06_wire(v: &View) -> M {
    for o in v.ops() {
        let (a, val) = match &o.kind {
            Write(a, v) | MWrite(a, v) => (*a, Some(v.clone())),
            Read(a) | Solicit(a) => (*a, None),
            _ => continue,
        };
        let wire: Vec<&Vec<u8>> = v
            .tr
            .iter()
            .filter_map(|r| match &r.ev {
                Ev::Sent { f: frames::Frame::Tunnel { cemi, .. }, op, .. } if *op == Some(o.id) => Some(cemi),
                _ => None,
            })
            .collect();
        if let Some(Val::Big(d)) = &val {
            if d.len() >= 255 {
                if !wire.is_empty() || o.res.as_ref().map_or(true, |r| r.ok()) {
                    return Err(format!("value of {} octets was not refused: sent {:02x?}, result {:?}", d.len(), wire, o.res));
                }
                continue;
            }
            if d.len() == 254 && wire.is_empty() && o.res.as_ref().map_or(false, |r| !r.ok()) {
                continue;
            }
        }
        if wire.len() != 1 {
            return Err(format!("{:?} put {} requests on the wire", o.kind, wire.len()));
        }
        let (apci, val) = match val {
            Some(v) => (frames::A_WRITE, v),
            None => (frames::A_READ, Val::Small(0)),
        };
        let exp = frames::apdu(apci, &val);
        let c = wire[0];
        let ok = c.len() == 8 + exp.len()
            && c[0] == frames::REQ
            && c[1] == 0
            && c[3] & 0x80 != 0
            && (c[2] >> 2) & 3 == 3
            && u16::from_be_bytes([c[6], c[7]]) == a
            && c[8..] == exp[..];
        if !ok {
            return Err(format!("{:?} was sent as {:02x?}, expected destination {a:#06x} and application data {:02x?}", o.kind, c, exp));
        }
    }
    Ok(())
}
fn c06f(b: &mut B) {
    b.par("client write lengths", vec![301, 2], 0, &[c06_wire], |p| {
        let v = big(p[0]);
        if p[1] == 0 {
            vec![Client, sop(Write(A, v), ok_write()), Run(100)]
        } else {
            vec![Monitor, sop(MWrite(A, v), ok_write()), Run(100)]
        }
    });
    b.par("client small values", vec![64, 2], 0, &[c06_wire], |p| {
        let v = Val::Small(p[0] as u8);
        if p[1] == 0 {
            vec![Client, sop(Write(B, v), ok_write()), Run(100)]
        } else {
            vec![Monitor, sop(MWrite(B, v), ok_write()), Run(100)]
        }
    });
    b.par("client destinations", vec![256, 4], 0, &[c06_wire], |p| {
        let mut s = vec![if p[1] < 2 { Client } else { Monitor }];
        for lo in 0..256u16 {
            let a = (p[0] as u16) << 8 | lo;
            s.push(match p[1] {
                0 => sop(Write(a, v1()), ok_write()),
                1 => sop(Read(a), ok_read(v1())),
                2 => sop(MWrite(a, v2()), ok_write()),
                _ => sop(Solicit(a), vec![]),
            });
        }
        s
    });
}

// ------------------------------------------------------------------ C11
fn c11f(b: &mut B) {
    let cs: Checks = &[c11];
    b.mix(vec![Run(11_000), sop(Write(C, v1()), ok_write())], cs);
    b.mmix(vec![Run(11_000), sop(MWrite(C, v1()), ok_write())], cs);
    b.focus(
        "requests and reconnects",
        vec![Client],
        vec![
            sop(Write(A, v1()), ok_write()),
            sop(Write(B, v2()), vec![]),
            sop(Read(A), ok_read(v3())),
            Fail(0x0420),
            CancelNewest,
            GwDisc,
            StResp(0x21),
            Run(4000),
            Run(11_000),
            op(Status),
        ],
        vec![Calm, Run(11_000), sop(Write(C, v1()), ok_write()), sop(Write(C, v2()), ok_write())],
        cs,
    );
    b.focus(
        "monitor requests and reconnects",
        vec![Monitor],
        vec![
            sop(MWrite(A, v1()), ok_write()),
            sop(Solicit(B), vec![]),
            Many(vec![sop(MWrite(A, v2()), vec![]), sop(Solicit(A), vec![]), sop(MWrite(B, v3()), vec![])]),
            Fail(0x0420),
            Fail(0x0424),
            GwDisc,
            RecvErr,
            Run(11_000),
        ],
        vec![Calm, Run(50_000), sop(MWrite(C, v1()), ok_write()), sop(MWrite(C, v2()), ok_write())],
        cs,
    );
    b.par("every channel", vec![256, 2], 0, cs, |p| {
        let (o, w) = if p[1] == 0 { (Client, Write(A, v1())) } else { (Monitor, MWrite(A, v1())) };
        let again = sop(w.clone(), ok_write());
        vec![Channel(p[0] as u8), o, again.clone(), again.clone(), GwDisc, Run(1000), again.clone(), again]
    });
    b.par("wrap-around", vec![2, 7, 3], 0, cs, |p| {
        let (o, w) = if p[0] == 0 { (Client, Write(A, v1())) } else { (Monitor, MWrite(A, v1())) };
        let n = [0, 1, 254, 255, 256, 257, 600][p[1]];
        let again = sop(w.clone(), ok_write());
        let brk = match p[2] {
            0 => vec![GwDisc, Run(1000)],
            1 => vec![StResp(0x26), Run(1000)],
            _ => vec![Run(1000)],
        };
        cat(cat(vec![o, Times(n, vec![again.clone()])], brk), vec![Times(300, vec![again])])
    });
    b.par("failed send at every position", vec![2, 264], 0, cs, |p| {
        let (o, w) = if p[0] == 0 { (Client, Write(A, v1())) } else { (Monitor, MWrite(A, v1())) };
        let again = sop(w, ok_write());
        vec![o, Times(p[1], vec![again.clone()]), Fail(0x0420), again.clone(), Times(6, vec![again])]
    });
    b.par("burst of concurrent requests", vec![2, 3], if b.t { 3 } else { 2 }, cs, |p| {
        let m = p[0] == 1;
        let w = |a, v| if m { sop(MWrite(a, v), ok_write()) } else { sop(Write(a, v), ok_write()) };
        let r = |a| if m { sop(Solicit(a), vec![]) } else { sop(Read(a), ok_read(v2())) };
        let brk = [Run(1), GwDisc, StResp(0x21)][p[1]].clone();
        vec![if m { Monitor } else { Client }, Many(vec![w(A, v1()), r(B), brk, w(B, v2())]), Run(1000), w(A, v2())]
    });
}

// ------------------------------------------------------------------ C12
fn c12f(b: &mut B) {
    let cs: Checks = &[c12];
    b.mix(vec![Run(11_000), ind(C, v1())], cs);
    b.mmix(vec![Run(11_000), ind(C, v1())], cs);
    let al = |m: bool| {
        vec![
            ind(A, v3()),
            con(B, false),
            Tun(vec![]),
            Tun(vec![0x29]),
            Tun(short_cemi(A)),
            Tun(unknown_cemi(B)),
            Feat,
            StResp(0),
            if m { op(Next) } else { sop(Write(A, v1()), ok_write()) },
            if m { sop(Solicit(A), ok_read(v1())) } else { sop(Read(A), vec![Piece::Rd, Piece::Wait(1000), Piece::Resp(v2())]) },
            if m { op(MDisconnect) } else { Many(vec![St(StAns::Silent), op(Status)]) },
            Run(61_000),
            GwDisc,
            Fail(0x0421),
            ind(A, big(230)),
        ]
    };
    b.focus("telegrams to a client", vec![Client], al(false), vec![Calm, Run(1000), ind(C, v1())], cs);
    b.focus("telegrams to a monitor", vec![Monitor], al(true), vec![Calm, Run(1000), ind(C, v1())], cs);
    b.par("every channel and sequence number", vec![256, 256, 2], 0, cs, |p| {
        let d = frames::tunnel(p[0] as u8, p[1] as u8, &frames::ind(0x1122, A, frames::A_WRITE, &v1()));
        let f = frames::feat_resp(p[0] as u8, p[1] as u8, 8, 0, 1);
        vec![Channel(p[0] as u8), if p[2] == 0 { Client } else { Monitor }, Raw(d.clone()), Raw(d), Raw(f)]
    });
    b.par("every telegram length", vec![520, 2], 0, cs, |p| {
        let mut c = vec![0x29u8, 0];
        c.resize(p[0], 0x55);
        let d = frames::tunnel(7, 0, &c);
        vec![if p[1] == 0 { Client } else { Monitor }, Raw(d), Raw(frames::tunnel(7, 1, &frames::ind(1, A, frames::A_WRITE, &v1())))]
    });
    b.par("long runs", vec![2, 4], 0, cs, |p| {
        let n = [99, 101, 257, 530][p[1]];
        vec![if p[0] == 0 { Client } else { Monitor }, Burst(n), Run(1), Times(n, vec![ind(A, v1())]), Run(61_000), ind(B, v2())]
    });
}

// ------------------------------------------------------------------ C13
fn c13f(b: &mut B) {
    let cs: Checks = &[c13];
    let reads = vec![op(Next), op(Next), op(Next), op(Next), ind(C, v3()), op(Next), Run(100)];
    b.mmix(cat(vec![Calm, Run(11_000)], reads.clone()), cs);
    b.focus(
        "readers and telegrams",
        vec![Monitor],
        vec![
            op(Next),
            ind(A, v1()),
            rsp(B, v2()),
            rd(A),
            Tun(info_cemi(frames::BUSMON, B, frames::A_RESP, &v3())),
            Tun(info_cemi(frames::IND, A, frames::A_WRITE, &v2())),
            con(A, true),
            Tun(unknown_cemi(A)),
            Tun(short_cemi(B)),
            CancelOldest,
            Run(61_000),
            StResp(0x21),
            op(MDisconnect),
            Feat,
        ],
        cat(vec![Calm, Run(1000)], reads.clone()),
        cs,
    );
    b.focus(
        "concurrent readers",
        vec![Monitor],
        vec![
            Many(vec![op(Next), op(Next), op(Next)]),
            Many(vec![ind(A, v1()), ind(A, v2())]),
            ind(B, v3()),
            CancelOldest,
            CancelNewest,
            con(A, false),
            GwDisc,
            Run(60_000),
        ],
        cat(vec![Calm, Run(1000)], reads.clone()),
        cs,
    );
    b.par("every value length", vec![255, 3], 0, cs, |p| {
        let v = if p[0] == 0 { Val::Small(63) } else { big(p[0] - 1) };
        let c = match p[1] {
            0 => frames::ind(0xffff, A, frames::A_WRITE, &v),
            1 => info_cemi(frames::BUSMON, B, frames::A_RESP, &v),
            _ => info_cemi(frames::IND, 0, frames::A_READ, &v),
        };
        vec![Monitor, Tun(c), op(Next), ind(A, v1()), op(Next)]
    });
    b.par("every length of additional info", vec![255, 3, 2], 0, cs, |p| {
        let c = long_cemi([frames::IND, frames::BUSMON][p[2]], A, frames::A_WRITE, p[0], p[1]);
        vec![Monitor, Tun(c), op(Next), ind(A, v1()), op(Next)]
    });
    b.par("every destination", vec![256], 0, cs, |p| {
        let mut s = vec![Monitor];
        for lo in 0..256u16 {
            s.push(ind((p[0] as u16) << 8 | lo, Val::Small((lo & 63) as u8)));
            s.push(op(Next));
        }
        s
    });
    b.par("every backlog", vec![105, 3], 0, cs, |p| {
        let n = p[0];
        let mut s = vec![Monitor];
        match p[1] {
            0 => s.push(Burst(n)),
            1 => s.push(Times(n, vec![ind(A, big(9))])),
            _ => {
                s.push(Burst(n / 2));
                s.push(Run(61_000));
                s.push(StResp(0x21));
                s.push(Run(1000));
                s.push(Burst(n - n / 2));
            }
        }
        s.push(Times(n + 1, vec![op(Next)]));
        s.push(ind(B, v2()));
        s
    });
}

// ------------------------------------------------------------------ C14
fn c14f(b: &mut B) {
    let cs: Checks = &[c14, probes];
    b.mix(probe_client(), &[c14]);
    b.focus(
        "reads amid telegrams",
        vec![Client],
        vec![
            sop(Read(A), ok_read(v2())),
            sop(Read(A), vec![Piece::Ack]),
            sop(Read(B), vec![Piece::Rd, Piece::ConOk, Piece::RespTo(A, v1()), Piece::Wait(9000), Piece::Wr(v3())]),
            ind(A, v1()),
            rsp(A, v3()),
            rsp(B, v2()),
            rd(A),
            con(A, true),
            con(A, false),
            Tun(short_cemi(A)),
            Tun(unknown_cemi(A)),
            Tun(info_cemi(frames::IND, A, frames::A_RESP, &v2())),
            Run(4000),
            CancelNewest,
            sop(Write(A, v1()), ok_write()),
            Tun(short_con(A)),
        ],
        probe_client(),
        cs,
    );
    b.focus(
        "reads around losses",
        vec![Client],
        vec![
            sop(Read(A), ok_read(v2())),
            sop(Read(A), vec![Piece::Ack]),
            rsp(A, v3()),
            GwDisc,
            StResp(0x21),
            RecvErr,
            Fail(0x0420),
            Run(4000),
            Run(11_000),
            Conn(ConnAns::Refuse(0x24)),
            op(Status),
        ],
        probe_client(),
        cs,
    );
    // for every group address: telegrams for all addresses one bit away first
    b.par("every address", vec![256, 256], 0, cs, |p| {
        let a = (p[0] as u16) << 8 | p[1] as u16;
        let mut ans = vec![Piece::Ack, Piece::ConOk];
        for k in 0..16 {
            ans.push(Piece::RespTo(a ^ (1 << k), Val::Small(k)));
        }
        ans.push(Piece::Resp(v2()));
        ans.push(Piece::Resp(v3()));
        vec![Client, sop(Read(a), ans), Run(100)]
    });
    b.par("every application service octet pair", vec![4, 256], 0, &[c14], |p| {
        let mut c = frames::ind(0x1122, A, frames::A_RESP, &v1());
        c[9] = p[0] as u8;
        c[10] = p[1] as u8;
        vec![Client, sop(Read(A), vec![Piece::Ack]), Tun(c), rsp(A, v2()), Run(100)]
    });
    b.par("every value length", vec![255, 2], 0, cs, |p| {
        let v = if p[0] == 0 { Val::Small(63) } else { big(p[0] - 1) };
        let c = if p[1] == 0 {
            frames::ind(0xffff, B, frames::A_WRITE, &v)
        } else {
            info_cemi(frames::IND, B, frames::A_RESP, &v)
        };
        vec![Client, sop(Read(B), vec![Piece::Ack, Piece::Cemi(c)]), Run(100)]
    });
    b.par("every length of additional info", vec![255, 3], 0, cs, |p| {
        let c = long_cemi(frames::IND, B, frames::A_RESP, p[0], p[1]);
        vec![Client, sop(Read(B), vec![Piece::Ack, Piece::Cemi(c)]), Run(100)]
    });
    b.par("leftovers", vec![110], 0, cs, |p| {
        vec![Client, Times(p[0], vec![rsp(A, v1())]), sop(Read(A), ok_read(v2())), Run(100), sop(Read(A), vec![]), Run(10_100)]
    });
    b.par("unrelated telegrams before the answer", vec![2, 60], 0, cs, |p| {
        let mut ans = vec![Piece::Ack];
        for i in 0..p[1] {
            ans.push(if p[0] == 0 { Piece::RespTo(B, v1()) } else { Piece::Cemi(if i % 2 == 0 { short_cemi(A) } else { unknown_cemi(A) }) });
            ans.push(Piece::Wait(100));
        }
        ans.push(Piece::Resp(v2()));
        vec![Client, sop(Read(A), ans), Run(9000)]
    });
    b.par("answer at every time", vec![221], 0, cs, |p| {
        let ms = (p[0] * 50) as u64;
        vec![Client, sop(Read(A), vec![Piece::Ack, Piece::Wait(ms), Piece::Resp(v3())]), Run(15_000), sop(Read(A), vec![]), Run(11_000)]
    });
}

// ------------------------------------------------------------------ C15
fn c15f(b: &mut B) {
    let cs: Checks = &[c15, probes];
    b.mix(probe_client(), &[c15]);
    b.focus(
        "writes amid telegrams",
        vec![Client],
        vec![
            sop(Write(A, v1()), ok_write()),
            sop(Write(A, v2()), vec![Piece::Ack]),
            sop(Write(A, v1()), vec![Piece::Ack, Piece::ConNeg]),
            sop(Write(B, v3()), vec![Piece::AckErr, Piece::Wr(v1()), Piece::ConTo(A, false), Piece::Wait(9000), Piece::ConOk]),
            con(A, true),
            con(A, false),
            con(B, true),
            ind(A, v1()),
            rsp(A, v3()),
            Tun(short_con(A)),
            Tun(short_cemi(A)),
            Tun(unknown_cemi(A)),
            Run(4000),
            CancelNewest,
            sop(Read(A), vec![Piece::Ack, Piece::ConOk, Piece::Wait(500), Piece::Resp(v2())]),
        ],
        probe_client(),
        cs,
    );
    b.focus(
        "writes around losses",
        vec![Client],
        vec![
            sop(Write(A, v1()), ok_write()),
            sop(Write(A, v2()), vec![]),
            con(A, true),
            con(A, false),
            GwDisc,
            StResp(0x21),
            RecvErr,
            Fail(0x0420),
            Run(4000),
            Run(11_000),
            Conn(ConnAns::Refuse(0x24)),
        ],
        probe_client(),
        cs,
    );
    b.par("every address", vec![256, 256, 2], 0, cs, |p| {
        let a = (p[0] as u16) << 8 | p[1] as u16;
        let good = p[2] == 0;
        let mut ans = vec![Piece::Ack];
        for k in 0..16 {
            ans.push(Piece::ConTo(a ^ (1 << k), !good));
        }
        ans.push(if good { Piece::ConOk } else { Piece::ConNeg });
        vec![Client, sop(Write(a, v1()), ans), Run(100)]
    });
    b.par("every control octet of the confirmation", vec![256, 4], 0, cs, |p| {
        let mut c = frames::con(A, true, frames::A_WRITE, &v1());
        c[2] = p[0] as u8;
        let c = match p[1] {
            0 => c,
            1 => info_cemi(frames::CON, A, frames::A_WRITE, &v2()).iter().enumerate().map(|(i, x)| if i == 11 { p[0] as u8 } else { *x }).collect(),
            2 => {
                c[0] = frames::IND;
                c
            }
            _ => {
                c[3] = p[0] as u8;
                c[2] = 0xbc;
                c
            }
        };
        vec![Client, sop(Write(A, v1()), vec![Piece::Ack, Piece::Cemi(c)]), Run(10_100)]
    });
    b.par("every length of additional info", vec![255, 3, 2], 0, cs, |p| {
        let mut c = long_cemi(frames::CON, A, frames::A_WRITE, p[0], p[1]);
        let i = 2 + c[1] as usize;
        c[i] = c[i] & 0xfe | p[2] as u8;
        vec![Client, sop(Write(A, v1()), vec![Piece::Ack, Piece::Cemi(c)]), Run(10_100)]
    });
    b.par("leftovers", vec![110, 2], 0, cs, |p| {
        vec![Client, Times(p[0], vec![con(A, p[1] == 0)]), sop(Write(A, v1()), ok_write()), Run(100), sop(Write(A, v2()), vec![]), Run(10_100)]
    });
    b.par("confirmation at every time", vec![221, 2], 0, cs, |p| {
        let ms = (p[0] * 50) as u64;
        let c = if p[1] == 0 { Piece::ConOk } else { Piece::ConNeg };
        vec![Client, sop(Write(A, v1()), vec![Piece::Ack, Piece::Wait(ms), c]), Run(15_000), sop(Write(A, v2()), vec![]), Run(11_000)]
    });
}

// ------------------------------------------------------------------ C16
fn c16f(b: &mut B) {
    let cs: Checks = &[c16];
    let silent = vec![StDefault(StAns::Silent), DiscPol(None), ReqDefault(vec![])];
    b.focus(
        "silent and flooding gateway",
        cat(vec![Client], silent.clone()),
        vec![
            sop(Read(A), vec![]),
            sop(Write(A, v1()), vec![]),
            op(Status),
            op(Disconnect),
            Many(vec![sop(Read(B), vec![]), sop(Write(B, v2()), vec![]), op(Status)]),
            Flood(vec![frames::ind(1, B, frames::A_RESP, &v1()), frames::con(B, true, frames::A_WRITE, &v1())], 700, 7000),
            Run(3000),
            Run(9000),
            CancelOldest,
            StResp(0x21),
            ind(A, v2()),
        ],
        vec![Run(45_000)],
        cs,
    );
    b.focus(
        "monitor calls",
        cat(vec![Monitor], silent),
        vec![
            op(Next),
            op(IsConn),
            NewSub(1),
            sop(Solicit(A), vec![]),
            sop(MWrite(A, v1()), vec![]),
            op(MDisconnect),
            StResp(0x21),
            Run(9000),
            Conn(ConnAns::Silent),
            ind(A, v1()),
        ],
        vec![Run(45_000)],
        cs,
    );
    b.par("steady traffic at every period", vec![30, 4, 5], 0, cs, |p| {
        let k = [Read(A), Write(A, v1()), Status, Disconnect][p[1]].clone();
        let ds = match p[2] {
            0 => vec![frames::ind(1, B, frames::A_RESP, &v1())],
            1 => vec![frames::con(B, false, frames::A_WRITE, &v1())],
            2 => vec![unknown_cemi(A), short_cemi(A)],
            3 => vec![frames::ind(1, A, frames::A_READ, &v1())],
            _ => vec![frames::ack(7, 0, 0x29), frames::hdr(0x0777, &[1, 2, 3])],
        };
        let period = [1, 2, 5, 10, 20, 50, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1500, 2000, 2500, 3000, 3500, 4000, 5000, 6000, 7000, 8000, 9000, 9500, 9900, 9999][p[0]];
        vec![Client, StDefault(StAns::Silent), DiscPol(None), sop(k, vec![]), Flood(ds, period, 12_000.max(2 * period))]
    });
    b.par("queue of operations", vec![4, 4, 4, 4], 0, cs, |p| {
        let k = |i: usize| [Read(A), Write(B, v1()), Status, Disconnect][i].clone();
        vec![
            Client,
            StDefault(StAns::Silent),
            DiscPol(None),
            Many(p.iter().map(|i| sop(k(*i), vec![])).collect()),
            Run(45_000),
        ]
    });
}

// ------------------------------------------------------------------ C17
fn c17f(b: &mut B) {
    let cs: Checks = &[c17];
    let after = |m: bool| {
        let mut v = vec![Run(200_000), ind(A, v1()), StResp(0), GwDisc, Run(100_000)];
        if m {
            v.extend([op(IsConn), Run(10), sop(MWrite(A, v1()), ok_write()), Run(10), sop(Solicit(A), vec![]), Run(10), op(MDisconnect), Run(10), op(Next), Run(10)]);
        } else {
            v.extend([sop(Write(A, v1()), ok_write()), Run(10), sop(Read(A), ok_read(v1())), Run(10), op(Status), Run(10), op(Disconnect), Run(10)]);
        }
        v
    };
    b.mix(cat(vec![Calm, Run(50_000), op(Disconnect)], after(false)), cs);
    b.mmix(cat(vec![Calm, Run(50_000), op(MDisconnect)], after(true)), cs);
    b.focus(
        "around a disconnect",
        vec![Client],
        vec![
            op(Disconnect),
            Many(vec![DiscPieces(vec![Piece::Raw(frames::state_resp(7, 0)), Piece::RespTo(A, v1()), Piece::ConTo(A, true), Piece::Wait(3000)]), op(Disconnect)]),
            DiscPol(None),
            DiscPol(Some(0)),
            Fail(0x0209),
            sop(Write(A, v1()), ok_write()),
            sop(Read(A), vec![]),
            op(Status),
            ind(A, v2()),
            GwDisc,
            StResp(0x21),
            Run(11_000),
            Run(61_000),
            CancelNewest,
        ],
        after(false),
        cs,
    );
    b.focus(
        "around a monitor disconnect",
        vec![Monitor],
        vec![
            op(MDisconnect),
            Many(vec![DiscPieces(vec![Piece::Raw(frames::state_resp(7, 0)), Piece::RespTo(A, v1()), Piece::Wait(3000)]), op(MDisconnect)]),
            DiscPol(None),
            DiscPol(Some(0)),
            Fail(0x0209),
            sop(MWrite(A, v1()), ok_write()),
            op(Next),
            op(IsConn),
            ind(A, v2()),
            GwDisc,
            StResp(0x21),
            Run(11_000),
            Run(61_000),
            CancelNewest,
        ],
        after(true),
        cs,
    );
    b.par("every channel and status", vec![256, 4, 2], 0, cs, move |p| {
        let m = p[2] == 1;
        let ch = if p[1] == 0 { p[0] as u8 } else { 7 };
        let st = if p[1] == 0 { 0 } else { p[0] as u8 };
        let mut v = vec![Channel(ch), if m { Monitor } else { Client }];
        v.push(DiscPol(Some(st)));
        if p[1] == 2 {
            v.push(DiscPieces(vec![Piece::Wait(9000)]));
        }
        if p[1] == 3 {
            v.push(DiscPieces(vec![Piece::RespTo(A, v1()), Piece::Raw(vec![6, 0x10, 2]), Piece::Raw(frames::state_resp(7, 0)), Piece::ConTo(A, true)]));
        }
        v.push(op(if m { MDisconnect } else { Disconnect }));
        v.push(Run(9500));
        cat(v, after(m))
    });
    b.par("answer at every time", vec![211, 2], 0, cs, move |p| {
        let m = p[1] == 1;
        let v = vec![
            if m { Monitor } else { Client },
            DiscPieces(vec![Piece::Wait(p[0] as u64 * 50)]),
            op(if m { MDisconnect } else { Disconnect }),
            Run(15_000),
        ];
        cat(v, after(m))
    });
}

// ------------------------------------------------------------------ C18
fn c18f(b: &mut B) {
    let cs: Checks = &[c18, probes];
    b.mix(probe_client(), cs);
    b.mmix(probe_mon(), cs);
    let al = |m: bool| {
        vec![
            Conn(ConnAns::Refuse(0x24)),
            Conn(ConnAns::Silent),
            Conn(ConnAns::RecvErr),
            Conn(ConnAns::NoiseAccept(vec![frames::state_resp(7, 0), frames::tunnel(7, 0, &frames::ind(1, A, frames::A_WRITE, &v1())), vec![6]])),
            Conn(ConnAns::Noise(vec![frames::connect_resp(9, 0, &frames::hpai([1, 2, 3, 4], 5), 9)[..15].to_vec()])),
            Conn(ConnAns::AcceptLate(20_000)),
            Conn(ConnAns::AcceptLate(35_000)),
            GwDisc,
            StResp(0x21),
            RecvErr,
            Fail(0x0205),
            Fail(0x0207),
            if m { Fail(0x0424) } else { Fail(0x0421) },
            Run(11_000),
            Run(61_000),
        ]
    };
    b.focus("losses and refusals", vec![Client], al(false), probe_client(), cs);
    b.focus("monitor losses and refusals", vec![Monitor], al(true), probe_mon(), cs);
    b.focus("never connected yet", vec![Conn(ConnAns::Silent), Client], al(false), probe_client(), cs);
    b.par("every send that fails", vec![6, 7, 7, 3, 2], 0, cs, |p| {
        let f = Fail([0x0205, 0x0207, 0x020a, 0x0420, 0x0421, 0x0424][p[0]]);
        let t = |k: usize| match k {
            0 => ind(A, v1()),
            1 => Feat,
            2 => Run(61_000),
            3 => GwDisc,
            4 => StResp(0x21),
            5 if p[4] == 0 => sop(Write(A, v1()), ok_write()),
            5 => sop(MWrite(A, v1()), ok_write()),
            _ => con(A, true),
        };
        let mut v = vec![if p[4] == 0 { Client } else { Monitor }, Run(1000)];
        v.extend((0..p[3] + 1).map(|_| f.clone()));
        cat(cat(v, vec![t(p[1]), Run(11_000), t(p[2]), Run(1000)]), if p[4] == 0 { probe_client() } else { probe_mon() })
    });
    b.par("every refusal status", vec![255, 3, 2], 0, cs, |p| {
        let st = p[0] as u8 + 1;
        let bad = match p[1] {
            0 => ConnAns::Refuse(st),
            1 => ConnAns::Noise(vec![frames::connect_resp(7, st, &frames::hpai([1, 2, 3, 4], 5), 0x1101)]),
            _ => ConnAns::Refuse(st),
        };
        let mut v = vec![Conn(bad.clone())];
        if p[1] == 2 {
            v.insert(0, Conn(ConnAns::Accept));
        }
        v.push(if p[2] == 0 { Client } else { Monitor });
        v.push(Run(1000));
        v.push(StResp(st));
        cat(v, if p[2] == 0 { probe_client() } else { probe_mon() })
    });
    b.par("many attempts", vec![40, 3, 2], 0, cs, |p| {
        let bad = [ConnAns::Refuse(0x24), ConnAns::Silent, ConnAns::RecvErr][p[1]].clone();
        let mut v: Vec<Step> = (0..p[0]).map(|_| Conn(bad.clone())).collect();
        v.push(if p[2] == 0 { Client } else { Monitor });
        v.push(Run(p[0] as u64 * if p[1] == 1 { 40_000 } else { 10_000 } + 1000));
        v.push(GwDisc);
        cat(v, if p[2] == 0 { probe_client() } else { probe_mon() })
    });
    b.par("stray datagrams during an attempt", vec![noise(0).len(), 3, 2], 0, cs, |p| {
        let n = noise(0)[p[0]].clone();
        let a = match p[1] {
            0 => ConnAns::NoiseAccept(vec![n]),
            1 => ConnAns::NoiseAccept(vec![n.clone(), n.clone(), n]),
            _ => ConnAns::Noise(vec![n]),
        };
        cat(vec![Conn(a), if p[2] == 0 { Client } else { Monitor }, Run(1000)], if p[2] == 0 { probe_client() } else { probe_mon() })
    });
    b.par("accepted at every time", vec![96, 2], 0, cs, |p| {
        let ms = p[0] as u64 * 500;
        let (o, pr) = if p[1] == 0 { (Client, probe_client()) } else { (Monitor, probe_mon()) };
        cat(vec![Conn(ConnAns::AcceptLate(ms)), o, Run(60_000)], pr)
    });
}

// ------------------------------------------------------------------ C19
fn c19f(b: &mut B) {
    let cs: Checks = &[c19];
    let tail = vec![Calm, Run(200_000)];
    b.mix(tail.clone(), cs);
    b.mmix(tail.clone(), cs);
    let al = |m: bool| {
        vec![
            Run(20_000),
            Run(59_990),
            Run(61_000),
            if m { op(Next) } else { sop(Write(A, v1()), vec![]) },
            if m { sop(MWrite(A, v1()), vec![]) } else { op(Status) },
            ind(A, v2()),
            Burst(120),
            StResp(0),
            StResp(0x21),
            GwDisc,
            StDefault(StAns::Silent),
            Conn(ConnAns::Silent),
            Fail(0x0207),
            if m { op(MDisconnect) } else { op(Disconnect) },
        ]
    };
    b.focus("heart beats", vec![Client], al(false), tail.clone(), cs);
    b.focus("monitor heart beats", vec![Monitor], al(true), tail.clone(), cs);
    b.par("every channel", vec![256, 2], 0, cs, |p| {
        vec![Channel(p[0] as u8), if p[1] == 0 { Client } else { Monitor }, Run(125_000), GwDisc, Run(125_000)]
    });
    b.par("steady traffic at every period", vec![12, 2, 4], 0, cs, |p| {
        let ds = match p[2] {
            0 => vec![frames::ind(1, B, frames::A_RESP, &v1())],
            1 => vec![frames::con(B, false, frames::A_WRITE, &v1())],
            2 => vec![frames::state_resp(7, 0)],
            _ => vec![vec![6, 0x10, 1], frames::ack(7, 1, 0)],
        };
        let period = [50, 100, 500, 1000, 5000, 9000, 20_000, 30_000, 45_000, 59_000, 60_000, 61_000][p[0]];
        vec![if p[1] == 0 { Client } else { Monitor }, Flood(ds, period, 250_000)]
    });
    b.par("loss at every time", vec![130, 3, 2], 0, cs, |p| {
        let loss = [GwDisc, StResp(0x27), RecvErr][p[1]].clone();
        vec![
            if p[2] == 0 { Client } else { Monitor },
            Run(p[0] as u64 * 1000),
            Conn(ConnAns::Refuse(0x24)),
            loss,
            Run(200_000),
        ]
    });
    b.par("outage of every length", vec![40, 2], 0, cs, |p| {
        let mut v: Vec<Step> = vec![if p[1] == 0 { Client } else { Monitor }, Run(30_000)];
        v.extend((0..p[0]).map(|_| Conn(ConnAns::Refuse(0x24))));
        v.push(GwDisc);
        v.push(Run(p[0] as u64 * 10_000 + 200_000));
        v
    });
}

// ------------------------------------------------------------------ noise datagrams
/// Datagrams without meaning to a tunnelling client. Level 0: a representative list; 1: systematic.
pub fn noise(level: u8) -> Vec<Vec<u8>> {
    let ep = frames::hpai([10, 9, 8, 7], 3671);
    let valid: Vec<Vec<u8>> = vec![
        frames::tunnel(7, 0, &frames::ind(0x1122, A, frames::A_WRITE, &v3())),
        frames::tunnel(7, 0, &frames::con(A, true, frames::A_WRITE, &v1())),
        frames::ack(7, 0, 0),
        frames::feat_resp(7, 0, 8, 0, 1),
        frames::state_resp(7, 0x21),
        frames::state_resp(7, 0),
        frames::disc_req(7, &ep),
        frames::disc_resp(7, 0),
    ];
    let mut v: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![6],
        vec![6, 0x10],
        vec![0xff; 40],
        vec![0; 40],
        vec![6, 0x10, 4, 0x20],
        vec![6, 0x10, 4, 0x20, 0, 0],
        vec![6, 0x10, 4, 0x20, 0xff, 0xff, 4, 7, 0, 0],
        vec![6, 0x10, 4, 0x20, 0, 5, 4, 7, 0, 0],
        vec![6, 0x10, 4, 0x20, 0, 9, 4, 7, 0, 0],
        frames::hdr(0x0000, &[]),
        frames::hdr(0x0201, &ep),
        frames::search_resp(1, 3),
        frames::hdr(0x0203, &ep),
        frames::hdr(0x0310, &[4, 7, 0, 0, 0xfc]),
        frames::hdr(0x0422, &[4, 7, 0, 0, 8, 0]),
        frames::hdr(0x0425, &[4, 7, 0, 0, 8, 0, 1]),
        frames::hdr(0x0530, &frames::ind(1, A, frames::A_WRITE, &v1())),
        frames::hdr(0x0531, &[4, 0, 0, 1]),
        frames::hdr(0x0532, &[6, 0, 0, 1, 0, 0]),
        frames::hdr(0xffff, &[1; 30]),
    ];
    for f in &valid {
        v.push(f[..f.len() - 1].to_vec());
        v.push(f[..5].to_vec());
        let mut x = f.clone();
        x[0] = 5;
        v.push(x);
        let mut x = f.clone();
        x[1] = 0x20;
        v.push(x);
    }
    if level > 0 {
        for f in &valid {
            for n in 0..f.len() {
                v.push(f[..n].to_vec());
            }
            for pos in 0..2 {
                for val in 0..=255u8 {
                    if val != f[pos] {
                        let mut x = f.clone();
                        x[pos] = val;
                        v.push(x);
                    }
                }
            }
            // total length: too large everywhere; any wrong value where the size is fixed
            let svc = u16::from_be_bytes([f[2], f[3]]);
            let len = f.len() as u16;
            for s in (0..=40u16).chain([255, 256, 1000, 0xffff]) {
                let fixed = svc == 0x0208 || svc == 0x020a || svc == 0x0423;
                if s != len && svc != 0x0209 && svc != 0x0421 && (fixed && s > len || svc == 0x0420 && (s > len || s < 10)) {
                    let mut x = f.clone();
                    x[4..6].copy_from_slice(&s.to_be_bytes());
                    v.push(x);
                }
            }
            // connection header length
            if svc == 0x0420 || svc == 0x0423 {
                for val in (0..=255u8).filter(|x| *x != 4) {
                    let mut x = f.clone();
                    x[6] = val;
                    v.push(x);
                }
            }
            if svc == 0x0209 {
                for val in (0..=255u8).filter(|x| *x != 8) {
                    let mut x = f.clone();
                    x[8] = val;
                    v.push(x);
                }
            }
        }
        v.sort();
        v.dedup();
    }
    v
}
/// tunnelled telegrams without meaning: acknowledged, nothing else
fn bad_cemis() -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0x29], vec![0x29, 0], vec![0x2e, 0], vec![0x29, 5, 4], vec![0x29, 4, 4, 9, 1, 1], vec![0x29, 1, 4]];
    for base in [
        frames::ind(0x1122, A, frames::A_RESP, &v3()),
        frames::ind(0x1122, A, frames::A_RESP, &v1()),
        info_cemi(frames::IND, A, frames::A_WRITE, &v2()),
    ] {
        for n in 0..base.len() {
            v.push(base[..n].to_vec());
        }
    }
    let c = frames::con(A, true, frames::A_WRITE, &v1());
    for n in 0..8 {
        v.push(c[..n].to_vec());
    }
    for code in 0..=255u8 {
        if ![frames::IND, frames::CON, frames::BUSMON].contains(&code) {
            let mut c = frames::ind(0x1122, A, frames::A_RESP, &v1());
            c[0] = code;
            v.push(c);
        }
    }
    v
}

// ------------------------------------------------------------------ C20
fn c20f(b: &mut B) {
    let cs: Checks = &[c11, c12, c14, c15, c16, c17, c18, c19, c24, probes];
    let ms: Checks = &[c11, c12, c13, c16, c17, c18, c19, c23, probes];
    b.noisy_connect(false, cs);
    b.noisy_connect(true, ms);
    // base histories with a hole for noise at every position
    let bases: Vec<Vec<Step>> = vec![
        vec![sop(Write(A, v1()), vec![Piece::Ack]), con(A, true), Run(10)],
        vec![sop(Read(A), vec![Piece::Ack, Piece::ConOk]), rsp(A, v2()), Run(10)],
        vec![Many(vec![St(StAns::Late(2000, 0)), op(Status)]), Run(2500)],
        vec![Run(61_000), StResp(0x21), Run(1000)],
        vec![DiscPieces(vec![Piece::Wait(2000)]), op(Disconnect), Run(2500)],
        vec![sop(Write(A, v1()), vec![]), Run(10_100)],
        vec![GwDisc, Run(100)],
    ];
    let mbases: Vec<Vec<Step>> = vec![
        vec![op(Next), ind(A, v1()), Run(10)],
        vec![ind(A, v1()), ind(B, v2()), op(Next), op(Next)],
        vec![Run(61_000), GwDisc, NewSub(2), DrainSubs],
        vec![sop(MWrite(A, v1()), ok_write()), DiscPieces(vec![Piece::Wait(2000)]), op(MDisconnect), Run(2500)],
    ];
    let weave = |base: &Vec<Step>, pos: usize, n: &Step| -> Vec<Step> {
        let mut v = base.clone();
        let p = pos.min(v.len());
        v.insert(p, n.clone());
        v
    };
    let nlist: std::sync::Arc<Vec<Vec<u8>>> = std::sync::Arc::new(noise(1));
    let bl: std::sync::Arc<Vec<Vec<u8>>> = std::sync::Arc::new(bad_cemis());
    {
        let (n, bases) = (nlist.clone(), bases.clone());
        b.par("datagram at every position (client)", vec![n.len(), bases.len(), 4], 0, cs, move |p| {
            cat(cat(vec![Client], weave(&bases[p[1]], p[2], &Raw(n[p[0]].clone()))), probe_client())
        });
    }
    {
        let (n, bases) = (nlist.clone(), mbases.clone());
        b.par("datagram at every position (monitor)", vec![n.len(), bases.len(), 5], 0, ms, move |p| {
            cat(cat(vec![Monitor], weave(&bases[p[1]], p[2], &Raw(n[p[0]].clone()))), probe_mon())
        });
    }
    {
        let (n, bases) = (bl.clone(), bases.clone());
        b.par("telegram at every position (client)", vec![n.len(), bases.len(), 4], 0, cs, move |p| {
            cat(cat(vec![Client], weave(&bases[p[1]], p[2], &Tun(n[p[0]].clone()))), probe_client())
        });
    }
    {
        let (n, bases) = (bl, mbases.clone());
        b.par("telegram at every position (monitor)", vec![n.len(), bases.len(), 5], 0, ms, move |p| {
            cat(cat(vec![Monitor], weave(&bases[p[1]], p[2], &Tun(n[p[0]].clone()))), probe_mon())
        });
    }
    {
        let bases = bases.clone();
        let used = [0x0206u16, 0x0208, 0x0209, 0x020a, 0x0420, 0x0421, 0x0423];
        b.par("every service identifier", vec![256, 256, 2], 0, cs, move |p| {
            let svc = (p[0] as u16) << 8 | p[1] as u16;
            if used.contains(&svc) {
                return vec![];
            }
            let body = if p[1] % 2 == 0 { vec![7, 0x21] } else { frames::ind(1, A, frames::A_RESP, &v3()) };
            let n = Raw(frames::hdr(svc, &body));
            cat(cat(vec![Client], weave(&bases[p[2]], 1, &n)), probe_client())
        });
    }
    {
        let n0: std::sync::Arc<Vec<Vec<u8>>> = std::sync::Arc::new(noise(0));
        let t = b.t;
        let bases2 = bases.clone();
        let mbases2 = mbases.clone();
        let n = n0.clone();
        b.par("with scheduling deviations (client)", vec![n.len(), bases.len(), 4], if t { 2 } else { 1 }, cs, move |p| {
            let x = Raw(n[p[0]].clone());
            cat(cat(vec![Client], weave(&bases2[p[1]], p[2], &x)), probe_client())
        });
        let n = n0.clone();
        b.par("with scheduling deviations (monitor)", vec![n.len(), mbases.len(), 5], if t { 2 } else { 1 }, ms, move |p| {
            let x = Raw(n[p[0]].clone());
            cat(cat(vec![Monitor], weave(&mbases[p[1]], p[2], &x)), probe_mon())
        });
        // the same (or every) kind of noise, over and over
        let mut kinds: Vec<Vec<Step>> = n0.iter().map(|x| vec![Raw(x.clone())]).collect();
        kinds.push(n0.iter().map(|x| Raw(x.clone())).collect());
        kinds.push(vec![GwAck(0)]);
        kinds.push(vec![GwAck(0x29)]);
        for c in [vec![], vec![0x29], vec![0x29, 5, 4], frames::ind(0x1122, A, frames::A_RESP, &v3())[..8].to_vec(), vec![0x13, 0, 1, 2, 3]] {
            kinds.push(vec![Tun(c)]);
        }
        let counts: &'static [usize] = if t { &[2, 5, 9, 17, 33, 65, 129, 257, 300, 1000] } else { &[6, 17, 65, 300] };
        let ks = std::sync::Arc::new(kinds);
        let run = |k: &Vec<Step>, n: usize, pace: usize| -> Vec<Step> {
            match pace {
                0 => vec![Many((0..n).map(|i| k[i % k.len()].clone()).collect())],
                _ => (0..n).flat_map(|i| vec![k[i % k.len()].clone(), Run(30)]).collect(),
            }
        };
        let (k, bs) = (ks.clone(), bases.clone());
        b.par("long runs of noise (client)", vec![ks.len(), counts.len(), bases.len(), 2], 0, cs, move |p| {
            let mut v = vec![Client, Run(100)];
            let at = if p[3] == 0 { 1 } else { 0 };
            v.extend(bs[p[2]][..at].iter().cloned());
            v.extend(run(&k[p[0]], counts[p[1]], p[3]));
            v.extend(bs[p[2]][at..].iter().cloned());
            cat(v, probe_client())
        });
        let (k, bs) = (ks.clone(), mbases2.clone());
        b.par("long runs of noise (monitor)", vec![ks.len(), counts.len(), mbases2.len(), 2], 0, ms, move |p| {
            let mut v = vec![Monitor, Run(100)];
            let at = if p[3] == 0 { 1 } else { 0 };
            v.extend(bs[p[2]][..at].iter().cloned());
            v.extend(run(&k[p[0]], counts[p[1]], p[3]));
            v.extend(bs[p[2]][at..].iter().cloned());
            cat(v, probe_mon())
        });
        let n = n0;
        b.par("pairs and runs of noise", vec![n.len(), n.len(), 2], 0, cs, move |p| {
            let (x, y) = (Raw(n[p[0]].clone()), Raw(n[p[1]].clone()));
            let base = if p[2] == 0 { vec![sop(Write(A, v1()), vec![Piece::Ack]), con(A, true)] } else { vec![sop(Read(B), vec![]), rsp(B, v3())] };
            let mut v = vec![Client, Many(vec![x.clone(), y.clone()]), base[0].clone(), Many(vec![y.clone(), x.clone(), y, x])];
            v.push(base[1].clone());
            cat(v, probe_client())
        });
    }
}

// ------------------------------------------------------------------ C21
fn c21f(b: &mut B) {
    let cs: Checks = &[c11, c12, c14, c15, c16, c17, c18, c19, c24, probes];
    let ms: Checks = &[c11, c12, c13, c16, c17, c18, c19, c23, probes];
    let ev: Vec<Vec<Step>> = vec![
        vec![Run(130_000)],
        vec![StResp(0x21), Run(130_000)],
        vec![GwDisc, Run(1000), ind(A, v1())],
        vec![RecvErr, Run(1000), ind(A, v1())],
        vec![sop(Write(A, v1()), ok_write())],
        vec![sop(Read(A), ok_read(v2()))],
        vec![op(Status)],
        vec![op(Disconnect)],
        vec![Feat, ind(B, v2()), con(A, true)],
        vec![Run(61_000), GwDisc, Conn(ConnAns::Refuse(0x24)), Run(30_000)],
    ];
    let mev: Vec<Vec<Step>> = vec![
        vec![Run(130_000)],
        vec![StResp(0x21), Run(130_000)],
        vec![GwDisc, Run(1000), ind(A, v1())],
        vec![RecvErr, Run(1000), ind(A, v1())],
        vec![sop(MWrite(A, v1()), ok_write()), op(IsConn)],
        vec![sop(Solicit(A), ok_read(v2()))],
        vec![op(MDisconnect)],
        vec![NewSub(1), GwDisc, Run(100), DrainSubs],
        vec![Times(101, vec![op(Next)])],
        vec![op(Next), ind(B, v3()), Times(30, vec![op(Next), ind(A, v1())])],
    ];
    {
        let ev = ev.clone();
        b.par("backlog at a client", vec![231, ev.len(), 2], 0, cs, move |p| {
            let bl = if p[2] == 0 { Burst(p[0]) } else { Times(p[0], vec![ind(A, v3())]) };
            cat(cat(vec![Client, bl], ev[p[1]].clone()), probe_client())
        });
    }
    {
        let ev = mev.clone();
        b.par("backlog at a monitor", vec![231, ev.len(), 2], 0, ms, move |p| {
            let bl = if p[2] == 0 { Burst(p[0]) } else { Times(p[0], vec![ind(A, v3())]) };
            cat(cat(vec![Monitor, bl], ev[p[1]].clone()), probe_mon())
        });
    }
    let sizes = vec![0usize, 98, 99, 100, 101, 102, 150];
    {
        let (ev, sizes) = (ev.clone(), sizes.clone());
        b.par("two events after a backlog (client)", vec![sizes.len(), ev.len(), ev.len()], 0, cs, move |p| {
            cat(cat(cat(vec![Client, Burst(sizes[p[0]])], ev[p[1]].clone()), cat(vec![Burst(120)], ev[p[2]].clone())), probe_client())
        });
    }
    {
        let (ev, sizes) = (mev.clone(), sizes.clone());
        b.par("two events after a backlog (monitor)", vec![sizes.len(), ev.len(), ev.len()], 0, ms, move |p| {
            cat(cat(cat(vec![Monitor, Burst(sizes[p[0]])], ev[p[1]].clone()), cat(vec![Burst(120)], ev[p[2]].clone())), probe_mon())
        });
    }
    {
        let (ev, t) = (ev, b.t);
        b.par("backlog with scheduling deviations (client)", vec![3, ev.len()], if t { 2 } else { 1 }, cs, move |p| {
            cat(cat(vec![Client, Burst([99, 100, 101][p[0]])], ev[p[1]].clone()), probe_client())
        });
        b.par("backlog with scheduling deviations (monitor)", vec![3, mev.len() - 2], if t { 2 } else { 1 }, ms, move |p| {
            cat(cat(vec![Monitor, Burst([99, 100, 101][p[0]])], mev[p[1]].clone()), probe_mon())
        });
    }
    b.par("long idle with steady telegrams", vec![6, 2], 0, &[c12, c19, c18], |p| {
        let period = [100, 300, 500, 1000, 3000, 7000][p[0]];
        vec![if p[1] == 0 { Client } else { Monitor }, Flood(vec![frames::ind(1, B, frames::A_RESP, &v1())], period, 300_000), GwDisc, Run(1000), ind(A, v1())]
    });
}

// ------------------------------------------------------------------ C22
fn search_alpha() -> Vec<Step> {
    let r = frames::search_resp;
    let mut other = r(5, 2);
    other[3] = 0x04;
    let mut mistyped = r(6, 2);
    mistyped[15] = 2;
    let mut ver = r(7, 2);
    ver[1] = 0x11;
    vec![
        RawTo(0, r(1, 1)),
        RawTo(0, r(2, 8)),
        RawTo(0, r(2, 8)),
        RawTo(0, r(3, 0)),
        RawTo(0, r(4, 4)[..60].to_vec()),
        RawTo(0, other),
        RawTo(0, mistyped),
        RawTo(0, ver),
        RawTo(0, vec![]),
        RawTo(0, frames::tunnel(7, 0, &frames::ind(1, A, frames::A_WRITE, &v1()))),
        Run(400),
        Run(999),
        ErrTo(0),
    ]
}
fn c22f(b: &mut B) {
    let cs: Checks = &[c22];
    b.focus("answers", vec![op(Search(1000))], search_alpha(), vec![Run(3000)], cs);
    b.focus("answers before and after the search", vec![], {
        let mut a = search_alpha();
        a.truncate(8);
        a.push(op(Search(700)));
        a.push(Run(300));
        a.push(Run(800));
        a.push(Fail(0x0201));
        a.push(CancelNewest);
        a
    }, vec![Run(3000)], cs);
    b.par("arrival at every time", vec![62, 3], 0, cs, |p| {
        let t = p[0] as u64 * 20;
        let ans = match p[1] {
            0 => vec![(t, frames::search_resp(1, 5))],
            1 => vec![(t, frames::search_resp(1, 5)), (t, frames::search_resp(2, 5)), (t / 2, frames::search_resp(3, 1))],
            _ => vec![(t, vec![6, 0x10, 2, 2]), (t, frames::search_resp(2, 5)), (t + 1, frames::search_resp(2, 5))],
        };
        vec![SearchAns(ans), op(Search(1000)), Run(2500)]
    });
    b.par("number of families and of answers", vec![127, 4], 0, cs, |p| {
        let n = [1, 2, 20, 200][p[1]];
        let ans = (0..n).map(|i| ((i % 7) as u64 * 10, frames::search_resp(i as u8, p[0]))).collect();
        vec![SearchAns(ans), op(Search(500)), Run(2500)]
    });
    b.par("truncated answers", vec![frames::search_resp(1, 3).len(), 2], 0, cs, |p| {
        let d = frames::search_resp(1, 3)[..p[0]].to_vec();
        let ans = if p[1] == 0 { vec![(10, d.clone()), (20, frames::search_resp(2, 2))] } else { vec![(10, frames::search_resp(2, 2)), (20, d.clone()), (30, d), (40, frames::search_resp(3, 2))] };
        vec![SearchAns(ans), op(Search(500)), Run(2500)]
    });
    b.par("every octet of an answer", vec![frames::search_resp(1, 3).len(), 256], 0, cs, |p| {
        let mut d = frames::search_resp(1, 3);
        d[p[0]] = p[1] as u8;
        // lengths that only differ from the datagram's are judged by C04
        if [4, 5, 14].contains(&p[0]) || (p[0] == 17 && p[1] > 1) || (p[0] == 68 && (p[1] > 8 || p[1] % 2 == 1)) {
            return vec![];
        }
        vec![SearchAns(vec![(10, d), (20, frames::search_resp(2, 2))]), op(Search(500)), Run(2500)]
    });
    b.par("steady traffic at every period", vec![8, 3, 5], 0, cs, |p| {
        let period = [1, 3, 10, 50, 100, 200, 450, 499][p[0]];
        let ms = [0, 1, 100, 500, 5000][p[2]];
        let d = [frames::search_resp(1, 2), vec![6, 0x10, 2], frames::state_resp(1, 0)][p[1]].clone();
        vec![op(Search(ms)), FloodTo(0, d, period, ms + 2 * period)]
    });
    b.par("every order of magnitude of time", vec![38, 3], 0, cs, |p| {
        let ms = match p[0] {
            0 => 0,
            k => (1 << (k - 1)) * (p[1] as u64 + 3) / 3,
        };
        let far = ms.min(3_600_000_000);
        let ans = vec![(0, frames::search_resp(4, 1)), (far / 2 + 1, frames::search_resp(1, 2)), (ms.min(far * 2).saturating_sub(1), frames::search_resp(2, 2)), (ms.min(far * 2) + 1, frames::search_resp(3, 2))];
        vec![SearchAns(ans), op(Search(ms)), Run(ms.min(far * 2) + 1000)]
    });
    b.par("send or socket failure", vec![3], 1, cs, |p| {
        let mut v = match p[0] {
            0 => vec![Fail(0x0201)],
            1 => vec![NoBind(true)],
            _ => vec![],
        };
        v.push(op(Search(300)));
        if p[0] == 2 {
            v.push(Run(299));
            v.push(ErrTo(0));
        }
        v.push(Run(1000));
        v
    });
    b.par("two searches at once", vec![7, 7], if b.t { 2 } else { 1 }, cs, |p| {
        vec![
            SearchAns(vec![(p[0] as u64 * 50, frames::search_resp(1, 2)), (p[1] as u64 * 50, frames::search_resp(2, 2))]),
            op(Search(200)),
            SearchAns(vec![(p[1] as u64 * 50, frames::search_resp(3, 2))]),
            op(Search(300)),
            Run(1000),
        ]
    });
    b.par("beside a client", vec![5, 2], 1, &[c22, c15, c12], |p| {
        let t = p[0] as u64 * 100;
        vec![
            if p[1] == 0 { Client } else { Monitor },
            SearchAns(vec![(t, frames::search_resp(1, 2))]),
            op(Search(250)),
            if p[1] == 0 { sop(Write(A, v1()), ok_write()) } else { sop(MWrite(A, v1()), ok_write()) },
            ind(A, v2()),
            Run(500),
        ]
    });
}

// ------------------------------------------------------------------ C23
fn c23f(b: &mut B) {
    let cs: Checks = &[c23, c16, probes];
    let tail = cat(probe_mon(), vec![DrainSubs]);
    b.mmix(cat(tail.clone(), vec![GwDisc, Run(1000), DrainSubs, op(IsConn), Run(10)]), &[c23]);
    b.focus(
        "subscribers and connections",
        vec![Monitor],
        vec![
            NewSub(1),
            NewSub(3),
            DropSub(0),
            DropSub(1),
            DrainSubs,
            op(IsConn),
            GwDisc,
            StResp(0x21),
            RecvErr,
            Conn(ConnAns::Refuse(0x24)),
            Run(4000),
            Run(61_000),
            Fail(0x0424),
            op(MDisconnect),
        ],
        cat(tail.clone(), vec![GwDisc, Run(1000), DrainSubs, op(IsConn), Run(10)]),
        cs,
    );
    b.focus(
        "before the first connection",
        vec![Conn(ConnAns::Refuse(0x24)), Conn(ConnAns::Silent), Monitor],
        vec![NewSub(1), NewSub(2), op(IsConn), Run(11_000), Run(31_000), DrainSubs, DropSub(0), sop(MWrite(A, v1()), vec![]), Fail(0x0424), op(Next), ind(A, v1())],
        cat(tail, vec![GwDisc, Run(1000), DrainSubs, op(IsConn), Run(10)]),
        cs,
    );
    b.par("many connections, undrained subscribers", vec![30, 4, 2], 0, cs, |p| {
        let loss = if p[2] == 0 { GwDisc } else { StResp(0x21) };
        vec![Monitor, NewSub(p[1] + 1), NewSub(64), Times(p[0], vec![loss, Run(100), op(IsConn)]), DrainSubs, NewSub(1), GwDisc, Run(100), DrainSubs, op(IsConn), ind(A, v1()), op(Next)]
    });
    b.par("many subscribers", vec![20, 3], 0, cs, |p| {
        let mut v = vec![Monitor];
        for _ in 0..p[0] {
            v.push(NewSub(1));
        }
        for i in 0..p[0] {
            if p[1] == 1 && i % 2 == 0 || p[1] == 2 && i + 1 < p[0] {
                v.push(DropSub(i));
            }
        }
        v.extend([GwDisc, Run(100), GwDisc, Run(100), DrainSubs, GwDisc, Run(100), DrainSubs, op(IsConn)]);
        v
    });
    b.par("every channel", vec![256], 0, cs, |p| vec![Channel(p[0] as u8), Monitor, op(IsConn), GwDisc, Run(100), op(IsConn)]);
}

// ------------------------------------------------------------------ C24
fn c24f(b: &mut B) {
    let cs: Checks = &[c24, c12, probes];
    b.mix(probe_client(), &[c24]);
    b.focus(
        "status queries",
        vec![Client],
        vec![
            op(Status),
            Many(vec![St(StAns::Late(3000, 0)), op(Status)]),
            Many(vec![St(StAns::Status(0x21)), op(Status)]),
            Many(vec![St(StAns::Silent), op(Status)]),
            Many(vec![op(Status), op(Status)]),
            StResp(0),
            StResp(0x26),
            ind(A, v1()),
            sop(Write(A, v1()), ok_write()),
            sop(Read(A), vec![Piece::Wait(2000), Piece::Resp(v1())]),
            Run(4000),
            Run(58_000),
            Fail(0x0207),
            CancelNewest,
            GwDisc,
            DiscResp(0),
        ],
        probe_client(),
        cs,
    );
    b.par("every channel and status", vec![256, 256], 0, cs, |p| {
        vec![Channel(p[0] as u8), Client, Run(10), St(StAns::Status(p[1] as u8)), op(Status), Run(100)]
    });
    b.par("answers for other channels and late ones", vec![256, 211], 0, cs, |p| {
        if p[0] > 3 && p[1] > 2 {
            return vec![];
        }
        vec![Client, Run(10), St(StAns::Late(p[1] as u64 * 50, p[0] as u8)), op(Status), ind(A, v2()), Run(12_000)]
    });
    b.par("heart beat close to a query", vec![41, 3], 1, cs, |p| {
        let st = [StAns::Status(0), StAns::Late(30, 0), StAns::Status(0x21)][p[1]].clone();
        vec![Client, Run(59_980 + p[0] as u64), St(st), op(Status), Run(500), op(Status), Run(100)]
    });
    b.par("traffic in between", vec![100, 2], 0, cs, |p| {
        vec![Client, Run(10), St(StAns::Silent), op(Status), Times(p[0], vec![if p[1] == 0 { ind(A, v1()) } else { con(A, true) }]), StResp(0), Run(100)]
    });
}

// ------------------------------------------------------------------ C25
fn c25f(b: &mut B) {
    let cs: Checks = &[c11, c12, c14, c15, c16, c17, c24, no_orphans, probes];
    let ops = || -> Vec<Step> {
        vec![
            sop(Read(A), ok_read(v2())),
            sop(Read(B), vec![Piece::Ack, Piece::Wait(1500), Piece::Resp(v1())]),
            sop(Write(A, v1()), ok_write()),
            sop(Write(B, v3()), vec![Piece::Ack, Piece::Wait(1500), Piece::ConOk]),
            sop(Write(A, v2()), vec![]),
            op(Status),
            op(Disconnect),
        ]
    };
    b.par("three at once", vec![7, 7, 7], if b.t { 2 } else { 1 }, cs, move |p| {
        let o = ops();
        cat(vec![Client, Many(p.iter().map(|i| o[*i].clone()).collect())], probe_client())
    });
    b.par("four at once", vec![7, 7, 7, 7], 0, cs, move |p| {
        let o = ops();
        cat(vec![Client, Many(p.iter().map(|i| o[*i].clone()).collect())], probe_client())
    });
    b.focus(
        "started and abandoned",
        vec![Client],
        vec![
            sop(Read(A), ok_read(v2())),
            sop(Read(B), vec![Piece::Ack, Piece::Wait(1500), Piece::Resp(v1())]),
            sop(Write(A, v1()), ok_write()),
            sop(Write(B, v3()), vec![Piece::Ack, Piece::Wait(1500), Piece::ConOk]),
            Many(vec![St(StAns::Late(1500, 0)), op(Status)]),
            Many(vec![DiscPieces(vec![Piece::Wait(1500)]), op(Disconnect)]),
            CancelOldest,
            CancelNewest,
            Run(1000),
            Run(4000),
            ind(A, v3()),
            con(B, true),
        ],
        probe_client(),
        cs,
    );
    // abandoned at its k-th suspension, with a suspension at every synchronisation operation
    for y in [true, false] {
        b.par(if y { "abandoned at every await point" } else { "abandoned at every real suspension" }, vec![7, 24, 7, 3], 0, cs, move |p| {
            let o = ops();
            let Step::Op(k, a) = &o[p[0]] else { unreachable!() };
            let c = OpCancel(k.clone(), a.clone(), p[1] as u32 + 1);
            let second = o[p[2]].clone();
            let body = match p[3] {
                0 => vec![c, Run(50), second],
                1 => vec![Many(vec![c, second])],
                _ => vec![Many(vec![second, c])],
            };
            cat(cat(vec![Client, Yielding(y)], body), cat(vec![Yielding(false)], probe_client()))
        });
    }
    let cs2: Checks = &[c11, c12, c13, c16, c17, c23, no_orphans, probes];
    let mops = || -> Vec<Step> {
        vec![
            sop(MWrite(A, v1()), ok_write()),
            sop(Solicit(B), ok_read(v3())),
            op(Next),
            op(IsConn),
            NewSub(2),
            Many(vec![DiscPieces(vec![Piece::Wait(1500)]), op(MDisconnect)]),
            ind(A, v2()),
        ]
    };
    b.par("four at once on a monitor", vec![7, 7, 7, 7], 1, cs2, move |p| {
        let o = mops();
        cat(vec![Monitor, Many(p.iter().map(|i| o[*i].clone()).collect())], probe_mon())
    });
    b.par("monitor call abandoned at every await point", vec![6, 24, 7, 3], 0, cs2, move |p| {
        let o = mops();
        let k = [MWrite(A, v1()), Solicit(B), Next, IsConn, MDisconnect, MWrite(B, v3())][p[0]].clone();
        let c = OpCancel(k, vec![Piece::Ack], p[1] as u32 + 1);
        let second = o[p[2]].clone();
        let body = match p[3] {
            0 => vec![c, ind(B, v1()), second],
            1 => vec![Many(vec![c, ind(B, v1()), second])],
            _ => vec![Many(vec![second, c])],
        };
        cat(cat(vec![Monitor, Yielding(true)], body), cat(vec![Yielding(false)], probe_mon()))
    });
}

// ------------------------------------------------------------------ C26
fn c26f(b: &mut B) {
    let cs: Checks = &[c26];
    let tail = vec![
        Step::Drop,
        ind(A, v1()),
        StResp(0x21),
        Run(1000),
        GwDisc,
        Run(45_000),
        Burst(3),
        Run(130_000),
    ];
    b.mix(tail.clone(), cs);
    b.mmix(tail.clone(), cs);
    for (m, o) in [(false, Client), (true, Monitor)] {
        let al = vec![
            if m { op(Next) } else { sop(Write(A, v1()), vec![]) },
            if m { sop(MWrite(A, v1()), vec![]) } else { op(Status) },
            ind(A, v2()),
            Burst(120),
            GwDisc,
            StResp(0x21),
            RecvErr,
            Conn(ConnAns::Silent),
            Conn(ConnAns::Refuse(0x24)),
            ConnDefault(ConnAns::Silent),
            Run(5000),
            Run(61_000),
            if m { op(MDisconnect) } else { op(Disconnect) },
        ];
        b.focus(if m { "monitor dropped in every state" } else { "client dropped in every state" }, vec![o.clone()], al.clone(), tail.clone(), cs);
        b.focus(
            if m { "monitor dropped before it is connected" } else { "client dropped before it is connected" },
            vec![Conn(ConnAns::Silent), o],
            al,
            tail.clone(),
            cs,
        );
    }
    // dropped while datagrams are waiting and nothing has run yet
    b.par("dropped with datagrams waiting", vec![2, 6, 3], 2, cs, |p| {
        let d = [ind(A, v1()), StResp(0x21), GwDisc, Feat, RecvErr, Burst(5)][p[1]].clone();
        let pre = [Run(10), Run(59_999), Run(60_000)][p[2]].clone();
        vec![if p[0] == 0 { Client } else { Monitor }, pre, Many(vec![d, Step::Drop]), Run(130_000)]
    });
}

// ------------------------------------------------------------------ C27
/// the step, for object `k`
fn on(k: usize, s: Step) -> Step {
    Many(vec![Focus(k), s])
}
fn all_on(k: usize, v: Vec<Step>) -> Vec<Step> {
    v.into_iter().map(|s| on(k, s)).collect()
}
/// everything a client's (monitor's) monitors have to say
fn full(monitor: bool) -> Vec<fn(&View) -> M> {
    if monitor {
        vec![c11, c12, c13, c16, c17, c18, c19, c23, c28, probes]
    } else {
        vec![c11, c12, c14, c15, c16, c17, c18, c19, c24, c28, no_orphans, probes]
    }
}
fn make(monitor: bool) -> Step {
    if monitor {
        Monitor
    } else {
        Client
    }
}
fn probe_both(kinds: &[bool]) -> Vec<Step> {
    let mut v = vec![];
    for k in 0..kinds.len() {
        v.push(on(k, Calm));
    }
    v.push(Run(50_000));
    v.push(Step::Note("probe"));
    for (k, m) in kinds.iter().enumerate() {
        let p = if *m { probe_mon() } else { probe_client() };
        v.extend(all_on(k, p.into_iter().skip(3).collect()));
    }
    v
}
fn beside_alpha(k: usize, m: bool) -> Vec<Step> {
    let v = if m {
        vec![op(Next), sop(MWrite(A, v1()), ok_write()), NewSub(1), ind(A, v2()), StResp(0x21), GwDisc, op(MDisconnect), Step::Drop]
    } else {
        vec![sop(Read(A), vec![Piece::Ack, Piece::Wait(1500), Piece::Resp(v2())]), sop(Write(A, v1()), ok_write()), op(Status), ind(A, v3()), con(A, true), StResp(0x21), GwDisc, op(Disconnect), Step::Drop]
    };
    all_on(k, v)
}
fn c27f(b: &mut B) {
    for (n, kinds) in [("two clients", vec![false, false]), ("client and monitor", vec![false, true]), ("two monitors", vec![true, true])] {
        let pro: Vec<Step> = kinds.iter().enumerate().map(|(k, m)| on(k, make(*m))).collect();
        let mut al = vec![];
        for (k, m) in kinds.iter().enumerate() {
            al.extend(beside_alpha(k, *m));
        }
        al.push(Run(1000));
        al.push(Run(61_000));
        let first = b.out.len();
        // a dropped object is not probed
        b.focus(n, pro, al, vec![Calm, Run(45_000)], &[]);
        for f in &mut b.out[first..] {
            f.by_obj = kinds.iter().map(|m| full(*m)).collect();
        }
        // whole lives side by side, one shifted against the other by every number of steps
        let first = b.out.len();
        let kk = kinds.clone();
        b.par(&format!("{n}, whole lives side by side"), vec![90, 8], 0, &[], move |p| {
            let life = |m: bool, c: u8| if m { mtour(p[1] & 1 == 1, c) } else { tour(p[1] & 1 == 1, c) };
            let (x, y) = (life(kk[0], 7), life(kk[1], if p[1] & 2 == 2 { 7 } else { 99 }));
            let (x, y) = (all_on(0, x), all_on(1, cat(vec![Addr(p[1] >> 2)], y)));
            let shift = p[0] as isize - 45;
            let mut v = vec![];
            for i in 0..140isize {
                if i < x.len() as isize {
                    v.push(x[i as usize].clone());
                }
                if i - shift >= 0 && i - shift < y.len() as isize {
                    v.push(y[(i - shift) as usize].clone());
                }
            }
            if shift < 0 {
                // the second one starts before the first
                let head: Vec<Step> = y[..(-shift) as usize % y.len()].to_vec();
                v = cat(head, v);
            }
            v
        });
        for f in &mut b.out[first..] {
            f.by_obj = kinds.iter().map(|m| full(*m)).collect();
        }
    }
    let first = b.out.len();
    b.par("four objects at once", vec![4, 4, 4, 4], if b.t { 2 } else { 1 }, &[], |p| {
        let mut v: Vec<Step> = (0..4).map(|k| on(k, make(k % 2 == 1))).collect();
        let o: Vec<Step> = (0..4)
            .map(|k| {
                on(
                    k,
                    match (k % 2, p[k]) {
                        (0, 0) => sop(Read(A), ok_read(Val::Big(vec![k as u8, 9]))),
                        (0, 1) => sop(Write(A, v1()), ok_write()),
                        (0, 2) => op(Status),
                        (_, 0) => sop(MWrite(A, v1()), ok_write()),
                        (_, 1) => Many(vec![op(Next), ind(A, v1())]),
                        (_, 2) => sop(Solicit(A), ok_read(v3())),
                        _ => GwDisc,
                    },
                )
            })
            .collect();
        v.push(Many(o));
        cat(v, probe_both(&[false, true, false, true]))
    });
    for f in &mut b.out[first..] {
        f.by_obj = (0..4).map(|k| full(k % 2 == 1)).collect();
    }
}

// ------------------------------------------------------------------ C28
fn c28f(b: &mut B) {
    let cs: Checks = &[c28];
    // every way to name the gateway
    for (m, checks) in [(false, C28C), (true, C28M)] {
        let w: Vec<usize> = USABLE.into_iter().chain(UNUSABLE).filter(|f| !m || *f < 4 || (20..28).contains(f)).collect();
        let n = w.len();
        let w2 = w.clone();
        // in every state of the network, with a silent, refusing, slow or answering gateway
        b.par(&format!("every form of address ({})", if m { "monitor" } else { "client" }), vec![n, 3, 5, 2], if b.t { 2 } else { 1 }, checks, move |p| {
            let ok = w[p[0]] < 20 && p[1] == 0;
            // an address that cannot be connected to may turn out so later only
            let expect = if w[p[0]] < 20 && p[1] == 2 { None } else { Some(ok) };
            let mut v = vec![];
            v.extend(match p[1] {
                0 => None,
                1 => Some(NoBind(true)),
                _ => Some(NoConnect(true)),
            });
            v.extend(match p[2] {
                0 => None,
                1 => Some(ConnDefault(ConnAns::Silent)),
                2 => Some(ConnDefault(ConnAns::Refuse(0x24))),
                3 => Some(Conn(ConnAns::RecvErr)),
                _ => Some(Fail(0x0205)),
            });
            v.push(op(Open(m, w[p[0]], expect)));
            v.push(Run([3000, 65_000][p[3]]));
            if ok {
                v.extend(if m { probe_mon() } else { probe_client() });
            } else {
                v.push(Run(200_000));
            }
            v
        });
        // an attempt that fails, then one that succeeds, and the other way round
        let w = w2.clone();
        b.par(&format!("one attempt after another ({})", if m { "monitor" } else { "client" }), vec![n, n, 3], 0, cs, move |p| {
            let o = |f: usize| op(Open(m, f, Some(f < 20)));
            let mut v = vec![o(w[p[0]]), Run(100)];
            if w[p[0]] < 20 {
                v.push(Step::Drop);
                v.push(Run(100));
            }
            v.push([Run(1), Run(10_000), Run(61_000)][p[2]].clone());
            v.push(o(w[p[1]]));
            v.push(Run(100_000));
            v
        });
        // abandoned
        let w = w2;
        b.par(&format!("connecting given up ({})", if m { "monitor" } else { "client" }), vec![n, 4], 1, cs, move |p| {
            vec![Yielding(true), OpCancel(Open(m, w[p[0]], Some(w[p[0]] < 20)), vec![], 1 + p[1] as u32), Run(100), Yielding(false), Run(200)]
        });
    }
    // datagrams from elsewhere, in every state
    for m in [false, true] {
        let checks = if m { C28M } else { C28C };
        let life = |m: bool| if m { mtour(false, 7) } else { tour(false, 7) };
        let n = life(m).len();
        b.par(if m { "monitor: datagrams from elsewhere at every point" } else { "client: datagrams from elsewhere at every point" }, vec![n, 11], if b.t { 1 } else { 0 }, checks, move |p| {
            let mut v = life(m);
            v.insert(p[0], Fake(p[1] as u8));
            v
        });
        b.par(if m { "monitor: two datagrams from elsewhere" } else { "client: two datagrams from elsewhere" }, vec![n, 11, 11], 0, checks, move |p| {
            let mut v = life(m);
            v.insert(p[0], Many(vec![Fake(p[1] as u8), Fake(p[2] as u8)]));
            v
        });
        b.par(if m { "monitor: datagrams from elsewhere while connecting" } else { "client: datagrams from elsewhere while connecting" }, vec![11, 11, 4, 3], if b.t { 2 } else { 1 }, checks, move |p| {
            let a = [ConnAns::Silent, ConnAns::Refuse(0x24), ConnAns::Accept][p[3]].clone();
            let t = [1, 9_000, 29_000, 35_000][p[2]];
            let mut v = vec![Conn(a), make(m), Fake(p[0] as u8), Run(t), Fake(p[1] as u8), Run(50_000)];
            v.extend(if m { probe_mon() } else { probe_client() });
            v
        });
    }
    b.mix(probe_client(), C28C);
    b.mmix(probe_mon(), C28M);
}
const C28C: Checks = &[c28, c11, c12, c14, c15, c16, c17, c18, c19, c24, no_orphans, probes];
const C28M: Checks = &[c28, c11, c12, c13, c16, c17, c18, c19, c23, probes];
fn c26_beside(b: &mut B) {
    for (n, kinds) in [("two clients", [false, false]), ("client beside a monitor", [false, true]), ("monitor beside a client", [true, false]), ("two monitors", [true, true])] {
        let first = b.out.len();
        b.par(&format!("first one dropped at every point, {n}"), vec![50, 50], 0, &[], move |p| {
            let life = |m: bool| if m { mtour(false, 7) } else { tour(false, 7) };
            let mut v: Vec<Step> = vec![];
            let (x, y) = (all_on(0, life(kinds[0])), all_on(1, life(kinds[1])));
            if p[0] >= x.len() || p[1] >= y.len() || p[0] < 2 {
                return vec![];
            }
            v.extend(x[..p[0]].iter().cloned());
            v.extend(y[..p[1]].iter().cloned());
            v.push(on(0, Step::Drop));
            v.extend(y[p[1]..].iter().cloned());
            v
        });
        for f in &mut b.out[first..] {
            let mut second = full(kinds[1]);
            second.push(c26);
            f.by_obj = vec![vec![c26], second];
        }
    }
}

/// properties decided mainly by enumerating the inputs of pure functions
pub fn is_codec(id: &str) -> bool {
    id <= "C10"
}
