//! Trace monitors: each decides one property on one finished execution.
use crate::frames::{self, parse_cemi, parse_req, Cemi, Frame, Hpai, Tele};
use crate::sim::{Ev, IndView, OpKind, Rec, Res, Trace};

pub const TOL: u64 = 5_000; // timer granularity, microseconds
pub const S: u64 = 1_000_000;
pub type M = Result<(), String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Phase {
    Init,
    Connecting { t: u64, dirty: bool },
    Waiting { t: u64 },
    Up { ch: u8, ep: Hpai, n: u32, t: u64 },
    Lost { t: u64 },
    Shut,
    Gone,
}
impl Phase {
    pub fn up(&self) -> bool {
        matches!(self, Phase::Up { .. })
    }
}

pub struct View<'a> {
    pub tr: &'a [Rec],
    /// phase after record i
    pub ph: Vec<Phase>,
    /// a send failed since the connection was established: giving it up is allowed, not required
    pub shaky: Vec<bool>,
}

impl<'a> View<'a> {
    pub fn new(tr: &'a Trace) -> Self {
        let mut ph = Vec::with_capacity(tr.len());
        let mut sh = Vec::with_capacity(tr.len());
        let mut p = Phase::Init;
        let mut shaky = false;
        let mut n = 0;
        for r in tr.iter() {
            match &r.ev {
                Ev::Sent { s: 0, f: Frame::ConnReq { .. }, .. } => {
                    p = Phase::Connecting { t: r.t, dirty: false };
                    shaky = false;
                }
                Ev::SendFail { s: 0, f, .. } => {
                    shaky = true;
                    if let Frame::ConnReq { .. } = f {
                        p = Phase::Waiting { t: r.t };
                    }
                }
                Ev::Recvd { s: 0, f, d, .. } => match (&p, f) {
                    (Phase::Connecting { .. }, Frame::ConnResp { ch, ep, st: 0, .. }) => {
                        n += 1;
                        p = Phase::Up { ch: *ch, ep: *ep, n, t: r.t };
                    }
                    (Phase::Connecting { .. }, Frame::ConnErr { .. }) => p = Phase::Waiting { t: r.t },
                    // a connect response that cannot be used ends the attempt, anything else does not
                    (Phase::Connecting { t, .. }, _) if d.get(2..4) == Some(&[2, 6]) => p = Phase::Connecting { t: *t, dirty: true },
                    (Phase::Up { .. }, Frame::StateResp { st, .. }) if *st != 0 => p = Phase::Lost { t: r.t },
                    (Phase::Up { .. }, Frame::DiscReq { .. }) => p = Phase::Lost { t: r.t },
                    (Phase::Up { .. }, Frame::DiscResp { .. }) => p = Phase::Shut,
                    _ => (),
                },
                Ev::RecvErr { s: 0 } => match &p {
                    Phase::Up { .. } => p = Phase::Lost { t: r.t },
                    Phase::Connecting { t, .. } => p = Phase::Connecting { t: *t, dirty: true },
                    _ => (),
                },
                Ev::Dropped => p = Phase::Gone,
                _ => (),
            }
            ph.push(p.clone());
            sh.push(shaky);
        }
        View { tr, ph, shaky: sh }
    }
    pub fn before(&self, i: usize) -> &Phase {
        if i == 0 {
            &Phase::Init
        } else {
            &self.ph[i - 1]
        }
    }
    pub fn at(&self, i: usize) -> String {
        let r = &self.tr[i];
        format!("record {} t={:.3}s {}", i, r.t as f64 / 1e6, show(&r.ev))
    }
    /// index of the last Quiet/Settled strictly before i
    pub fn quiet_before(&self, i: usize) -> usize {
        (0..i).rev().find(|j| matches!(self.tr[*j].ev, Ev::Quiet | Ev::Settled)).unwrap_or(0)
    }
    pub fn end_of(&self, op: usize) -> Option<usize> {
        self.tr.iter().position(|r| matches!(&r.ev, Ev::End(o, _) | Ev::Cancel(o) if *o == op))
    }
    /// the operation failed without ever sending although the connection was live and undisturbed throughout, and it
    /// neither waited 10 s for its turn nor overlapped a disconnect
    pub fn should_have_sent(&self, o: &Op) -> bool {
        let Some(e) = o.end else { return false };
        if o.cancelled || !o.failed.is_empty() || !o.sent.is_empty() {
            return false;
        }
        let q = self.quiet_before(o.start);
        q > 0
            && (q..=e).all(|i| self.ph[i].up() && !self.shaky[i])
            && self.ops().iter().all(|p| {
                p.id == o.id
                    || p.kind == OpKind::Next
                    || p.end.map_or(false, |x| x < o.start)
                    || p.start > e
                    || (!matches!(p.kind, OpKind::Disconnect | OpKind::MDisconnect) && self.tr[e].t + TOL < self.tr[o.start].t + 10 * S)
            })
    }
    /// the acknowledgement due for the telegram received in record i could not be sent: the gateway has to take
    /// it as not accepted, so whether the application gets to see it is open
    pub fn unacked(&self, i: usize) -> bool {
        self.tr[i + 1..]
            .iter()
            .take_while(|r| !matches!(r.ev, Ev::Recvd { s: 0, .. } | Ev::RecvErr { s: 0 }))
            .any(|r| matches!(&r.ev, Ev::SendFail { s: 0, f: Frame::Ack { .. }, .. }))
    }
    /// connection-state requests that are due as heart beats (not sent from within an operation)
    fn beats(&self) -> Vec<usize> {
        let mut v = vec![];
        let mut last: Option<(u64, u32)> = None;
        for (i, r) in self.tr.iter().enumerate() {
            let (Ev::Sent { s: 0, f: Frame::StateReq { .. }, op: None, .. } | Ev::SendFail { s: 0, f: Frame::StateReq { .. }, op: None, .. }) = &r.ev else { continue };
            let Phase::Up { n, t, .. } = self.before(i) else { continue };
            let due = match last {
                None => true,
                Some((l, m)) => r.t + TOL >= l + 60 * S || (m != *n && r.t <= t + TOL),
            };
            if due {
                last = Some((r.t, *n));
                v.push(i);
            }
        }
        v
    }
    /// a connection existed at the last point of rest before record i
    pub fn was_up(&self, i: usize) -> bool {
        self.ph[self.quiet_before(i)].up()
    }
    pub fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for (i, r) in self.tr.iter().enumerate() {
            if let Ev::Start(o, k) = &r.ev {
                let end = self.end_of(*o);
                let res = end.and_then(|j| match &self.tr[j].ev {
                    Ev::End(_, r) => Some(r.clone()),
                    _ => None,
                });
                v.push(Op {
                    id: *o,
                    kind: k.clone(),
                    start: i,
                    end,
                    cancelled: end.is_some() && res.is_none(),
                    res,
                    sent: vec![],
                    failed: vec![],
                });
            }
        }
        // attribute requests to operations: by the polled operation when known, else by content
        let beats = self.beats();
        for pass in 0..2 {
            for (i, r) in self.tr.iter().enumerate() {
                let (f, op, ok) = match &r.ev {
                    Ev::Sent { f, op, .. } => (f, op, true),
                    Ev::SendFail { f, op, .. } => (f, op, false),
                    _ => continue,
                };
                if v.iter().any(|o| o.sent.contains(&i) || o.failed.contains(&i)) || beats.contains(&i) {
                    continue;
                }
                for o in v.iter_mut() {
                    if !o.wants(f) || i < o.start || o.end.map_or(false, |e| i > e) {
                        continue;
                    }
                    let hit = match op {
                        Some(x) => pass == 0 && *x == o.id,
                        None => pass == 1 && o.sent.is_empty(),
                    };
                    if hit {
                        if ok {
                            o.sent.push(i)
                        } else {
                            o.failed.push(i)
                        }
                        break;
                    }
                }
            }
        }
        v
    }
}
#[derive(Debug, Clone)]
pub struct Op {
    pub id: usize,
    pub kind: OpKind,
    pub start: usize,
    pub end: Option<usize>,
    pub cancelled: bool,
    pub res: Option<Res>,
    pub sent: Vec<usize>,
    pub failed: Vec<usize>,
}
impl Op {
    fn wants(&self, f: &Frame) -> bool {
        match (&self.kind, f) {
            (OpKind::Read(a) | OpKind::Solicit(a), Frame::Tunnel { cemi, .. }) => {
                parse_req(cemi).map_or(false, |q| q.dst == *a && q.apci == frames::A_READ)
            }
            (OpKind::Write(a, v) | OpKind::MWrite(a, v), Frame::Tunnel { cemi, .. }) => {
                parse_req(cemi).map_or(false, |q| q.dst == *a && q.apci == frames::A_WRITE && q.val == *v)
            }
            (OpKind::Status, Frame::StateReq { .. }) => true,
            (OpKind::Disconnect | OpKind::MDisconnect, Frame::DiscReq { .. }) => true,
            _ => false,
        }
    }
    pub fn requester(&self) -> bool {
        matches!(self.kind, OpKind::Read(_) | OpKind::Write(..) | OpKind::Solicit(_) | OpKind::MWrite(..))
    }
}

pub fn show(ev: &Ev) -> String {
    match ev {
        Ev::Sent { f: Frame::Other, d, .. } => format!("Sent raw {:02x?}", d),
        Ev::Sent { f, .. } => format!("Sent {:02x?}", f),
        Ev::SendFail { f, .. } => format!("SendFail {:02x?}", f),
        Ev::Recvd { f: Frame::Other, d, .. } => format!("Recvd raw {:02x?}", d),
        Ev::Recvd { f, .. } => format!("Recvd {:02x?}", f),
        x => format!("{:02x?}", x),
    }
}

macro_rules! bad { ($($a:tt)*) => { return Err(format!($($a)*)) } }

// ------------------------------------------------------------------ C11
pub fn c11(v: &View) -> M {
    let mut next: Option<(u32, u8)> = None;
    for (i, r) in v.tr.iter().enumerate() {
        let Ev::Sent { s: 0, f, d, .. } = &r.ev else { continue };
        if *f == Frame::Other {
            bad!("a malformed datagram was sent: {:02x?}", d);
        }
        let (ch, seq) = match f {
            Frame::Tunnel { ch, seq, .. } | Frame::FeatSet { ch, seq, .. } => (*ch, *seq),
            _ => continue,
        };
        match v.before(i) {
            Phase::Up { ch: c, n, .. } => {
                if ch != *c {
                    bad!("request on channel {ch}, live channel is {c}: {}", v.at(i));
                }
                let exp = match next {
                    Some((m, s)) if m == *n => s,
                    _ => 0,
                };
                if seq != exp {
                    bad!("request with sequence {seq}, expected {exp}: {}", v.at(i));
                }
                next = Some((*n, exp.wrapping_add(1)));
            }
            Phase::Lost { .. } => {
                // the loss has been received but the new connection is not requested yet
                let Some(Phase::Up { ch: c, n, .. }) = v.ph[..i].iter().rev().find(|p| p.up()) else { continue };
                let exp = match next {
                    Some((m, s)) if m == *n => s,
                    _ => 0,
                };
                if ch != *c {
                    bad!("request on channel {ch}, live channel was {c}: {}", v.at(i));
                }
                if seq != exp {
                    bad!("request with sequence {seq}, expected {exp}: {}", v.at(i));
                }
                next = Some((*n, exp.wrapping_add(1)));
            }
            Phase::Shut if v.was_up(i) => (), // already under way when the gateway's answer arrived
            p => bad!("request sent without a connection ({p:?}): {}", v.at(i)),
        }
    }
    for o in v.ops() {
        if o.requester() && o.sent.is_empty() && o.res.as_ref().map_or(false, |r| r.ok()) {
            bad!("operation {:?} reported success without sending a request", o.kind);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
pub fn c12(v: &View) -> M {
    let mut due: Vec<(u8, u8, usize)> = vec![];
    let mut optional: Vec<(u8, u8)> = vec![];
    for (i, r) in v.tr.iter().enumerate() {
        match &r.ev {
            Ev::Recvd { s: 0, f, .. } => {
                let (ch, seq) = match f {
                    Frame::Tunnel { ch, seq, .. } | Frame::FeatResp { ch, seq } => (*ch, *seq),
                    _ => continue,
                };
                if v.before(i).up() {
                    due.push((ch, seq, i));
                } else {
                    optional.push((ch, seq));
                }
            }
            Ev::Sent { s: 0, f: Frame::Ack { ch, seq, st }, .. } => {
                if *st != 0 {
                    bad!("acknowledgement with status {st}: {}", v.at(i));
                }
                if due.first().map_or(false, |d| (d.0, d.1) == (*ch, *seq)) {
                    due.remove(0);
                } else if let Some(k) = optional.iter().position(|d| *d == (*ch, *seq)) {
                    optional.remove(k);
                } else {
                    bad!("unexpected acknowledgement (due: {:?}): {}", due, v.at(i));
                }
            }
            Ev::SendFail { s: 0, f: Frame::Ack { ch, seq, .. }, .. } => {
                due.retain(|d| (d.0, d.1) != (*ch, *seq));
            }
            Ev::Dropped => {
                optional.extend(due.iter().map(|d| (d.0, d.1)));
                due.clear();
            }
            Ev::Quiet | Ev::Settled => {
                if let Some(d) = due.first() {
                    bad!("telegram not acknowledged: {}", v.at(d.2));
                }
            }
            _ => (),
        }
    }
    Ok(())
}

pub fn ind_matches(i: &IndView, t: &Tele, cemi: &[u8]) -> bool {
    let al = cemi[1] as usize;
    i.code == t.code
        && i.src == t.src
        && i.dst == t.dst
        && i.value == t.value
        && i.service == cemi[2 + al..]
        && i.flags == [t.c1 & 0x80 != 0, t.c1 & 0x20 != 0, t.c1 & 0x10 != 0, t.c1 & 2 != 0]
}

// ------------------------------------------------------------------ C13 (and the queue part of C21)
pub fn c13(v: &View) -> M {
    // telegrams accepted while connected, in arrival order; `kept`: must be delivered
    struct T {
        cemi: Vec<u8>,
        t: Tele,
        kept: bool,
        at: usize,
    }
    let mut exp: std::collections::VecDeque<T> = Default::default();
    // (retained part of the reader's queue; counts everything that takes a slot)
    let mut unread: Vec<bool> = vec![]; // true: indication
    let ops = v.ops();
    let mut waiting = 0usize; // readers waiting
    let mut shut_at: Option<u64> = None;
    for (i, r) in v.tr.iter().enumerate() {
        match &r.ev {
            Ev::Recvd { s: 0, f: Frame::Tunnel { cemi, .. }, .. } if v.before(i).up() => {
                // (also with readers waiting: they may not run before the whole burst is received)
                let full = unread.len() >= 100;
                match parse_cemi(cemi) {
                    Cemi::Ind(t) => {
                        exp.push_back(T {
                            cemi: cemi.clone(),
                            t,
                            kept: !full && !v.unacked(i),
                            at: i,
                        });
                        unread.push(true);
                    }
                    Cemi::Con { .. } | Cemi::Unknown | Cemi::BadData => unread.push(false),
                    Cemi::Bad => (),
                }
            }
            Ev::Start(_, OpKind::Next) => waiting += 1,
            Ev::Cancel(o) if ops.iter().any(|p| p.id == *o && p.kind == OpKind::Next) => waiting -= 1,
            Ev::End(o, res) if ops.iter().any(|p| p.id == *o && p.kind == OpKind::Next) => {
                waiting -= 1;
                match res {
                    Res::Ind(iv) => {
                        // first not-yet-delivered telegram; concurrent readers may finish in either order
                        let conc = ops.iter().filter(|p| p.kind == OpKind::Next && p.start < i && p.end.map_or(true, |e| e > i)).count();
                        let mut hit = None;
                        let mut skipped = 0;
                        for (k, t) in exp.iter().enumerate() {
                            if ind_matches(iv, &t.t, &t.cemi) {
                                hit = Some(k);
                                break;
                            }
                            if t.kept {
                                skipped += 1;
                                if skipped > conc {
                                    break;
                                }
                            }
                        }
                        match hit {
                            Some(k) => {
                                // dropped ones in front can no longer come
                                let mut k2 = 0;
                                let mut idx = 0;
                                while idx < k {
                                    if !exp[k2].kept {
                                        exp.remove(k2);
                                    } else {
                                        k2 += 1;
                                    }
                                    idx += 1;
                                }
                                exp.remove(k2);
                            }
                            None => bad!(
                                "next_msg returned {:02x?}, next undelivered telegram is {:02x?}",
                                iv,
                                exp.front().map(|t| &t.t)
                            ),
                        }
                        while let Some(b) = unread.first().copied() {
                            unread.remove(0);
                            if b {
                                break;
                            }
                        }
                    }
                    Res::Err(e) => {
                        if !matches!(v.before(i), Phase::Shut | Phase::Gone) {
                            bad!("next_msg failed on a live monitor: {e}");
                        }
                    }
                    x => bad!("next_msg returned {x:?}"),
                }
            }
            Ev::Settled => {
                if waiting > 0 {
                    if let Some(t) = exp.iter().find(|t| t.kept) {
                        bad!("reader waits although a telegram is available: {}", v.at(t.at));
                    }
                }
                if *v.before(i) == Phase::Shut {
                    let t = *shut_at.get_or_insert(r.t);
                    if waiting > 0 && r.t > t + TOL {
                        bad!("reader still blocked after the monitor was shut down");
                    }
                }
            }
            _ => (),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
pub fn c14(v: &View) -> M {
    for o in v.ops() {
        let OpKind::Read(a) = o.kind else { continue };
        if o.sent.len() > 1 {
            bad!("read sent {} requests", o.sent.len());
        }
        let Some(&s) = o.sent.first() else {
            if o.res.as_ref().map_or(false, |r| r.ok()) {
                bad!("read succeeded without sending a request");
            }
            if v.should_have_sent(&o) {
                bad!("read on a live connection sent no request: {:?}", o.res);
            }
            continue;
        };
        let limit = v.tr[s].t + 10 * S;
        let q = v.quiet_before(s);
        let end = o.end.unwrap_or(v.tr.len());
        let mut maybe: Vec<Vec<u8>> = vec![];
        let mut first: Option<(usize, Vec<u8>)> = None;
        let mut broken = false;
        for i in q..end {
            match &v.tr[i].ev {
                Ev::Recvd { s: 0, f: Frame::Tunnel { cemi, .. }, .. } => {
                    if let Cemi::Ind(t) = parse_cemi(cemi) {
                        if t.code == frames::IND && t.dst == a && (t.apci == frames::A_RESP || t.apci == frames::A_WRITE) {
                            if !v.before(i).up() || (broken && first.is_none()) || v.unacked(i) {
                                maybe.push(t.value);
                                continue;
                            }
                            if i < s {
                                maybe.push(t.value);
                            } else if first.is_none() {
                                first = Some((i, t.value));
                            }
                        }
                    }
                }
                _ => {
                    if i > s && !v.ph[i].up() {
                        broken = true;
                    }
                }
            }
        }
        match &o.res {
            Some(Res::Bytes(b)) => {
                let ok = maybe.contains(b) || first.as_ref().map_or(false, |f| f.1 == *b);
                if !ok {
                    bad!(
                        "read of {a:#06x} returned {b:02x?}; telegrams received for it since the request: {:02x?}",
                        first
                    );
                }
            }
            Some(Res::Err(e)) => {
                if let Some((i, val)) = &first {
                    if v.tr[*i].t + TOL < limit {
                        bad!("read of {a:#06x} failed ({e}) although {val:02x?} arrived in time: {}", v.at(*i));
                    }
                } else if (q..end).all(|i| v.ph[i].up()) && !v.shaky[end] && v.tr[end].t + TOL < limit {
                    bad!("read of {a:#06x} failed early ({e}), sent: {}", v.at(s));
                }
            }
            Some(x) => bad!("read returned {x:?}"),
            None => {
                if !o.cancelled {
                    if let Some((i, _)) = &first {
                        if let Some(j) = (*i..v.tr.len()).find(|j| matches!(v.tr[*j].ev, Ev::Settled)) {
                            if v.tr[j].t + TOL < limit {
                                bad!("read of {a:#06x} still pending although its value arrived: {}", v.at(*i));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
pub fn c15(v: &View) -> M {
    for o in v.ops() {
        let OpKind::Write(a, _) = &o.kind else { continue };
        let a = *a;
        if o.sent.len() + o.failed.len() > 1 {
            bad!("write sent {} requests", o.sent.len());
        }
        let Some(&s) = o.sent.first() else {
            if o.res.as_ref().map_or(false, |r| r.ok()) {
                bad!("write succeeded without sending a request");
            }
            if v.should_have_sent(&o) {
                bad!("write on a live connection sent no request: {:?}", o.res);
            }
            continue;
        };
        let limit = v.tr[s].t + 10 * S;
        let q = v.quiet_before(s);
        let end = o.end.unwrap_or(v.tr.len());
        let mut maybe = vec![];
        let mut first: Option<(usize, bool)> = None;
        let mut broken = false;
        for i in q..end {
            match &v.tr[i].ev {
                Ev::Recvd { s: 0, f: Frame::Tunnel { cemi, .. }, .. } => {
                    if let Cemi::Con { dst, ok } = parse_cemi(cemi) {
                        if dst == a {
                            if !v.before(i).up() || i < s || (broken && first.is_none()) || v.unacked(i) {
                                maybe.push(ok);
                            } else if first.is_none() {
                                first = Some((i, ok));
                            }
                        }
                    }
                }
                _ => {
                    if i > s && !v.ph[i].up() {
                        broken = true;
                    }
                }
            }
        }
        match &o.res {
            Some(Res::Unit) => {
                let ok = maybe.contains(&true) || first.map_or(false, |f| f.1);
                if !ok {
                    bad!("write to {a:#06x} succeeded without a positive confirmation (first: {first:?})");
                }
            }
            Some(Res::Err(e)) => match first {
                Some((i, true)) if v.tr[i].t + TOL < limit && !maybe.contains(&false) => {
                    bad!("write to {a:#06x} failed ({e}) although it was confirmed: {}", v.at(i))
                }
                Some((_, false)) => (),
                _ => {
                    // no decision arrived: it may only fail by time-out, by loss or by shutdown
                    let t = v.tr[end].t;
                    if first.is_none() && maybe.is_empty() && (q..end).all(|i| v.ph[i].up()) && !v.shaky[end] && t + TOL < limit {
                        bad!("write to {a:#06x} failed early ({e}) at t={t}us, sent at {}", v.tr[s].t);
                    }
                }
            },
            Some(x) => bad!("write returned {x:?}"),
            None => {
                if !o.cancelled {
                    if let Some((i, _)) = first {
                        if let Some(j) = (i..v.tr.len()).find(|j| matches!(v.tr[*j].ev, Ev::Settled)) {
                            if v.tr[j].t + TOL < limit {
                                bad!("write to {a:#06x} still pending although it was confirmed: {}", v.at(i));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C16
/// nothing stops the thread the runtime runs on
pub fn unblocked(v: &View) -> M {
    match v.tr.iter().position(|r| matches!(r.ev, Ev::Blocked(_))) {
        Some(i) => bad!("the thread and with it every other task was blocked: {}", v.at(i)),
        None => Ok(()),
    }
}
pub fn c16(v: &View) -> M {
    unblocked(v)?;
    let ops = v.ops();
    let timed = |o: usize| {
        ops.iter().any(|p| {
            p.id == o && matches!(p.kind, OpKind::Read(_) | OpKind::Write(..) | OpKind::Status | OpKind::Disconnect | OpKind::MDisconnect)
        })
    };
    let mut pend: Vec<usize> = vec![];
    let mut last = 0;
    for r in v.tr.iter() {
        if !pend.is_empty() && r.t > last + 10 * S + TOL {
            bad!(
                "operation(s) {:?} without progress for {:.3}s (limit 10s)",
                pend.iter().map(|o| &ops[*o].kind).collect::<Vec<_>>(),
                (r.t - last) as f64 / 1e6
            );
        }
        match &r.ev {
            Ev::Start(o, _) if timed(*o) => {
                if pend.is_empty() {
                    last = r.t;
                }
                pend.push(*o);
            }
            Ev::End(o, _) | Ev::Cancel(o) if timed(*o) => {
                pend.retain(|x| x != o);
                last = r.t;
            }
            _ => (),
        }
    }
    for o in ops.iter().filter(|o| timed(o.id) && !o.cancelled) {
        // its turn came at the latest when it sent its request
        if let Some(s) = o.sent.first() {
            if v.tr[o.end.unwrap_or(v.tr.len() - 1)].t > v.tr[*s].t + 10 * S + TOL {
                bad!("{:?} took more than 10s from its request: {}", o.kind, v.at(*s));
            }
        } else if v.should_have_sent(o) && !matches!(&o.kind, OpKind::Write(_, frames::Val::Big(x)) if x.len() > 250) {
            bad!("{:?} was refused on a live connection: {:?}", o.kind, o.res);
        }
    }
    in_turn(v)?;
    for o in &ops {
        if !matches!(o.kind, OpKind::IsConn | OpKind::AddSub(_) | OpKind::Solicit(_) | OpKind::MWrite(..)) || o.cancelled {
            continue;
        }
        let t0 = v.tr[o.start].t;
        let t1 = match o.end {
            Some(e) => v.tr[e].t,
            None => v.tr.last().unwrap().t,
        };
        // first quiescent point after the start: it must be over
        let settled = (o.start..v.tr.len()).find(|j| matches!(v.tr[*j].ev, Ev::Settled));
        let late = match (o.end, settled) {
            (Some(e), Some(j)) => e > j,
            (None, Some(_)) => true,
            _ => false,
        };
        if t1 > t0 + TOL || late {
            bad!("{:?} did not return at once (waited for the gateway or another call)", o.kind);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn c17(v: &View) -> M {
    for o in v.ops() {
        if !matches!(o.kind, OpKind::Disconnect | OpKind::MDisconnect) {
            continue;
        }
        if o.sent.len() + o.failed.len() > 1 {
            bad!("disconnect sent {} requests", o.sent.len());
        }
        let ok = o.res.as_ref().map_or(false, |r| r.ok());
        if let Some(&s) = o.sent.first() {
            match (&v.tr[s].ev, v.before(s)) {
                (Ev::Sent { f: Frame::DiscReq { ch, ep }, .. }, Phase::Up { ch: c, ep: e, .. }) => {
                    if ch != c || ep != e {
                        bad!("disconnect request for channel {ch} {ep:02x?}, live are {c} {e:02x?}");
                    }
                }
                (_, Phase::Lost { .. }) => (),
                (_, Phase::Shut) if v.was_up(s) => (),
                (_, p) => bad!("disconnect request sent without a connection ({p:?})"),
            }
            // the answer
            let end = o.end.unwrap_or(v.tr.len());
            let resp = (s..end).find(|i| matches!(&v.tr[*i].ev, Ev::Recvd { f: Frame::DiscResp { .. }, .. }));
            match resp {
                Some(i) => {
                    let Ev::Recvd { f: Frame::DiscResp { st, .. }, .. } = &v.tr[i].ev else { unreachable!() };
                    if *st == 0 && !ok && !o.cancelled && v.before(i).up() && v.tr[i].t + TOL < v.tr[s].t + 10 * S {
                        if o.end.is_some() {
                            bad!("disconnect answered with success but failed: {:?}", o.res);
                        }
                        if let Some(j) = (i..v.tr.len()).find(|j| matches!(v.tr[*j].ev, Ev::Settled)) {
                            bad!("disconnect answered but still pending at {}", v.at(j));
                        }
                    }
                    if let Some(Res::U8(x)) = &o.res {
                        if x != st {
                            bad!("disconnect returned status {x}, the gateway answered {st}");
                        }
                    }
                }
                None => {
                    let q = v.quiet_before(s);
                    if ok && !v.tr[q..s].iter().any(|r| matches!(&r.ev, Ev::Recvd { f: Frame::DiscResp { .. }, .. })) {
                        bad!("disconnect succeeded without an answer from the gateway");
                    }
                    if let (Some(e), Some(Res::Err(m))) = (o.end, &o.res) {
                        if (s..=e).all(|i| v.ph[i].up() && !v.shaky[i]) && v.tr[e].t + TOL < v.tr[s].t + 10 * S {
                            bad!("disconnect failed early ({m}), sent: {}", v.at(s));
                        }
                    }
                }
            }
        } else if ok {
            bad!("disconnect succeeded without sending a request");
        } else if v.should_have_sent(&o) {
            bad!("disconnect on a live connection sent no request: {:?}", o.res);
        }
        // after success: silence, prompt failures
        let status0 = !matches!(o.res, Some(Res::U8(x)) if x != 0);
        if ok && status0 {
            let e = o.end.unwrap();
            for i in e..v.tr.len() {
                if let Ev::Sent { s: 0, .. } = &v.tr[i].ev {
                    // anything already runnable before the answer was processed may still go out
                    if (e..i).any(|j| matches!(v.tr[j].ev, Ev::Quiet)) || matches!(&v.tr[i].ev, Ev::Sent { f: Frame::ConnReq { .. } | Frame::StateReq { .. }, .. }) {
                        bad!("datagram sent after a successful disconnect: {}", v.at(i));
                    }
                }
            }
            for p in v.ops() {
                if p.start < e {
                    continue;
                }
                if let Some(s) = p.sent.first() {
                    bad!("call made after a successful disconnect sent {}", v.at(*s));
                }
                if p.cancelled {
                    continue;
                }
                let settled = (p.start..v.tr.len()).find(|j| matches!(v.tr[*j].ev, Ev::Settled));
                match (&p.kind, &p.res) {
                    (OpKind::IsConn, Some(Res::Bool(b))) => {
                        if *b {
                            bad!("monitor reports itself connected after a successful disconnect");
                        }
                    }
                    (OpKind::AddSub(_), _) | (OpKind::Search(_), _) | (OpKind::Open(..), _) => (),
                    (OpKind::Next, Some(Res::Ind(_))) => (), // telegrams received before
                    (k, Some(r)) if r.ok() => bad!("{k:?} succeeded after a successful disconnect"),
                    (k, Some(_)) => {
                        if v.tr[p.end.unwrap()].t > v.tr[p.start].t + TOL {
                            bad!("{k:?} after a successful disconnect did not fail promptly");
                        }
                    }
                    (k, None) => {
                        if settled.is_some() {
                            bad!("{k:?} after a successful disconnect does not return");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
pub fn c18(v: &View) -> M {
    let mut expect: Option<(u64, u64)> = None; // window for the next connect request
    let mut answer: Option<(u8, usize)> = None;
    let mut may: Vec<u8> = vec![]; // requests that may be answered
    for (i, r) in v.tr.iter().enumerate() {
        if let Some((_, hi)) = expect {
            if r.t > hi + TOL {
                bad!("no connect request by t={:.3}s: {}", hi as f64 / 1e6, v.at(i));
            }
        }
        match &r.ev {
            Ev::Sent { s: 0, f: Frame::ConnReq { body }, .. } | Ev::SendFail { s: 0, f: Frame::ConnReq { body }, .. } => {
                if body[0] != 8 || body[16..18] != [4, 4] {
                    bad!("bad connect request {body:02x?}");
                }
                if v.before(i).up() && !v.shaky[i - 1] {
                    bad!("new connection requested although the connection was not lost: {}", v.at(i));
                }
                if matches!(v.before(i), Phase::Shut | Phase::Gone) {
                    bad!("connect request after shutdown: {}", v.at(i));
                }
                if let Some((lo, _)) = expect {
                    if r.t + TOL < lo {
                        bad!("connect request at t={:.3}s, too early (not before {:.3}s)", r.t as f64 / 1e6, lo as f64 / 1e6);
                    }
                }
                expect = match &r.ev {
                    Ev::Sent { .. } => Some((r.t + 30 * S + 10 * S, r.t + 40 * S)),
                    _ => Some((r.t + 10 * S, r.t + 10 * S)),
                };
            }
            Ev::Dropped => {
                expect = None;
                answer = None;
            }
            Ev::Recvd { s: 0, f: Frame::DiscReq { ch, .. }, .. } if !matches!(v.before(i), Phase::Up { ch: c, .. } if c == ch) => {
                may.push(*ch);
                if v.before(i).up() && !v.ph[i].up() {
                    expect = Some((r.t, r.t + 10 * S));
                }
            }
            Ev::Recvd { s: 0, f, .. } => match (v.before(i), &v.ph[i]) {
                (Phase::Connecting { .. }, Phase::Up { .. }) => expect = None,
                (Phase::Connecting { .. }, Phase::Waiting { .. }) => expect = Some((r.t + 10 * S, r.t + 10 * S)),
                (Phase::Connecting { t, dirty: false }, Phase::Connecting { dirty: true, .. }) => expect = Some((r.t + 10 * S, t + 40 * S)),
                (Phase::Up { ch, .. }, Phase::Lost { .. }) => {
                    expect = Some((r.t, r.t + 10 * S));
                    if let Frame::DiscReq { ch: c, .. } = f {
                        if c == ch {
                            answer = Some((*ch, i));
                        }
                    }
                }
                (_, Phase::Shut) => expect = None,
                _ => (),
            },
            Ev::RecvErr { s: 0 } => match v.before(i) {
                Phase::Up { .. } => expect = Some((r.t, r.t + 10 * S)),
                Phase::Connecting { t, .. } => expect = Some((r.t + 10 * S, t + 40 * S)),
                _ => (),
            },
            Ev::Sent { s: 0, f: Frame::DiscResp { ch, st }, .. } => match answer.take() {
                Some((c, _)) => {
                    if c != *ch || *st != 0 {
                        bad!("disconnect response ({ch},{st}) for channel {c}");
                    }
                }
                None if may.contains(ch) => may.retain(|c| c != ch),
                None => bad!("disconnect response nobody asked for: {}", v.at(i)),
            },
            Ev::SendFail { s: 0, f: Frame::DiscResp { .. }, .. } => answer = None,
            Ev::Quiet => {
                if let Some((_, k)) = answer {
                    bad!("gateway's disconnect request was not answered: {}", v.at(k));
                }
            }
            _ => (),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
pub fn c19(v: &View) -> M {
    // requests of status queries are set aside
    let mut aside: Vec<usize> = vec![];
    for o in v.ops() {
        if o.kind == OpKind::Status {
            aside.extend(o.sent.iter().chain(o.failed.iter()));
        }
    }
    let mut last: Option<u64> = None; // last heartbeat of this connection
    let mut last_any: Option<(u64, u32)> = None;
    let mut up_t = 0;
    let mut cur = 0u32;
    for (i, r) in v.tr.iter().enumerate() {
        if let Phase::Up { n, t, .. } = v.before(i) {
            if *n != cur {
                cur = *n;
                last = None;
                up_t = *t;
            }
            let base = last.unwrap_or(up_t);
            // heart beats only fall due while time passes
            if r.t > base + 60 * S + TOL && !v.shaky[i] {
                bad!(
                    "no heart beat for {:.3}s on a live connection (connected at {:.3}s): {}",
                    (r.t - base) as f64 / 1e6,
                    up_t as f64 / 1e6,
                    v.at(i)
                );
            }
            if *n == 1 && last.is_none() && matches!(r.ev, Ev::Quiet) && !v.shaky[i] && r.t >= up_t {
                bad!("no heart beat at the start of the connection: {}", v.at(i));
            }
        }
        if aside.contains(&i) {
            continue;
        }
        if let Ev::Sent { s: 0, f: Frame::StateReq { ch, ep }, .. } = &r.ev {
            match v.before(i) {
                Phase::Up { ch: c, ep: e, n, .. } => {
                    if ch != c {
                        bad!("heart beat for channel {ch}, live channel is {c}: {}", v.at(i));
                    }
                    if ep != e {
                        bad!("heart beat with endpoint {ep:02x?}, granted was {e:02x?}");
                    }
                    if let Some(l) = last {
                        if r.t + TOL < l + 60 * S {
                            bad!("heart beats {:.3}s apart: {}", (r.t - l) as f64 / 1e6, v.at(i));
                        }
                    }
                    last = Some(r.t);
                    last_any = Some((r.t, *n));
                }
                Phase::Lost { .. } => {
                    // already runnable when the loss arrived
                    let q = v.quiet_before(i);
                    if matches!(v.ph[q], Phase::Lost { .. }) {
                        bad!("heart beat on a lost connection: {}", v.at(i));
                    }
                }
                p => bad!("heart beat without a connection ({p:?}): {}", v.at(i)),
            }
        }
    }
    let _ = last_any;
    Ok(())
}

// ------------------------------------------------------------------ C24
pub fn c24(v: &View) -> M {
    for o in v.ops() {
        if o.kind != OpKind::Status {
            continue;
        }
        if o.sent.len() + o.failed.len() > 1 {
            bad!("status query sent {} requests", o.sent.len());
        }
        let ok = o.res.as_ref().map_or(false, |r| r.ok());
        let Some(&s) = o.sent.first() else {
            if ok {
                bad!("status query succeeded without sending a request");
            }
            if v.should_have_sent(&o) {
                bad!("status query on a live connection sent no request: {:?}", o.res);
            }
            continue;
        };
        match (&v.tr[s].ev, v.before(s)) {
            (Ev::Sent { f: Frame::StateReq { ch, ep }, .. }, Phase::Up { ch: c, ep: e, .. }) => {
                if ch != c || ep != e {
                    bad!("status query with channel {ch} endpoint {ep:02x?}, live are {c} {e:02x?}");
                }
            }
            (_, Phase::Lost { .. }) => (),
            (_, Phase::Shut) if v.was_up(s) => (),
            (_, p) => bad!("status query sent without a connection ({p:?})"),
        }
        let q = v.quiet_before(s);
        let end = o.end.unwrap_or(v.tr.len());
        let mut first: Option<(usize, u8, u8)> = None;
        let mut maybe = vec![];
        let mut broken = false;
        for i in q..end {
            match &v.tr[i].ev {
                Ev::Recvd { s: 0, f: Frame::StateResp { ch, st }, .. } => {
                    if i < s || !v.before(i).up() || broken {
                        maybe.push((*ch, *st));
                    } else if first.is_none() {
                        first = Some((i, *ch, *st));
                    }
                    if !v.ph[i].up() {
                        broken = true;
                    }
                }
                _ => {
                    if i > s && !v.ph[i].up() {
                        broken = true;
                    }
                }
            }
        }
        match &o.res {
            Some(Res::State(ch, st)) => {
                if !(maybe.contains(&(*ch, *st)) || first.map_or(false, |f| (f.1, f.2) == (*ch, *st))) {
                    bad!("status query returned ({ch},{st}); next response received was {first:?}");
                }
            }
            Some(Res::Err(e)) => {
                if let Some((i, ..)) = first {
                    if v.tr[i].t + TOL < v.tr[s].t + 10 * S {
                        bad!("status query failed ({e}) although it was answered: {}", v.at(i));
                    }
                } else if (q..end).all(|i| v.ph[i].up()) && maybe.is_empty() && !v.shaky[end] && v.tr[end].t + TOL < v.tr[s].t + 10 * S {
                    bad!("status query failed early ({e}), sent: {}", v.at(s));
                }
            }
            Some(x) => bad!("status query returned {x:?}"),
            None => {
                if !o.cancelled {
                    if let Some((i, ..)) = first {
                        if let Some(j) = (i..v.tr.len()).find(|j| matches!(v.tr[*j].ev, Ev::Settled)) {
                            bad!("status query answered but still pending at {}", v.at(j));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C25: nothing on the wire nobody asked for
pub fn no_orphans(v: &View) -> M {
    let ops = v.ops();
    for (i, r) in v.tr.iter().enumerate() {
        if let Ev::Sent { s: 0, f: Frame::Tunnel { .. } | Frame::DiscReq { .. }, .. } = &r.ev {
            if !ops.iter().any(|o| o.sent.contains(&i)) {
                bad!("request that no operation asked for: {}", v.at(i));
            }
        }
    }
    for o in &ops {
        if o.sent.len() > 1 {
            bad!("{:?} sent {} requests", o.kind, o.sent.len());
        }
    }
    Ok(())
}

/// of two calls, the one that was already waiting when the other was made goes first
pub fn in_turn(v: &View) -> M {
    let ops: Vec<Op> = v.ops().into_iter().filter(|o| !o.sent.is_empty()).collect();
    for a in &ops {
        for b in ops.iter().filter(|b| b.start > a.start && b.sent[0] < a.sent[0]) {
            if v.quiet_before(b.start) > a.start {
                bad!("{:?} waited for its turn and was overtaken by {:?}: {}", a.kind, b.kind, v.at(b.sent[0]));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
pub fn c22(v: &View) -> M {
    let ops = v.ops();
    let searches: Vec<&Op> = ops.iter().filter(|o| matches!(o.kind, OpKind::Search(_))).collect();
    for o in &searches {
        let OpKind::Search(ms) = o.kind else { unreachable!() };
        let t0 = v.tr[o.start].t;
        let limit = t0.saturating_add(ms.saturating_mul(1000)).min(1 << 62);
        // the search's request
        let mut req = None;
        for (i, r) in v.tr.iter().enumerate().skip(o.start) {
            let (s, to, f, op, ok) = match &r.ev {
                Ev::Sent { s, to, f, op, .. } => (*s, *to, f, *op, true),
                Ev::SendFail { s, f, op, .. } => (*s, None, f, *op, false),
                _ => continue,
            };
            let mine = op == Some(o.id) || (op.is_none() && searches.len() == 1 && s != 0);
            if !mine {
                continue;
            }
            let Frame::SearchReq { ep } = f else { bad!("search sent something else: {}", v.at(i)) };
            if req.is_some() {
                bad!("search sent more than one request: {}", v.at(i));
            }
            let local = v.tr.iter().find_map(|r| match &r.ev {
                Ev::Bind(x, a) if *x == s => Some(*a),
                _ => None,
            });
            let Some(std::net::SocketAddr::V4(l)) = local else { bad!("no local address") };
            let exp = frames::hpai(l.ip().octets(), l.port());
            if *ep != exp {
                bad!("search request names endpoint {ep:02x?}, the socket's is {exp:02x?}");
            }
            if ok && to != Some("224.0.23.12:3671".parse().unwrap()) {
                bad!("search request sent to {to:?}");
            }
            if r.t > t0 + TOL {
                bad!("search request sent late");
            }
            req = Some((i, s, ok));
        }
        let Some((i, s, ok)) = req else {
            if o.res.as_ref().map_or(false, |r| r.ok()) {
                bad!("search succeeded without sending a request");
            }
            if o.end.is_none() && !o.cancelled {
                bad!("search neither sent a request nor returned");
            }
            if v.tr.iter().skip(o.start).any(|r| matches!(r.ev, Ev::Bind(x, _) if x > 0)) && !o.cancelled {
                bad!("search did not send its request: {:?}", o.res);
            }
            continue;
        };
        let end = o.end.unwrap_or(v.tr.len());
        if o.cancelled {
            continue;
        }
        if !ok {
            if o.res.as_ref().map_or(true, |r| r.ok()) {
                bad!("search could not send its request but reported {:?}", o.res);
            }
            continue;
        }
        let err = (i..end).find(|j| matches!(v.tr[*j].ev, Ev::RecvErr { s: x } if x == s));
        match (&o.res, err) {
            (Some(Res::Err(_)), Some(_)) => (),
            (r, Some(_)) => bad!("receiving failed but the search reported {r:?}"),
            (Some(Res::Err(e)), None) => bad!("search failed without cause: {e}"),
            (None, None) => {
                if v.tr.last().unwrap().t > limit + TOL {
                    bad!("search of {ms} ms still running after {} us", v.tr.last().unwrap().t - t0);
                }
            }
            (Some(Res::Found(f)), None) => {
                let te = v.tr[end].t;
                if te + TOL < limit || te > limit + TOL {
                    bad!("search of {ms} ms returned after {} us", te - t0);
                }
                let mut got = vec![];
                let mut seen = vec![];
                for r in &v.tr[i..end] {
                    if let Ev::Recvd { s: x, d, id, .. } = &r.ev {
                        if *x == s {
                            seen.push(*id);
                            if let Some(k) = crate::scen::found_ref(d) {
                                got.push(k);
                            }
                        }
                    }
                }
                for r in &v.tr[i..end] {
                    if let Ev::Enq { s: x, id } = &r.ev {
                        if *x == s && r.t + TOL < limit && !seen.contains(id) {
                            bad!("datagram delivered at {} us was never received by the search", r.t);
                        }
                    }
                }
                if *f != got {
                    bad!("search returned {} devices, received were {}: {f:02x?} / {got:02x?}", f.len(), got.len());
                }
            }
            (Some(r), None) => bad!("search returned {r:?}"),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C23
pub fn c23(v: &View) -> M {
    let mut feat = false; // enabled on the current connection
    let mut cur = 0u32;
    for (i, r) in v.tr.iter().enumerate() {
        if let Phase::Up { n, ch, .. } = v.before(i) {
            if *n != cur {
                cur = *n;
                feat = false;
            }
            match &r.ev {
                Ev::Sent { s: 0, f, .. } if !feat => match f {
                    Frame::FeatSet { ch: c, seq: 0, feat: 8, val: 1 } if c == ch => feat = true,
                    Frame::Ack { .. } | Frame::DiscResp { .. } => (),
                    Frame::ConnReq { .. } if v.shaky[i - 1] => (),
                    f => bad!("first datagram on a new connection is {f:02x?}, not the info service request"),
                },
                Ev::Sent { s: 0, f: Frame::FeatSet { .. }, .. } => bad!("info service requested twice: {}", v.at(i)),
                Ev::Quiet if !feat && !v.shaky[i] => bad!("info service was not enabled on connection {n}"),
                Ev::End(o, Res::Bool(true)) if !feat => {
                    let _ = o;
                    bad!("reported connected before the info service was requested: {}", v.at(i));
                }
                Ev::Notified(k) if !feat => bad!("subscriber {k} notified before the info service was requested"),
                _ => (),
            }
        }
    }
    let ops = v.ops();
    // reported state
    for o in &ops {
        let (OpKind::IsConn, Some(e), Some(Res::Bool(b))) = (&o.kind, o.end, &o.res) else { continue };
        let q = v.quiet_before(o.start);
        let up = v.ph[q].up();
        let stable = (q..=e).all(|i| v.ph[i].up() == up) && !v.shaky[e] && !(q..=e).any(|i| matches!(v.tr[i].ev, Ev::SendFail { .. }));
        if q > 0 && stable && *b != up {
            bad!("monitor reports connected={b}, phase {:?}: {}", v.ph[q], v.at(e));
        }
    }
    // notifications of subscribers with a reader: exactly one per connection established since registration
    let subs: Vec<(usize, usize)> = ops
        .iter()
        .filter_map(|o| match (&o.kind, o.end) {
            (OpKind::AddSub(k), Some(e)) if !o.cancelled => Some((*k, e)),
            _ => None,
        })
        .collect();
    for (k, reg) in subs {
        let start = ops.iter().find(|o| o.kind == OpKind::AddSub(k)).unwrap().start;
        let mut sure = 0usize; // connections after registration
        let mut maybe = 0usize; // while registering
        let mut got = 0usize;
        let mut live = true;
        let mut overflow = false;
        let mut since = 0usize;
        let mut cap = usize::MAX;
        // what its channel holds: exact unless it is read while a connection is being announced
        let (mut due, mut coming, mut exact) = (0usize, 0usize, true);
        for (i, r) in v.tr.iter().enumerate() {
            match &r.ev {
                Ev::Quiet => {
                    due = cap.min(due + coming);
                    coming = 0;
                }
                Ev::SubCap(x, c) if *x == k => cap = *c,
                Ev::SubGone(x) if *x == k => live = false,
                Ev::Sent { s: 0, f: Frame::FeatSet { .. }, .. } if live => {
                    if i > reg {
                        sure += 1;
                        since += 1;
                        coming += 1;
                        if since > cap {
                            overflow = true;
                        }
                    } else if i > v.quiet_before(start) {
                        maybe += 1;
                        exact = false;
                    }
                }
                Ev::Notified(x) if *x == k => {
                    exact &= coming == 0;
                    due = due.saturating_sub(1);
                    got += 1;
                    since = since.saturating_sub(1);
                    if got > sure + maybe {
                        bad!("subscriber {k} notified {got} times for {} connections", sure + maybe);
                    }
                }
                Ev::Drained if live => {
                    if exact && coming == 0 && due > 0 {
                        bad!("subscriber {k} was not notified of the last {due} connections: {}", v.at(i));
                    }
                    if got < sure && !overflow {
                        bad!("subscriber {k} notified {got} times for {sure} connections: {}", v.at(i));
                    }
                    if overflow && got < cap.min(sure) {
                        bad!("subscriber {k} (capacity {cap}) notified {got} times for {sure} connections");
                    }
                }
                _ => (),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26
pub fn c26(v: &View) -> M {
    let Some(d) = v.tr.iter().position(|r| r.ev == Ev::Dropped) else { return Ok(()) };
    let q = (d..v.tr.len()).find(|i| matches!(v.tr[*i].ev, Ev::Quiet)).unwrap_or(v.tr.len());
    for i in d..v.tr.len() {
        if let Ev::Sent { s: 0, f, .. } | Ev::SendFail { s: 0, f, .. } = &v.tr[i].ev {
            if i > q || !matches!(f, Frame::Ack { .. }) {
                bad!("datagram sent after the last handle was dropped: {}", v.at(i));
            }
        }
    }
    if v.tr.iter().any(|r| matches!(r.ev, Ev::Bind(0, _))) && q < v.tr.len() {
        let closed = v.tr.iter().position(|r| matches!(r.ev, Ev::Close(0)));
        if closed.map_or(true, |c| c > q) {
            bad!("socket still open after the last handle was dropped");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C28
pub fn c28(v: &View) -> M {
    let mut target: Vec<Option<std::net::SocketAddr>> = vec![];
    let mut open = 0i64;
    for (i, r) in v.tr.iter().enumerate() {
        match &r.ev {
            Ev::Target(s, a) => {
                if target.len() <= *s {
                    target.resize(*s + 1, None);
                }
                target[*s] = Some(*a);
            }
            Ev::Sent { s, to, f, .. } => {
                if matches!(f, Frame::SearchReq { .. }) {
                    continue;
                }
                match target.get(*s).copied().flatten() {
                    Some(a) if *to == Some(a) => (),
                    Some(a) => bad!("sent to {to:?}, the gateway is {a}: {}", v.at(i)),
                    None => bad!("sent from a socket that is nobody's: {}", v.at(i)),
                }
            }
            _ => (),
        }
    }
    let mut failed = false;
    for o in v.ops() {
        let OpKind::Open(m, form, expect) = o.kind else { continue };
        let what = format!("connecting a {} (address form {form})", if m { "monitor" } else { "client" });
        let t0 = v.tr[o.start].t;
        let settled = (o.start..v.tr.len()).find(|j| matches!(v.tr[*j].ev, Ev::Settled));
        let Some(e) = o.end else {
            if !o.cancelled && settled.is_some() {
                bad!("{what} does not return");
            }
            failed |= o.cancelled;
            continue;
        };
        if v.tr[e].t > t0 + TOL || settled.map_or(false, |j| j < e) {
            bad!("{what} returned only after {} us", v.tr[e].t - t0);
        }
        match (&o.res, expect) {
            (Some(Res::Err(x)), Some(true)) => bad!("{what} failed: {x}"),
            (Some(r), Some(false)) if r.ok() => bad!("{what} succeeded"),
            (_, Some(true)) => {
                let mut first = v.tr.iter().enumerate().skip(o.start).filter(|(_, r)| matches!(r.ev, Ev::Sent { .. } | Ev::SendFail { .. }));
                match first.next() {
                    Some((j, r)) if r.t <= t0 + TOL => {
                        if !matches!(r.ev, Ev::Sent { f: Frame::ConnReq { .. }, .. } | Ev::SendFail { f: Frame::ConnReq { .. }, .. }) {
                            bad!("{what}: something else before the connection request: {}", v.at(j));
                        }
                    }
                    _ if settled.is_some() => bad!("{what}: no connection request"),
                    _ => (),
                }
            }
            (Some(r), _) => failed |= !r.ok(),
            _ => (),
        }
    }
    // what could not be created leaves nothing behind
    if failed && v.ops().iter().all(|o| o.cancelled || !matches!(o.kind, OpKind::Open(..)) || o.res.as_ref().map_or(false, |r| !r.ok())) {
        for (i, r) in v.tr.iter().enumerate() {
            match &r.ev {
                Ev::Bind(..) => open += 1,
                Ev::Close(..) => open -= 1,
                Ev::Sent { .. } | Ev::SendFail { .. } => bad!("connecting failed or was given up, but something was sent: {}", v.at(i)),
                _ => (),
            }
        }
        if open != 0 && matches!(v.tr.iter().rev().find(|r| matches!(r.ev, Ev::Settled | Ev::Quiet)), Some(_)) {
            bad!("connecting failed or was given up, but {open} sockets are still open");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ probes: what is asked for on a calm live connection works
pub fn probes(v: &View) -> M {
    let Some(e) = v.tr.iter().position(|r| r.ev == Ev::Note("probe")) else { return Ok(()) };
    let q = v.quiet_before(e);
    // errors that were waiting on the socket spoil one attempt each
    let spoilt = v.tr[..e].iter().any(|r| r.t + 45 * S > v.tr[e].t && matches!(&r.ev, Ev::RecvErr { s: 0 }));
    if !spoilt && !matches!(v.ph[q], Phase::Up { .. } | Phase::Shut | Phase::Gone) {
        bad!("the connection was not re-established ({:?}): {}", v.ph[q], v.at(e));
    }
    let ops = v.ops();
    for o in ops.iter().filter(|o| o.start > e) {
        let end = o.end.unwrap_or(v.tr.len() - 1);
        let q = v.quiet_before(o.start);
        let alone = ops.iter().all(|p| p.id == o.id || p.kind == OpKind::Next || p.end.map_or(false, |x| x < o.start) || p.start > end);
        // 40 s after a failed send the connection has been kept or made anew
        let shaken = v.shaky[end]
            && (v.tr[..=end].iter().any(|r| matches!(&r.ev, Ev::SendFail { s: 0, .. } if r.t + 40 * S > v.tr[o.start].t))
                || ops.iter().any(|p| p.start < end && matches!(p.kind, OpKind::Disconnect | OpKind::MDisconnect)));
        if !alone || shaken || !(q..=end).all(|i| v.ph[i].up()) {
            continue;
        }
        match (&o.kind, &o.res) {
            (OpKind::Next | OpKind::Search(_) | OpKind::Open(..) | OpKind::Disconnect | OpKind::MDisconnect, _) => (),
            (k, Some(r)) if r.ok() => {
                if v.tr[end].t > v.tr[o.start].t + TOL {
                    bad!("{k:?} was answered at once but took {} us", v.tr[end].t - v.tr[o.start].t);
                }
            }
            (k, r) => bad!("{k:?} on a calm live connection ended with {r:?}"),
        }
    }
    Ok(())
}
