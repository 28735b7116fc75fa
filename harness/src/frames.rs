//! Independent reference for the wire format (written from the KNXnet/IP rules, not from /repo).

pub type Hpai = [u8; 8];

pub fn hdr(svc: u16, body: &[u8]) -> Vec<u8> {
    let mut v = vec![6, 0x10, (svc >> 8) as u8, svc as u8];
    v.extend_from_slice(&((6 + body.len()) as u16).to_be_bytes());
    v.extend_from_slice(body);
    v
}
pub fn hpai(ip: [u8; 4], port: u16) -> Hpai {
    let p = port.to_be_bytes();
    [8, 1, ip[0], ip[1], ip[2], ip[3], p[0], p[1]]
}
pub fn connect_resp(ch: u8, status: u8, ep: &Hpai, ia: u16) -> Vec<u8> {
    let mut b = vec![ch, status];
    b.extend_from_slice(ep);
    b.extend_from_slice(&[4, 4, (ia >> 8) as u8, ia as u8]);
    hdr(0x0206, &b)
}
/// Error answers carry only channel and status.
pub fn connect_err(status: u8) -> Vec<u8> {
    hdr(0x0206, &[0, status])
}
pub fn state_resp(ch: u8, st: u8) -> Vec<u8> {
    hdr(0x0208, &[ch, st])
}
pub fn disc_req(ch: u8, ep: &Hpai) -> Vec<u8> {
    let mut b = vec![ch, 0];
    b.extend_from_slice(ep);
    hdr(0x0209, &b)
}
pub fn disc_resp(ch: u8, st: u8) -> Vec<u8> {
    hdr(0x020a, &[ch, st])
}
pub fn tunnel(ch: u8, seq: u8, cemi: &[u8]) -> Vec<u8> {
    let mut b = vec![4, ch, seq, 0];
    b.extend_from_slice(cemi);
    hdr(0x0420, &b)
}
pub fn ack(ch: u8, seq: u8, st: u8) -> Vec<u8> {
    hdr(0x0421, &[4, ch, seq, st])
}
pub fn feat_resp(ch: u8, seq: u8, feat: u8, st: u8, val: u8) -> Vec<u8> {
    hdr(0x0423, &[4, ch, seq, 0, feat, st, val])
}

pub const IND: u8 = 0x29;
pub const CON: u8 = 0x2e;
pub const BUSMON: u8 = 0x2b;
pub const REQ: u8 = 0x11;

pub const A_READ: u16 = 0x000;
pub const A_RESP: u16 = 0x040;
pub const A_WRITE: u16 = 0x080;

/// Application data: up to one 6-bit value inline, otherwise octets appended.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Small(u8),
    Big(Vec<u8>),
}
impl Val {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Val::Small(b) => vec![b & 0x3f],
            Val::Big(v) => v.clone(),
        }
    }
}
pub fn apdu(apci: u16, v: &Val) -> Vec<u8> {
    match v {
        Val::Small(b) => vec![1, (apci >> 8) as u8, (apci as u8) | (b & 0x3f)],
        Val::Big(d) => {
            let mut r = vec![(d.len() + 1) as u8, (apci >> 8) as u8, apci as u8];
            r.extend_from_slice(d);
            r
        }
    }
}
pub fn cemi(code: u8, info: &[u8], c1: u8, c2: u8, src: u16, dst: u16, apci: u16, v: &Val) -> Vec<u8> {
    let mut r = vec![code, info.len() as u8];
    r.extend_from_slice(info);
    r.extend_from_slice(&[c1, c2]);
    r.extend_from_slice(&src.to_be_bytes());
    r.extend_from_slice(&dst.to_be_bytes());
    r.extend_from_slice(&apdu(apci, v));
    r
}
pub fn ind(src: u16, dst: u16, apci: u16, v: &Val) -> Vec<u8> {
    cemi(IND, &[], 0xbc, 0xe0, src, dst, apci, v)
}
pub fn con(dst: u16, ok: bool, apci: u16, v: &Val) -> Vec<u8> {
    cemi(CON, &[], if ok { 0xbc } else { 0xbd }, 0xe0, 0x1101, dst, apci, v)
}

pub fn search_resp(n: u8, families: usize) -> Vec<u8> {
    let mut b = hpai([10, 1, 2, n], 3671).to_vec();
    let mut d = vec![54, 1, 0x02, n & 1, 0x11, n, 0, n];
    d.extend_from_slice(&[0, n, 1, 2, 3, 4]);
    d.extend_from_slice(&[224, 0, 23, 12]);
    d.extend_from_slice(&[1, 2, 3, 4, 5, n]);
    let mut name = format!("gw{n}").into_bytes();
    name.resize(30, 0);
    d.extend_from_slice(&name);
    b.extend_from_slice(&d);
    b.push((2 + 2 * families) as u8);
    b.push(2);
    for i in 0..families {
        b.extend_from_slice(&[2 + i as u8, 1]);
    }
    hdr(0x0202, &b)
}

/// A frame as the reference understands it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Frame {
    SearchReq { ep: Hpai },
    ConnReq { body: Vec<u8> },
    ConnResp { ch: u8, st: u8, ep: Hpai, ia: u16 },
    ConnErr { st: u8 },
    StateReq { ch: u8, ep: Hpai },
    StateResp { ch: u8, st: u8 },
    DiscReq { ch: u8, ep: Hpai },
    DiscResp { ch: u8, st: u8 },
    Tunnel { ch: u8, seq: u8, cemi: Vec<u8> },
    Ack { ch: u8, seq: u8, st: u8 },
    FeatSet { ch: u8, seq: u8, feat: u8, val: u8 },
    FeatResp { ch: u8, seq: u8 },
    /// Anything else, or malformed.
    Other,
}

fn ep8(b: &[u8]) -> Option<Hpai> {
    let a: Hpai = b.try_into().ok()?;
    (a[0] == 8).then_some(a)
}

/// Strict parse: header, exact total length, exact body layout.
pub fn parse(d: &[u8]) -> Frame {
    parse_opt(d).unwrap_or(Frame::Other)
}
fn parse_opt(d: &[u8]) -> Option<Frame> {
    if d.len() < 6 || d[0] != 6 || d[1] != 0x10 {
        return None;
    }
    if u16::from_be_bytes([d[4], d[5]]) as usize != d.len() {
        return None;
    }
    let b = &d[6..];
    Some(match u16::from_be_bytes([d[2], d[3]]) {
        0x0201 if b.len() == 8 => Frame::SearchReq { ep: ep8(b)? },
        0x0205 if b.len() == 20 && b[0] == 8 && b[8] == 8 && b[16] == 4 && b[17] == 4 => Frame::ConnReq { body: b.to_vec() },
        0x0206 if b.len() == 14 && b[1] == 0 && b[10] == 4 && b[11] == 4 => Frame::ConnResp {
            ch: b[0],
            st: b[1],
            ep: ep8(&b[2..10])?,
            ia: u16::from_be_bytes([b[12], b[13]]),
        },
        0x0206 if b.len() >= 2 && b[1] != 0 => Frame::ConnErr { st: b[1] },
        0x0207 if b.len() == 10 && b[1] == 0 => Frame::StateReq { ch: b[0], ep: ep8(&b[2..])? },
        0x0208 if b.len() == 2 => Frame::StateResp { ch: b[0], st: b[1] },
        0x0209 if b.len() == 10 => Frame::DiscReq { ch: b[0], ep: ep8(&b[2..])? },
        0x020a if b.len() == 2 => Frame::DiscResp { ch: b[0], st: b[1] },
        0x0420 if b.len() >= 4 && b[0] == 4 => Frame::Tunnel {
            ch: b[1],
            seq: b[2],
            cemi: b[4..].to_vec(),
        },
        0x0421 if b.len() == 4 && b[0] == 4 => Frame::Ack { ch: b[1], seq: b[2], st: b[3] },
        0x0423 if b.len() == 7 && b[0] == 4 && [2, 6, 7, 8].contains(&b[4]) => Frame::FeatResp { ch: b[1], seq: b[2] },
        0x0424 if b.len() == 7 && b[0] == 4 && b[3] == 0 && b[5] == 0 => Frame::FeatSet {
            ch: b[1],
            seq: b[2],
            feat: b[4],
            val: b[6],
        },
        _ => return None,
    })
}

/// Reference view of a received L_Data telegram.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tele {
    pub code: u8,
    pub c1: u8,
    pub src: u16,
    pub dst: u16,
    pub apci: u16,
    pub value: Vec<u8>,
}

pub enum Cemi {
    Bad,
    /// decodable cEMI whose service is not an L_Data indication/confirmation
    Unknown,
    Con { dst: u16, ok: bool },
    Ind(Tele),
    /// L_Data code but the body cannot be decoded
    BadData,
}

pub fn known_info(t: u8) -> bool {
    (1..=0x0a).contains(&t) || t == 0xfe
}

pub fn parse_cemi(c: &[u8]) -> Cemi {
    if c.len() < 2 {
        return Cemi::Bad;
    }
    let al = c[1] as usize;
    if c.len() < 2 + al {
        return Cemi::Bad;
    }
    let mut i = 0;
    let info = &c[2..2 + al];
    while i < al {
        if i + 2 > al || i + 2 + info[i + 1] as usize > al || !known_info(info[i]) {
            return Cemi::Bad;
        }
        i += 2 + info[i + 1] as usize;
    }
    let b = &c[2 + al..];
    match c[0] {
        CON => {
            if b.len() < 6 {
                return Cemi::BadData;
            }
            Cemi::Con {
                dst: u16::from_be_bytes([b[4], b[5]]),
                ok: b[0] & 1 == 0,
            }
        }
        IND | BUSMON => {
            if b.len() < 9 {
                return Cemi::BadData;
            }
            let l = b[6] as usize;
            let value = if l <= 1 {
                vec![b[8] & 0x3f]
            } else {
                if b.len() < 8 + l {
                    return Cemi::BadData;
                }
                b[9..8 + l].to_vec()
            };
            Cemi::Ind(Tele {
                code: c[0],
                c1: b[0],
                src: u16::from_be_bytes([b[2], b[3]]),
                dst: u16::from_be_bytes([b[4], b[5]]),
                apci: u16::from_be_bytes([b[7], b[8]]) & 0x3c0,
                value,
            })
        }
        _ => Cemi::Unknown,
    }
}

/// The request telegram inside a tunnelling request sent by the client.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ReqTele {
    pub dst: u16,
    pub group: bool,
    pub apci: u16,
    pub val: Val,
}
pub fn parse_req(c: &[u8]) -> Option<ReqTele> {
    if c.len() < 11 || c[0] != REQ || c[1] != 0 {
        return None;
    }
    let l = c[8] as usize;
    if l == 0 || c.len() != 10 + l {
        return None;
    }
    let a = u16::from_be_bytes([c[9], c[10]]);
    Some(ReqTele {
        dst: u16::from_be_bytes([c[6], c[7]]),
        group: c[3] & 0x80 != 0,
        apci: a & 0x3c0,
        val: if l == 1 { Val::Small((a & 0x3f) as u8) } else { Val::Big(c[11..].to_vec()) },
    })
}
