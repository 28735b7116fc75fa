//! Exhaustive enumeration of bounded input spaces for the codecs (C01..C10), each case judged
//! against an independent reference.
use crate::frames::*;
use knx_ip_client::dp_types::*;
use knx_ip_client::packets::addresses::*;
use knx_ip_client::packets::apdu::*;
use knx_ip_client::packets::core::*;
use knx_ip_client::packets::emi::*;
use knx_ip_client::packets::tpdu::*;
use knx_ip_client::packets::tunneling::*;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse};
use std::io::Cursor;
use std::net::{Ipv4Addr, SocketAddrV4};

/// Ok(true): the code produced a value that was compared with the reference; Ok(false): refusal compared.
pub type R = Result<bool, String>;
pub type CaseFn = Box<dyn Fn(u64) -> R + Sync + Send>;
pub struct Part {
    pub name: String,
    pub n: u64,
    pub f: CaseFn,
    /// how to write case i down
    pub show: Box<dyn Fn(u64) -> String + Sync + Send>,
}
pub fn part(name: &str, n: u64, f: impl Fn(u64) -> R + Sync + Send + 'static) -> Part {
    Part { name: name.into(), n, f: Box::new(f), show: Box::new(|i| format!("case {i}")) }
}
fn shown(mut p: Part, s: impl Fn(u64) -> String + Sync + Send + 'static) -> Part {
    p.show = Box::new(s);
    p
}
fn bytes_part(name: &str, n: u64, gen: impl Fn(u64) -> Vec<u8> + Sync + Send + Clone + 'static, chk: Chk) -> Part {
    let g = gen.clone();
    shown(part(name, n, move |i| chk(&gen(i))), move |i| format!("{:02x?}", g(i)))
}
type Chk = fn(&[u8]) -> R;
type F = Vec<u32>;

macro_rules! bad { ($($a:tt)*) => { return Err(format!($($a)*)) } }

enum V {
    /// well formed: must be accepted with exactly these fields
    Yes(F),
    /// must be refused
    No,
    /// outside the rules: refusing is fine, accepting is fine with these fields
    May(F),
    /// outside the rules, anything but a crash
    Any,
}
impl V {
    fn map(self, f: impl Fn(F) -> F) -> V {
        match self {
            V::Yes(x) => V::Yes(f(x)),
            V::May(x) => V::May(f(x)),
            v => v,
        }
    }
    fn weak(self, w: bool) -> V {
        match self {
            V::Yes(x) if w => V::May(x),
            v => v,
        }
    }
}
fn decide(what: &str, d: &[u8], v: V, got: Result<F, String>) -> R {
    match (v, got) {
        (V::Yes(e), Ok(g)) | (V::May(e), Ok(g)) => {
            if e != g {
                bad!("{what} {:02x?} decoded to {:02x?}, transmitted was {:02x?}", short(d), short32(&g), short32(&e));
            }
            Ok(true)
        }
        (V::Yes(_), Err(e)) => bad!("{what} {:02x?} is well formed but was refused: {e}", short(d)),
        (V::No, Ok(g)) => bad!("{what} {:02x?} is malformed but was accepted as {:02x?}", short(d), short32(&g)),
        (V::Any, Ok(_)) => Ok(true),
        (_, Err(_)) => Ok(false),
    }
}
fn short(d: &[u8]) -> &[u8] {
    &d[..d.len().min(80)]
}
fn short32(d: &[u32]) -> &[u32] {
    &d[..d.len().min(80)]
}
fn u16at(d: &[u8], i: usize) -> u16 {
    u16::from_be_bytes([d[i], d[i + 1]])
}
fn cur(d: &[u8]) -> Cursor<&[u8]> {
    Cursor::new(d)
}
fn er<T: std::fmt::Display>(e: T) -> String {
    e.to_string()
}
fn f8(d: &[u8]) -> F {
    d.iter().map(|b| *b as u32).collect()
}
fn hpai_f(h: &HPAI) -> F {
    let mut v = vec![h.host_protocol_code as u32];
    v.extend(h.address.ip().octets().iter().map(|b| *b as u32));
    v.push(h.address.port() as u32);
    v
}

// ------------------------------------------------------------------ reference decoders
fn r_hdr(d: &[u8], svc: Option<u16>) -> bool {
    d.len() >= 6 && d[0] == 6 && d[1] == 0x10 && svc.map_or(true, |s| u16at(d, 2) == s)
}
fn r_hpai(d: &[u8]) -> V {
    if d.len() < 8 || d[0] != 8 {
        return V::No;
    }
    let mut f = f8(&d[1..6]);
    f.push(u16at(d, 6) as u32);
    V::Yes(f).weak(d[1] != 1 && d[1] != 2)
}
fn r_connresp(d: &[u8]) -> V {
    if !r_hdr(d, Some(0x0206)) || d.len() < 8 || u16at(d, 4) < 8 {
        return V::No;
    }
    if [0x22, 0x23, 0x24, 0x29].contains(&d[7]) {
        return V::No;
    }
    if d.len() < 20 || d[16] != 4 || d[17] != 4 {
        return V::No;
    }
    let (ch, st, ia) = (d[6] as u32, d[7] as u32, u16at(d, 18) as u32);
    r_hpai(&d[8..16])
        .map(|mut h| {
            h.extend([ch, st, ia]);
            h
        })
        .weak(d.len() != 20 || u16at(d, 4) != 20 || st != 0)
}
fn r_chan_ep(d: &[u8], svc: u16) -> V {
    if !r_hdr(d, Some(svc)) || d.len() < 16 {
        return V::No;
    }
    let ch = d[6] as u32;
    r_hpai(&d[8..16])
        .map(|mut h| {
            h.push(ch);
            h
        })
        .weak(d.len() != 16 || u16at(d, 4) != 16 || d[7] != 0)
}
fn r_chan_st(d: &[u8], svc: u16) -> V {
    if !r_hdr(d, Some(svc)) || d.len() < 8 || u16at(d, 4) != 8 {
        return V::No;
    }
    V::Yes(vec![d[6] as u32, d[7] as u32]).weak(d.len() != 8)
}
fn r_tunnel(d: &[u8]) -> V {
    if !r_hdr(d, Some(0x0420)) || d.len() < 10 || d[6] != 4 {
        return V::No;
    }
    let s = u16at(d, 4) as usize;
    if s < 10 || d.len() < s {
        return V::No;
    }
    let mut f = vec![d[7] as u32, d[8] as u32];
    f.extend(f8(&d[10..s]));
    V::Yes(f).weak(d.len() != s || d[9] != 0)
}
fn r_ack(d: &[u8]) -> V {
    if !r_hdr(d, Some(0x0421)) || d.len() < 10 || d[6] != 4 || u16at(d, 4) != 10 {
        return V::No;
    }
    V::Yes(f8(&d[7..10])).weak(d.len() != 10)
}
fn r_feat(d: &[u8]) -> V {
    if !r_hdr(d, Some(0x0423)) || d.len() < 13 || d[6] != 4 {
        return V::No;
    }
    let s = u16at(d, 4) as usize;
    if s < 13 || s > d.len() {
        return V::No;
    }
    if s > 13 {
        return V::Any;
    }
    let f = [7, 8, 10, 11, 12].map(|i: usize| d[i] as u32).to_vec();
    V::Yes(f).weak(d.len() != 13 || d[9] != 0 || ![2, 6, 7, 8].contains(&d[10]))
}
/// (verdict, bytes used)
fn r_dib(d: &[u8]) -> (V, usize) {
    if d.len() < 2 {
        return (V::No, 0);
    }
    let l = d[0] as usize;
    let mut f = vec![d[1] as u32, d[0] as u32];
    match d[1] {
        1 => {
            if d.len() < 54 || ![2, 3, 0x10, 0x20].contains(&d[2]) {
                return (V::No, 0);
            }
            f.extend([d[2] as u32, (d[3] & 1) as u32, u16at(d, 4) as u32, u16at(d, 6) as u32]);
            f.extend(f8(&d[8..54]));
            (V::Yes(f).weak(l != 54 || d[3] & 0xfe != 0), 54)
        }
        2 => {
            if l < 2 || d.len() < 2 + (l - 2) / 2 * 2 {
                return (V::No, 0);
            }
            let e = 2 + (l - 2) / 2 * 2;
            f.extend(f8(&d[2..e]));
            (V::Yes(f).weak(l % 2 == 1), e)
        }
        3 | 4 => {
            let n = if d[1] == 3 { 16 } else { 20 };
            if d.len() < n {
                return (V::No, 0);
            }
            f.extend(f8(&d[2..n]));
            (V::Yes(f).weak(l != n), n)
        }
        5 => {
            if l < 4 || d.len() < 4 + (l - 4) / 2 * 2 {
                return (V::No, 0);
            }
            let e = 4 + (l - 4) / 2 * 2;
            for i in (2..e).step_by(2) {
                f.push(u16at(d, i) as u32);
            }
            (V::Yes(f).weak(l % 2 == 1), e)
        }
        0xfe => {
            if l < 4 || d.len() < l {
                return (V::No, 0);
            }
            f.push(u16at(d, 2) as u32);
            f.extend(f8(&d[4..l]));
            (V::Yes(f), l)
        }
        _ => (V::No, 0),
    }
}
fn dib_f(x: &DIB) -> F {
    match x {
        DIB::DeviceInformation(i) => {
            let mut f = vec![i.description_type_code as u32, i.structure_length as u32, i.knx_medium as u32, (i.knx_device_status.bits() & 1) as u32];
            f.extend([i.knx_individual_address.to_u16() as u32, i.project_installation_identifier as u32]);
            f.extend(f8(&i.serial_number));
            f.extend(f8(&i.routing_multicast_address.octets()));
            f.extend(f8(&i.mac_address));
            f.extend(f8(&i.friendly_name));
            f
        }
        DIB::SupportedServiceFamilies(i) => {
            let mut f = vec![i.description_type_code as u32, i.structure_length as u32];
            for s in &i.service_families {
                f.extend([s.service_family as u32, s.version as u32]);
            }
            f
        }
        DIB::IpConfig(i) => {
            let mut f = vec![i.description_type_code as u32, i.structure_length as u32];
            f.extend(f8(&i.ip_address.octets()));
            f.extend(f8(&i.subnet_mask.octets()));
            f.extend(f8(&i.default_gateway.octets()));
            f.extend([i.ip_capabilities as u32, i.ip_assignment_method as u32]);
            f
        }
        DIB::IpCurrentConfig(i) => {
            let mut f = vec![i.description_type_code as u32, i.structure_length as u32];
            f.extend(f8(&i.current_ip_address.octets()));
            f.extend(f8(&i.current_subnet_mask.octets()));
            f.extend(f8(&i.current_default_gateway.octets()));
            f.extend(f8(&i.dhcp_server.octets()));
            f.extend([i.current_ip_assignment_method as u32, i.reserved as u32]);
            f
        }
        DIB::KNXAddresses(i) => {
            let mut f = vec![i.description_type_code as u32, i.structure_length as u32, i.knx_individual_address.to_u16() as u32];
            f.extend(i.additional_individual_addresses.iter().map(|a| a.to_u16() as u32));
            f
        }
        DIB::ManufacturerData(i) => {
            let mut f = vec![i.description_type_code as u32, i.structure_length as u32, i.knx_manufacturer_id as u32];
            f.extend(f8(&i.manufacturer_specific_data));
            f
        }
    }
}
fn r_searchresp(d: &[u8]) -> V {
    if !r_hdr(d, Some(0x0202)) || d.len() < 14 {
        return V::No;
    }
    let h = r_hpai(&d[6..14]);
    if matches!(h, V::No) {
        return V::No;
    }
    let (a, n) = r_dib(&d[14..]);
    if matches!(a, V::No) || d[15] != 1 {
        return V::No;
    }
    // a device information block whose length octet is off may end elsewhere
    if d[14] != 54 {
        return V::Any;
    }
    let (b, m) = r_dib(&d[14 + n..]);
    if matches!(b, V::No) || d[15 + n] != 2 {
        return V::No;
    }
    let mut f: F = vec![];
    let mut weak = u16at(d, 4) as usize != 14 + n + m || d.len() != 14 + n + m;
    for v in [h, a, b] {
        match v {
            V::Yes(x) => f.extend(x),
            V::May(x) => {
                f.extend(x);
                weak = true;
            }
            _ => unreachable!(),
        }
    }
    V::Yes(f).weak(weak)
}
fn r_cemi(d: &[u8]) -> V {
    if d.len() < 2 {
        return V::No;
    }
    let al = d[1] as usize;
    if d.len() < 2 + al {
        // 0xff is reserved
        return if al == 255 { V::Any } else { V::No };
    }
    let mut recs = vec![];
    let mut n = 0;
    let mut i = 2;
    let mut weak = al == 255;
    while i < 2 + al {
        if i + 2 > 2 + al || i + 2 + d[i + 1] as usize > 2 + al {
            return if al == 255 { V::Any } else { V::No };
        }
        if !known_info(d[i]) {
            weak = true;
        }
        let l = d[i + 1] as usize;
        recs.extend(f8(&d[i..i + 2 + l]));
        n += 1;
        i += 2 + l;
    }
    let mut f = vec![d[0] as u32, n];
    f.extend(recs);
    f.extend(f8(&d[2 + al..]));
    V::Yes(f).weak(weak)
}
fn cemi_f(c: &CEMI) -> F {
    let mut f = vec![c.msg_code as u32, c.additional_infos.len() as u32];
    for i in &c.additional_infos {
        let t = info_code(&i.info_type);
        f.extend([t, i.value.len() as u32]);
        f.extend(f8(&i.value));
    }
    f.extend(f8(&c.service_info));
    f
}
fn info_code(t: &CEMIAdditionalInfoType) -> u32 {
    use CEMIAdditionalInfoType as T;
    match t {
        T::PLMediumInfo => 1,
        T::RFMediumInfo => 2,
        T::BusmonitorStatusInfo => 3,
        T::TimestampRelative => 4,
        T::TimeDelayUnitlSending => 5,
        T::ExtendedRelativeTime => 6,
        T::BiBatInfo => 7,
        T::RFMultiInfo => 8,
        T::PreambleAndPostamble => 9,
        T::RFFastAckInfo => 10,
        T::ManufacturerSpecificData => 0xfe,
        #[allow(unreachable_patterns)]
        _ => 0xffff,
    }
}
fn r_ind(b: &[u8]) -> V {
    if b.len() < 9 {
        return V::No;
    }
    let l = b[6] as usize;
    if l == 0 || l == 255 {
        return V::Any;
    }
    let mut f = flags(b);
    f.push(if b[7] & 0x80 == 0 { (u16at(b, 7) >> 6 & 15) as u32 } else { 0 });
    if l == 1 {
        f.push((b[8] & 0x3f) as u32);
        return V::Yes(f).weak(b.len() != 9);
    }
    if b.len() < 8 + l {
        return V::No;
    }
    f.extend(f8(&b[9..8 + l]));
    V::Yes(f).weak(b.len() != 8 + l)
}
fn flags(b: &[u8]) -> F {
    vec![
        u16at(b, 2) as u32,
        u16at(b, 4) as u32,
        (b[0] & 0x80 != 0) as u32,
        (b[0] & 0x20 != 0) as u32,
        (b[0] & 0x10 != 0) as u32,
        (b[0] & 0x02 != 0) as u32,
    ]
}
fn l_data_f(l: &LData) -> F {
    vec![l.src as u32, l.dest as u32, l.frame_type as u32, l.repetition as u32, l.system_broadcast as u32, l.ack_request as u32]
}
fn r_con(b: &[u8]) -> V {
    if b.len() < 6 {
        return V::No;
    }
    let mut f = flags(b);
    f.push((b[0] & 1 == 0) as u32);
    V::Yes(f).weak(b.len() < 9)
}

// ------------------------------------------------------------------ checks of one byte string
fn same(what: &str, exp: &[u8], got: &[u8]) -> Result<(), String> {
    if exp != got {
        bad!("{what} encoded as {:02x?}, should be {:02x?}", short(got), short(exp));
    }
    Ok(())
}
fn k_hdr(d: &[u8]) -> R {
    let v = if r_hdr(d, None) { V::Yes(vec![u16at(d, 2) as u32, u16at(d, 4) as u32]) } else { V::No };
    let g = KnxNetIpHeader::from_packet(&mut cur(d)).map_err(er);
    if let (Ok(h), true) = (&g, d.len() >= 6) {
        same("header", &d[..6], &h.packet())?;
    }
    decide("header", d, v, g.map(|h| vec![h.service_type_identifier as u32, h.total_length as u32]))
}
fn k_hpai(d: &[u8]) -> R {
    let g = HPAI::from_packet(&mut cur(d)).map_err(er);
    if let (Ok(h), true) = (&g, d.len() >= 8) {
        same("endpoint", &d[..8], &h.packet())?;
    }
    decide("endpoint block", d, r_hpai(d), g.map(|h| hpai_f(&h)))
}
fn k_crd(d: &[u8]) -> R {
    let v = if d.len() < 4 || d[0] != 4 || d[1] != 4 { V::No } else { V::Yes(vec![4, 4, d[2] as u32, d[3] as u32]) };
    let g = CRD::from_packet(&mut cur(d)).map_err(er);
    decide("connection data block", d, v, g.map(|c| f8(&c.packet())))
}
fn k_connresp(d: &[u8]) -> R {
    let g = ConnectionResponse::from_packet(&mut cur(d)).map_err(er);
    let g = match g {
        Ok(r) => {
            let p = r.packet();
            if p.len() != 20 {
                bad!("connect response encoded with {} bytes", p.len());
            }
            let h = r.get_data_endpoint();
            let mut f = hpai_f(&h);
            f.extend([r.get_communication_channel_id() as u32, r.get_status() as u32, u16at(&p, 18) as u32]);
            let mut e = vec![6, 0x10, 2, 6, 0, 20, f[6] as u8, f[7] as u8];
            e.extend(h.packet());
            e.extend([4, 4, p[18], p[19]]);
            same("connect response", &e, &p)?;
            // requests derived from the response
            let mut e = vec![6, 0x10, 2, 7, 0, 16, f[6] as u8, 0];
            e.extend(h.packet());
            same("connection-state request", &e, &ConnectionstateRequest::from_connection_response(&r).packet())?;
            e[3] = 9;
            same("disconnect request", &e, &DisconnectRequest::from_connection_response(&r).packet())?;
            Ok(f)
        }
        Err(e) => Err(e),
    };
    decide("connect response", d, r_connresp(d), g)
}
fn k_statereq(d: &[u8]) -> R {
    let g = ConnectionstateRequest::from_packet(&mut cur(d)).map_err(er);
    if let (Ok(r), true) = (&g, d.len() >= 16) {
        let mut e = vec![6, 0x10, 2, 7, 0, 16, r.communication_channel_id, 0];
        e.extend(&d[8..16]);
        same("connection-state request", &e, &r.packet())?;
    }
    decide(
        "connection-state request",
        d,
        r_chan_ep(d, 0x0207),
        g.map(|r| {
            let mut f = hpai_f(&r.control_endpoint);
            f.push(r.communication_channel_id as u32);
            f
        }),
    )
}
fn disc_f(r: &DisconnectRequest) -> Result<F, String> {
    let p = r.packet();
    if p.len() != 16 || p[..6] != [6, 0x10, 2, 9, 0, 16] || p[7] != 0 || p[8] != 8 {
        bad!("disconnect request encoded as {p:02x?}");
    }
    let mut f = f8(&p[9..14]);
    f.push(u16at(&p, 14) as u32);
    f.push(p[6] as u32);
    let a = DisconnectResponse::from_disconnect_request(r).packet();
    if a != [6, 0x10, 2, 10, 0, 8, p[6], 0] {
        bad!("response to disconnect request for channel {} is {a:02x?}", p[6]);
    }
    Ok(f)
}
fn k_discreq(d: &[u8]) -> R {
    let g = match DisconnectRequest::from_packet(&mut cur(d)) {
        Ok(r) => Ok(disc_f(&r)?),
        Err(e) => Err(er(e)),
    };
    decide("disconnect request", d, r_chan_ep(d, 0x0209), g)
}
fn k_stateresp(d: &[u8]) -> R {
    let g = ConnectionstateResponse::from_packet(&mut cur(d)).map_err(er);
    if let Ok(r) = &g {
        same("connection-state response", &[6, 0x10, 2, 8, 0, 8, r.communication_channel_id, r.status], &r.packet())?;
    }
    decide("connection-state response", d, r_chan_st(d, 0x0208), g.map(|r| vec![r.communication_channel_id as u32, r.status as u32]))
}
fn k_discresp(d: &[u8]) -> R {
    let g = DisconnectResponse::from_packet(&mut cur(d)).map_err(er);
    if let Ok(r) = &g {
        same("disconnect response", &[6, 0x10, 2, 10, 0, 8, r.communication_channel_id, r.status], &r.packet())?;
    }
    decide("disconnect response", d, r_chan_st(d, 0x020a), g.map(|r| vec![r.communication_channel_id as u32, r.status as u32]))
}
fn tunnel_f(r: &TunnelingRequest) -> Result<F, String> {
    let n = 10 + r.cemi.len();
    let mut e = vec![6, 0x10, 4, 0x20, (n >> 8) as u8, n as u8, 4, r.communication_channel_id, r.sequence_nr, 0];
    e.extend(&r.cemi);
    if n <= 65535 {
        same("tunnelling request", &e, &r.packet())?;
    }
    if r.get_cemi() != &r.cemi {
        bad!("payload of the tunnelling request reported differently");
    }
    let mut f = vec![r.communication_channel_id as u32, r.sequence_nr as u32];
    f.extend(f8(&r.cemi));
    Ok(f)
}
fn k_tunnel(d: &[u8]) -> R {
    let g = match TunnelingRequest::from_packet(&mut cur(d)) {
        Ok(r) => Ok(tunnel_f(&r)?),
        Err(e) => Err(er(e)),
    };
    decide("tunnelling request", d, r_tunnel(d), g)
}
fn ack_f(r: &TunnelingAck) -> Result<F, String> {
    same("tunnelling acknowledgement", &[6, 0x10, 4, 0x21, 0, 10, 4, r.communication_channel_id, r.sequence_nr, r.status], &r.packet())?;
    Ok(vec![r.communication_channel_id as u32, r.sequence_nr as u32, r.status as u32])
}
fn k_ack(d: &[u8]) -> R {
    let g = match TunnelingAck::from_packet(&mut cur(d)) {
        Ok(r) => Ok(ack_f(&r)?),
        Err(e) => Err(er(e)),
    };
    decide("tunnelling acknowledgement", d, r_ack(d), g)
}
fn feat_f(r: &FeatureResp) -> Result<F, String> {
    let e = [6, 0x10, 4, 0x23, 0, 13, 4, r.communication_channel_id, r.sequence_nr, 0, r.feature as u8, r.status, r.value];
    same("feature response", &e, &r.packet())?;
    Ok(vec![r.communication_channel_id as u32, r.sequence_nr as u32, r.feature as u8 as u32, r.status as u32, r.value as u32])
}
fn k_feat(d: &[u8]) -> R {
    let g = match FeatureResp::from_packet(&mut cur(d)) {
        Ok(r) => Ok(feat_f(&r)?),
        Err(e) => Err(er(e)),
    };
    decide("feature response", d, r_feat(d), g)
}
fn k_dispatch(d: &[u8]) -> R {
    let pre = |k: u32, v: V| {
        v.map(|f| {
            let mut r = vec![k];
            r.extend(f);
            r
        })
    };
    let v = if d.len() < 4 {
        V::No
    } else {
        match u16at(d, 2) {
            0x0420 => pre(1, r_tunnel(d)),
            0x0421 => pre(2, r_ack(d)),
            0x0423 => pre(3, r_feat(d)),
            0x020a => pre(4, r_chan_st(d, 0x020a)),
            0x0208 => pre(5, r_chan_st(d, 0x0208)),
            0x0209 => pre(6, r_chan_ep(d, 0x0209)),
            _ => V::No,
        }
    };
    let g = match parse_response(d.to_vec()) {
        Ok(TunnelingResponse::TunnelingRequest(r)) => Ok((1, tunnel_f(&r)?)),
        Ok(TunnelingResponse::TunnelingAck(r)) => Ok((2, ack_f(&r)?)),
        Ok(TunnelingResponse::FeatureResponse(r)) => Ok((3, feat_f(&r)?)),
        Ok(TunnelingResponse::DisconnectResponse(r)) => Ok((4, vec![r.communication_channel_id as u32, r.status as u32])),
        Ok(TunnelingResponse::ConnectionstateResponse(r)) => Ok((5, vec![r.communication_channel_id as u32, r.status as u32])),
        Ok(TunnelingResponse::DisconnectRequest(r)) => Ok((6, disc_f(&r)?)),
        #[allow(unreachable_patterns)]
        Ok(_) => Ok((99, vec![])),
        Err(e) => Err(er(e)),
    };
    decide(
        "received frame",
        d,
        v,
        g.map(|(k, f)| {
            let mut r = vec![k];
            r.extend(f);
            r
        }),
    )
}
/// reference encoding of a block
fn e_dib(ty: u8, data: &[u8]) -> Vec<u8> {
    let mut e = vec![(data.len() + 2) as u8, ty];
    e.extend(data);
    if e.len() % 2 == 1 {
        e.push(0);
    }
    e
}
/// encoded block against the reference; a padding octet at the end of an odd block may be counted or not
fn same_dib(what: &str, ty: u8, data: &[u8], got: &[u8]) -> Result<(), String> {
    let mut e = e_dib(ty, data);
    if data.len() % 2 == 1 {
        let counted = {
            let mut x = e.clone();
            x[0] = x[0].wrapping_add(1);
            x
        };
        if got == counted {
            return Ok(());
        }
        let bare = &e[..e.len() - 1];
        if got == bare {
            return Ok(());
        }
    }
    if e.len() > 255 {
        e[0] = got.first().copied().unwrap_or(0);
    }
    same(what, &e, got)
}
fn k_dib(d: &[u8]) -> R {
    let (v, n) = r_dib(d);
    let mut c = cur(d);
    let g = DIB::from_packet(&mut c).map_err(er);
    if let Ok(x) = &g {
        if let V::Yes(_) = v {
            same_dib("description block", d[1], &d[2..n], &x.packet())?;
            if x.structure_length() != d[0] {
                bad!("structure length {} reported for {:02x?}", x.structure_length(), short(d));
            }
        }
    }
    decide("description block", d, v, g.map(|x| dib_f(&x)))
}
fn k_searchreq(d: &[u8]) -> R {
    let v = if !r_hdr(d, Some(0x0201)) || d.len() < 14 { V::No } else { r_hpai(&d[6..14]).weak(d.len() != 14 || u16at(d, 4) != 14) };
    let g = SearchRequest::from_packet(&mut cur(d)).map_err(er);
    if let (Ok(r), true) = (&g, d.len() >= 14) {
        let mut e = vec![6, 0x10, 2, 1, 0, 14];
        e.extend(&d[6..14]);
        same("search request", &e, &r.packet())?;
    }
    decide(
        "search request",
        d,
        v,
        g.map(|r| {
            let p = r.packet();
            let mut f = f8(&p[7..12]);
            f.push(u16at(&p, 12) as u32);
            f
        }),
    )
}
fn k_searchresp(d: &[u8]) -> R {
    let v = r_searchresp(d);
    let g = SearchResponse::from_packet(&mut cur(d)).map_err(er);
    if let (Ok(r), V::Yes(_)) = (&g, &v) {
        same("search response", d, &r.packet())?;
    }
    decide(
        "search response",
        d,
        v,
        g.map(|r| {
            let mut f = hpai_f(&r.control_endpoint);
            f.extend(dib_f(&DIB::DeviceInformation(r.device_hardware.clone())));
            f.extend(dib_f(&DIB::SupportedServiceFamilies(r.supported_service_families.clone())));
            f
        }),
    )
}
fn k_cemi(d: &[u8]) -> R {
    decide("cEMI frame", d, r_cemi(d), CEMI::from_packet(&mut cur(d)).map_err(er).map(|c| cemi_f(&c)))
}
fn raw(b: &[u8]) -> CEMI {
    CEMI { msg_code: 0x29, additional_infos: vec![], service_info: b.to_vec() }
}
/// application service; a transport control frame has none
fn service(i: &LDataInd) -> u32 {
    if i.cemi.service_info.get(7).map_or(false, |b| b & 0x80 == 0) {
        i.apci as u32
    } else {
        0
    }
}
fn k_ind(b: &[u8]) -> R {
    let g = LDataInd::from_cemi(raw(b)).map_err(er);
    if let Ok(i) = &g {
        if i.cemi.msg_code != 0x29 || i.cemi.service_info != b || !i.cemi.additional_infos.is_empty() {
            bad!("indication carries a different cEMI frame than received: {:02x?}", i.cemi);
        }
    }
    decide(
        "indication",
        b,
        r_ind(b),
        g.map(|i| {
            let mut f = l_data_f(&i.l_data);
            f.push(service(&i));
            f.extend(f8(&i.value));
            f
        }),
    )
}
fn k_con(b: &[u8]) -> R {
    let g = LDataCon::from_cemi(raw(b)).map_err(er);
    decide(
        "confirmation",
        b,
        r_con(b),
        g.map(|i| {
            let mut f = l_data_f(&i.l_data);
            f.push(i.confirm as u32);
            f
        }),
    )
}
/// whole path: cEMI frame, then its indication / confirmation
fn k_path(d: &[u8]) -> R {
    k_cemi(d)?;
    let (V::Yes(_) | V::May(_)) = r_cemi(d) else { return Ok(false) };
    let Ok(c) = CEMI::from_packet(&mut cur(d)) else { return Ok(false) };
    let b = &d[2 + d[1] as usize..];
    let (code, infos) = (c.msg_code, c.additional_infos.len());
    if d[0] == CON {
        let g = LDataCon::from_cemi(c).map_err(er);
        decide(
            "confirmation",
            d,
            r_con(b),
            g.map(|i| {
                let mut f = l_data_f(&i.l_data);
                f.push(i.confirm as u32);
                f
            }),
        )
    } else {
        let g = LDataInd::from_cemi(c).map_err(er);
        if let Ok(i) = &g {
            if i.cemi.msg_code != code || i.cemi.additional_infos.len() != infos || i.cemi.service_info != b {
                bad!("indication carries a different cEMI frame than received: {:02x?}", i.cemi);
            }
        }
        decide(
            "indication",
            d,
            r_ind(b),
            g.map(|i| {
                let mut f = l_data_f(&i.l_data);
                f.push(service(&i));
                f.extend(f8(&i.value));
                f
            }),
        )
    }
}
fn k_values(d: &[u8]) -> R {
    let mut ok = false;
    if let Ok(x) = PdtKnxScaledValue::from_bytes(d) {
        ok = true;
        let _ = (x.get_value(), x.get_bytes(), x.is_small(), Pdt::<u8>::get_value(&x));
    }
    if let Ok(x) = PdtKnxInt::from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    if let Ok(x) = PdtKnxFloat::from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    if let Ok(x) = PdtKnxFloat::temp_from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    if let Ok(x) = PdtKnxByte::from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    if let Ok(x) = PdtKnxWord::from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    if let Ok(x) = PdtKnxULong::from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    if let Ok(x) = PdtKnxBit::from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    if let Ok(x) = PdtKnxB1U3::from_bytes(d) {
        let _ = (x.get_value(), x.get_bytes(), x.is_small());
    }
    Ok(ok)
}

// ------------------------------------------------------------------ input spaces
pub const ALPHA: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 16, 20, 32, 54, 0x11, 0x29, 0x2e, 0x7f, 0x80, 0xfe, 0xff];

fn dims(mut i: u64, d: &[u64]) -> Vec<u64> {
    let mut v = vec![0; d.len()];
    for k in (0..d.len()).rev() {
        v[k] = i % d[k];
        i /= d[k];
    }
    v
}
fn prod(d: &[u64]) -> u64 {
    d.iter().product()
}
/// all byte strings of length up to n
fn all_strings(name: &str, n: u32, chk: Chk) -> Part {
    let total: u64 = (0..=n).map(|k| 256u64.pow(k)).sum();
    bytes_part(
        &format!("{name}: every byte string of up to {n} bytes"),
        total,
        move |mut i| {
            let mut k = 0;
            while i >= 256u64.pow(k) {
                i -= 256u64.pow(k);
                k += 1;
            }
            i.to_be_bytes()[8 - k as usize..].to_vec()
        },
        chk,
    )
}
/// prefix followed by all strings up to n bytes over an alphabet
fn alpha_strings(name: &str, prefix: &[u8], alpha: &'static [u8], n: u32, chk: Chk) -> Part {
    let a = alpha.len() as u64;
    let total: u64 = (0..=n).map(|k| a.pow(k)).sum();
    let prefix = prefix.to_vec();
    bytes_part(
        &format!("{name}: {prefix:02x?} followed by every string of up to {n} of {a} octets"),
        total,
        move |mut i| {
            let mut k = 0;
            while i >= a.pow(k) {
                i -= a.pow(k);
                k += 1;
            }
            let mut v = prefix.clone();
            for j in (0..k).rev() {
                v.push(alpha[(i / a.pow(j) % a) as usize]);
            }
            v
        },
        chk,
    )
}
/// every single-octet change, every truncation with every single-octet change, every pair of changes
/// (all values when the frame is short), every extension by up to two octets
/// every combination of field values (as in the base, all 0, all 1, 0xff, low bit 1, counting)
fn fields(name: &str, base: Vec<u8>, lens: &'static [usize], from: usize, vals: u64, chk: Chk) -> Part {
    let n = lens.len() as u32;
    bytes_part(&format!("{name}: every combination of {vals} values of {n} fields"), vals.pow(n), move |i| {
        let mut v = base.clone();
        let (mut i, mut at) = (i, from);
        for l in lens {
            for (k, b) in v[at..at + l].iter_mut().enumerate() {
                match i % vals {
                    0 => (),
                    1 => *b = 0,
                    2 => *b = 0xff,
                    3 => *b = (k + 1 == *l) as u8,
                    _ => *b = 0x7f + k as u8,
                }
            }
            i /= vals;
            at += l;
        }
        v
    }, chk)
}
fn mutations(name: &str, bases: Vec<Vec<u8>>, chk: Chk, thorough: bool) -> Vec<Part> {
    let mut out = vec![];
    for (bi, b) in bases.into_iter().enumerate() {
        let n = b.len() as u64;
        let (b1, b2, b3, b4, b5) = (b.clone(), b.clone(), b.clone(), b.clone(), b.clone());
        let nm = format!("{name} base {bi} ({n} bytes)");
        out.push(bytes_part(
            &format!("{nm}: every truncation with every single-octet change"),
            (n + 1) * (n.max(1)) * 256,
            move |i| {
                let x = dims(i, &[n + 1, n.max(1), 256]);
                let mut v = b1.clone();
                if let Some(p) = v.get_mut(x[1] as usize) {
                    *p = x[2] as u8;
                }
                v.truncate(x[0] as usize);
                v
            },
            chk,
        ));
        let pairs = n * (n.saturating_sub(1)) / 2;
        let pick = move |mut k: u64| {
            let mut i = 0;
            while k >= n - 1 - i {
                k -= n - 1 - i;
                i += 1;
            }
            (i as usize, (i + 1 + k) as usize)
        };
        if n <= 24 || (thorough && n <= 100) {
            out.push(bytes_part(
                &format!("{nm}: every change of two octets"),
                pairs * 65536,
                move |i| {
                    let x = dims(i, &[pairs, 256, 256]);
                    let (p, q) = pick(x[0]);
                    let mut v = b2.clone();
                    v[p] = x[1] as u8;
                    v[q] = x[2] as u8;
                    v
                },
                chk,
            ));
        } else {
            let a = ALPHA.len() as u64;
            out.push(bytes_part(
                &format!("{nm}: every change of two octets to one of {a} values"),
                pairs * a * a,
                move |i| {
                    let x = dims(i, &[pairs, a, a]);
                    let (p, q) = pick(x[0]);
                    let mut v = b3.clone();
                    v[p] = ALPHA[x[1] as usize];
                    v[q] = ALPHA[x[2] as usize];
                    v
                },
                chk,
            ));
        }
        out.push(bytes_part(
            &format!("{nm}: every extension by up to two octets, with every size field"),
            (1 + 256 + 65536) + 65536 * 4,
            move |i| {
                let mut v = b4.clone();
                if i < 1 + 256 + 65536 {
                    match i {
                        0 => (),
                        1..=256 => v.push((i - 1) as u8),
                        _ => v.extend(((i - 257) as u16).to_be_bytes()),
                    }
                } else {
                    let j = i - (1 + 256 + 65536);
                    if v.len() >= 6 {
                        v[4..6].copy_from_slice(&((j / 4) as u16).to_be_bytes());
                    }
                    v.extend(vec![0xa5; [0usize, 1, 3, 300][(j % 4) as usize]]);
                }
                v
            },
            chk,
        ));
        if n <= 40 {
            // three octets over a small alphabet, anywhere
            const SM: &[u8] = &[0, 1, 4, 6, 8, 0x10, 0x7f, 0xff];
            let tr = n * (n.saturating_sub(1)) * (n.saturating_sub(2)) / 6;
            let mut idx = vec![];
            for p in 0..n as usize {
                for q in p + 1..n as usize {
                    for r in q + 1..n as usize {
                        idx.push((p as u8, q as u8, r as u8));
                    }
                }
            }
            assert_eq!(idx.len() as u64, tr);
            out.push(bytes_part(
                &format!("{nm}: every change of three octets to one of 8 values"),
                tr * 512,
                move |i| {
                    let x = dims(i, &[tr, 8, 8, 8]);
                    let (p, q, r) = idx[x[0] as usize];
                    let mut v = b5.clone();
                    v[p as usize] = SM[x[1] as usize];
                    v[q as usize] = SM[x[2] as usize];
                    v[r as usize] = SM[x[3] as usize];
                    v
                },
                chk,
            ));
        }
    }
    out
}

// ------------------------------------------------------------------ base frames
const EP: Hpai = [8, 1, 10, 9, 8, 7, 0x0e, 0x57];
const EP2: Hpai = [8, 2, 0, 255, 128, 1, 0xff, 0];
fn b_connresp() -> Vec<Vec<u8>> {
    vec![connect_resp(7, 0, &EP, 0x1101), connect_resp(255, 0, &EP2, 0xffff), connect_err(0x24)]
}
fn state_req(ch: u8, ep: &Hpai) -> Vec<u8> {
    let mut b = vec![ch, 0];
    b.extend_from_slice(ep);
    hdr(0x0207, &b)
}
fn b_dibs() -> Vec<Vec<u8>> {
    let mut di = vec![54, 1, 0x20, 1, 0x11, 0x02, 0x01, 0x23];
    di.extend([1, 2, 3, 4, 5, 6, 224, 0, 23, 12, 0x45, 0x49, 0x42, 0x6e, 0x65, 0x74]);
    let mut nm = b"M\xe4 HOME\x00x".to_vec();
    nm.resize(30, 0);
    di.extend(nm);
    let mut ka = vec![10, 5, 0x11, 0x01, 0x12, 0x34, 0xff, 0xff, 0x00, 0x00];
    ka[0] = ka.len() as u8;
    vec![
        di,
        vec![10, 2, 2, 1, 3, 1, 4, 2, 5, 1],
        vec![2, 2],
        vec![16, 3, 192, 168, 1, 2, 255, 255, 255, 0, 192, 168, 1, 1, 3, 4],
        vec![20, 4, 192, 168, 1, 2, 255, 255, 255, 0, 192, 168, 1, 1, 10, 0, 0, 1, 4, 0],
        ka,
        vec![4, 5, 0x11, 0x01],
        vec![9, 0xfe, 0x00, 0xc5, 1, 2, 3, 4, 5],
        vec![4, 0xfe, 0x00, 0xc5],
    ]
}
fn b_search() -> Vec<Vec<u8>> {
    vec![search_resp(3, 4), search_resp(0, 0)]
}
fn b_cemi() -> Vec<Vec<u8>> {
    vec![
        ind(0x110b, 0x0a01, A_WRITE, &Val::Small(0x2a)),
        ind(0x110b, 0x0a01, A_RESP, &Val::Big(vec![0x0c, 0x33])),
        con(0x0901, true, A_WRITE, &Val::Small(1)),
        cemi(BUSMON, &[3, 1, 0x80, 4, 2, 0x12, 0x34], 0xbc, 0xd0, 0xffff, 0x0001, A_WRITE, &Val::Big(vec![0xff, 0, 0x80, 1])),
        cemi(IND, &[0xfe, 0], 0x3c, 0xe0, 0, 0, A_READ, &Val::Small(0)),
    ]
}
fn big(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(n as u8)).collect()
}

// ------------------------------------------------------------------ the properties
pub fn parts(id: &str, t: bool) -> Vec<Part> {
    match id {
        "C01" => c01(t),
        "C02" => c02(t),
        "C03" => c03(t),
        "C04" => c04(t),
        "C05" => c05(t),
        "C06" => c06(t),
        "C07" => c07(t),
        "C08" => c08(t),
        "C09" => c09(t),
        "C10" => c10(t),
        _ => vec![],
    }
}

fn decoders() -> Vec<(&'static str, Chk)> {
    vec![
        ("header", k_hdr),
        ("endpoint block", k_hpai),
        ("connection data block", k_crd),
        ("connect response", k_connresp),
        ("connection-state request", k_statereq),
        ("connection-state response", k_stateresp),
        ("disconnect request", k_discreq),
        ("disconnect response", k_discresp),
        ("tunnelling request", k_tunnel),
        ("tunnelling acknowledgement", k_ack),
        ("feature response", k_feat),
        ("received frame", k_dispatch),
        ("description block", k_dib),
        ("search request", k_searchreq),
        ("search response", k_searchresp),
        ("cEMI", k_path),
        ("indication", k_ind),
        ("confirmation", k_con),
        ("datapoint value", k_values),
    ]
}
/// every decoder on one input; only crashes and memory count
fn all_decoders(d: &[u8]) -> R {
    let mut ok = false;
    for (_, k) in decoders_static() {
        ok |= k(d).unwrap_or(true);
    }
    Ok(ok)
}
fn decoders_static() -> &'static [(&'static str, Chk)] {
    static D: std::sync::OnceLock<Vec<(&'static str, Chk)>> = std::sync::OnceLock::new();
    D.get_or_init(decoders)
}
fn block_decoders(l: u8, d: &[u8]) -> bool {
    let mut ok = DeviceInformationDIB::from_packet(&mut cur(d), l).is_ok();
    ok |= SupportedServiceFamiliesDIB::from_packet(&mut cur(d), l).is_ok();
    ok |= IpConfigDIB::from_packet(&mut cur(d), l).is_ok();
    ok |= IpCurrentConfigDIB::from_packet(&mut cur(d), l).is_ok();
    ok |= KNXAddressesDIB::from_packet(&mut cur(d), l).is_ok();
    ok |= ManufacturerDataDIB::from_packet(&mut cur(d), l).is_ok();
    ok
}

fn c01(t: bool) -> Vec<Part> {
    let mut p = vec![];
    p.push(all_strings("all decoders", if t { 3 } else { 2 }, all_decoders));
    if !t {
        p.push(bytes_part(
            "all decoders: every string of three octets whose first is one of 24",
            24 * 65536,
            |i| vec![ALPHA[(i / 65536) as usize], (i >> 8) as u8, i as u8],
            all_decoders,
        ));
    }
    for svc in [0x0201u16, 0x0202, 0x0206, 0x0207, 0x0208, 0x0209, 0x020a, 0x0420, 0x0421, 0x0423] {
        let h = [6, 0x10, (svc >> 8) as u8, svc as u8];
        const A10: &[u8] = &[0, 1, 4, 6, 8, 0x10, 0x29, 0x7f, 0x80, 0xff];
        p.push(alpha_strings("frame", &h, A10, if t { 6 } else { 4 }, all_decoders));
        // the size field, all values, on bodies of several lengths
        p.push(bytes_part(
            &format!("frame {svc:04x}: every size field and body length"),
            65536 * 8,
            move |i| {
                let mut v = h.to_vec();
                v.extend(((i / 8) as u16).to_be_bytes());
                v.extend(vec![4u8; [0, 1, 2, 3, 4, 7, 20, 100][(i % 8) as usize]]);
                v
            },
            all_decoders,
        ));
    }
    let mut bases = b_connresp();
    bases.push(state_req(1, &EP));
    bases.push(state_resp(1, 0x21));
    bases.push(disc_req(1, &EP));
    bases.push(disc_resp(1, 0));
    bases.push(tunnel(1, 2, &b_cemi()[1]));
    bases.push(tunnel(1, 2, &b_cemi()[3]));
    bases.push(ack(1, 2, 0));
    bases.push(feat_resp(1, 2, 8, 0, 1));
    bases.extend(b_dibs());
    bases.extend(b_search());
    bases.extend(b_cemi());
    for (bi, b) in bases.into_iter().enumerate() {
        let n = b.len() as u64;
        let b2 = b.clone();
        p.push(bytes_part(
            &format!("all decoders, base {bi} ({n} bytes): every truncation with every single-octet change"),
            (n + 1) * n * 256,
            move |i| {
                let x = dims(i, &[n + 1, n, 256]);
                let mut v = b.clone();
                v[x[1] as usize] = x[2] as u8;
                v.truncate(x[0] as usize);
                v
            },
            all_decoders,
        ));
        let m = n.min(if t { 40 } else { 16 });
        let a = ALPHA.len() as u64;
        p.push(bytes_part(
            &format!("all decoders, base {bi}: every change of two of the first {m} octets to one of {a} values"),
            m * m * a * a,
            move |i| {
                let x = dims(i, &[m, m, a, a]);
                let mut v = b2.clone();
                v[x[0] as usize] = ALPHA[x[2] as usize];
                v[x[1] as usize] = ALPHA[x[3] as usize];
                v
            },
            all_decoders,
        ));
    }
    // blocks decoded with an explicit structure length
    p.push(part("blocks: every structure length and body length", 256 * 300 * 3, |i| {
        let x = dims(i, &[256, 300, 3]);
        let v = vec![[0u8, 2, 255][x[2] as usize]; x[1] as usize];
        Ok(block_decoders(x[0] as u8, &v))
    }));
    // cEMI additional-info shapes
    p.push(bytes_part(
        "cEMI: every additional-info length, record type and record length, several frame lengths",
        256 * 12 * 256 * 6,
        |i| {
            let x = dims(i, &[256, 12, 256, 6]);
            let mut v = vec![0x29, x[0] as u8, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xfe, 0][x[1] as usize], x[2] as u8];
            v.extend(vec![1u8; [0, 1, 8, 100, 255, 520][x[3] as usize]]);
            v
        },
        k_path_quiet,
    ));
    // large inputs
    p.push(part("all decoders: inputs of up to 70000 octets of one value", 256 * 24, |i| {
        let v = vec![(i % 256) as u8; [0usize, 1, 2, 7, 8, 9, 16, 20, 54, 78, 255, 256, 257, 300, 511, 512, 513, 1024, 4096, 32768, 65535, 65536, 65537, 70000][(i / 256) as usize]];
        all_decoders(&v)
    }));
    // text
    const CH: &[char] = &['0', '1', '9', '/', '.', '-', '+', ' ', 'a', 'é', '\u{0}', '٣'];
    let n = CH.len() as u64;
    let k = if t { 6 } else { 5 };
    p.push(shown(
        part(&format!("address text: every string of up to {k} of {n} characters"), (0..=k).map(|j| n.pow(j)).sum(), move |i| {
            let s = text(i, CH);
            let a = KnxAddress::try_from(s.as_str());
            let b = IndividualAddress::try_from(s.as_str());
            let c = Group3LevelAddress::try_from(s.as_str());
            Ok(a.is_ok() || b.is_ok() || c.is_ok())
        }),
        |i| format!("{:?}", text(i, CH)),
    ));
    p.push(part("address text: long numbers and many parts", 40 * 40 * 3, |i| {
        let x = dims(i, &[40, 40, 3]);
        let one = "9".repeat(x[0] as usize);
        let s = vec![one; x[1] as usize].join(["/", ".", "./"][x[2] as usize]);
        let a = KnxAddress::try_from(s.as_str());
        let _ = (IndividualAddress::try_from(s.as_str()), Group3LevelAddress::try_from(s.as_str()));
        Ok(a.is_ok())
    }));
    // constructors and encoders
    p.push(part("address constructors: every octet triple", if t { 1 << 24 } else { 1 << 21 }, move |i| {
        let i = if t { i } else { i * 8 + i % 8 };
        let (a, b, c) = ((i >> 16) as u8, (i >> 8) as u8, i as u8);
        let u = u16::from_be_bytes([b, c]);
        for x in [KnxAddress::individual(a, b, c), KnxAddress::group_3_level(a, b, c), KnxAddress::group_2_level(a, u), KnxAddress::group_1_level(u)] {
            let _ = x.to_u16();
            if i % 64 == 0 {
                let _ = format!("{x:?}");
                let m = LDataReqMessage::new(x, TPDU::t_data_group(APDU::group_value_read()));
                let _ = m.packet();
            }
        }
        Ok(true)
    }));
    p.push(part("encoders: values of up to 70000 octets, every priority", 2100, |i| {
        let n = if i < 1050 { i as usize } else { [255usize, 256, 257, 1000, 65525, 65526, 65535, 65536, 70000][(i % 9) as usize] };
        for small in [false, true] {
            let a = APDU::group_value_write(vec![0xff; n], small);
            let mut m = LDataReqMessage::new(KnxAddress::group_3_level(31, 7, 255), TPDU::t_data_group(a));
            m.set_priority(i as u8);
            let p = m.packet();
            let q = TunnelingRequest::new(1, 2, p);
            let _ = (q.packet(), format!("{q:?}").len());
        }
        let _ = DIB::ManufacturerData(ManufacturerDataDIB {
            structure_length: i as u8,
            description_type_code: DescriptionTypeCode::ManufacturerData,
            knx_manufacturer_id: i as u16,
            manufacturer_specific_data: vec![1; n],
        })
        .packet();
        let _ = DIB::SupportedServiceFamilies(SupportedServiceFamiliesDIB {
            structure_length: i as u8,
            description_type_code: DescriptionTypeCode::SupportedServiceFamilies,
            service_families: vec![ServiceFamily { service_family: 1, version: 2 }; n],
        })
        .packet();
        let _ = DIB::KNXAddresses(KNXAddressesDIB {
            structure_length: i as u8,
            description_type_code: DescriptionTypeCode::KNXAddresses,
            knx_individual_address: IndividualAddress::from_u16(i as u16),
            additional_individual_addresses: vec![IndividualAddress::from_u16(1); n],
        })
        .packet();
        Ok(true)
    }));
    p.push(part("device names of 0 to 200 characters of 8 kinds", 201 * 8, |i| {
        let s = ["a", "ä", "€", "\u{0}", "\u{7f}", "\u{80}", "\u{100}", "😀"][(i % 8) as usize].repeat((i / 8) as usize);
        Ok(device(i as u8, 2, &s).is_ok())
    }));
    p.push(part("datapoint constructors: every single-precision bit pattern in steps, every octet and word", if t { 1 << 26 } else { 1 << 22 }, move |i| {
        let b = if t { (i as u32) << 6 } else { (i as u32) << 10 };
        for x in [f32::from_bits(b), f32::from_bits(b | 0x3f), f32::from_bits(b ^ 0x8000_0000)] {
            let a = PdtKnxScaledValue::scaling(x);
            let _ = (a.get_value(), a.get_bytes());
            let a = PdtKnxFloat::general(x);
            let _ = (a.get_value(), a.get_bytes(), a.is_small());
            let _ = PdtKnxFloat::temp(x).get_bytes();
        }
        if i < 65536 {
            let v = i as u16;
            let a = PdtKnxInt::percent_v16(v as i16);
            let _ = (a.get_value(), a.get_bytes(), a.is_small());
            let _ = PdtKnxInt::value_2_count(v as i16).get_bytes();
            let _ = PdtKnxWord::general(v).is_small();
            let _ = PdtKnxULong::general(v as u32 * 65537).is_small();
            let _ = PdtKnxByte::general(v as u8).is_small();
            for bit in [false, true] {
                let _ = PdtKnxB1U3::dimming(bit, v as u8).get_bytes();
                let _ = PdtKnxB1U3::blinds(bit, v as u8).get_value();
            }
            let _ = PdtKnxB1U3::general(v as u8).get_value();
            let s = PdtKnxScaledValue::general(v as u8);
            let _ = (s.get_value(), s.is_small());
        }
        Ok(true)
    }));
    // every input of the other codec properties, whatever the result
    for id in ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"] {
        for q in parts(id, false) {
            let Part { name, n, f, show } = q;
            p.push(Part { name: format!("{id} inputs, {name}"), n, f: Box::new(move |i| Ok(f(i).unwrap_or(true))), show });
        }
    }
    p
}
fn k_path_quiet(d: &[u8]) -> R {
    Ok(k_path(d).unwrap_or(true))
}
fn text(mut i: u64, ch: &[char]) -> String {
    let n = ch.len() as u64;
    let mut k = 0u32;
    while i >= n.pow(k) {
        i -= n.pow(k);
        k += 1;
    }
    (0..k).rev().map(|j| ch[(i / n.pow(j) % n) as usize]).collect()
}

fn c02(t: bool) -> Vec<Part> {
    let mut p = vec![];
    for (name, k, n) in [
        ("header", k_hdr as Chk, 3),
        ("endpoint block", k_hpai, 2),
        ("connection data block", k_crd, 3),
        ("connect response", k_connresp, 2),
        ("connection-state request", k_statereq, 2),
        ("connection-state response", k_stateresp, 2),
        ("disconnect request", k_discreq, 2),
        ("disconnect response", k_discresp, 2),
    ] {
        p.push(all_strings(name, if t { 3 } else { n.min(2) }, k));
    }
    p.push(bytes_part("header: every service identifier with 24 total lengths", 65536 * 24, |i| {
        let s = ((i / 24) as u16).to_be_bytes();
        vec![6, 0x10, s[0], s[1], ALPHA[(i % 24) as usize], ALPHA[(i / 7 % 24) as usize]]
    }, k_hdr));
    p.push(part("header encoded: every identifier, lengths", 65536 * 16, |i| {
        let (s, l) = ((i / 16) as u16, ((i % 16) * 4369) as u16);
        let h = KnxNetIpHeader { service_type_identifier: s, total_length: l };
        let mut e = vec![6, 0x10];
        e.extend(s.to_be_bytes());
        e.extend(l.to_be_bytes());
        same("header", &e, &h.packet())?;
        Ok(true)
    }));
    // every channel x status, both ways
    p.push(bytes_part("connect response: every channel and status", 65536, |i| connect_resp((i >> 8) as u8, i as u8, &EP, 0x1101), k_connresp));
    p.push(bytes_part("connect error response: every channel and status", 65536, |i| hdr(0x0206, &[(i >> 8) as u8, i as u8]), k_connresp));
    p.push(bytes_part("connect response: every individual address", 65536, |i| connect_resp(1, 0, &EP, i as u16), k_connresp));
    for (name, k, f) in [("connection-state", k_stateresp as Chk, state_resp as fn(u8, u8) -> Vec<u8>), ("disconnect", k_discresp, disc_resp)] {
        p.push(bytes_part(&format!("{name} response: every channel and status"), 65536, move |i| f((i >> 8) as u8, i as u8), k));
    }
    p.push(part("responses encoded: every channel and status", 65536, |i| {
        let (ch, st) = ((i >> 8) as u8, i as u8);
        same("connection-state response", &state_resp(ch, st), &ConnectionstateResponse { communication_channel_id: ch, status: st }.packet())?;
        same("disconnect response", &disc_resp(ch, st), &DisconnectResponse { communication_channel_id: ch, status: st }.packet())?;
        Ok(true)
    }));
    // endpoints: every port, every value of each address octet pair
    p.push(bytes_part("endpoint block: every port and protocol", 65536 * 3, |i| {
        let q = ((i / 3) as u16).to_be_bytes();
        vec![8, (i % 3) as u8, 10, 9, 8, 7, q[0], q[1]]
    }, k_hpai));
    p.push(part("endpoints in requests: every pair of address octets, ports, channels", 6 * 65536, |i| {
        let x = dims(i, &[6, 256, 256]);
        let (a, b) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][x[0] as usize];
        let mut ip = [10u8, 20, 30, 40];
        ip[a] = x[1] as u8;
        ip[b] = x[2] as u8;
        let port = (i as u16).wrapping_mul(40503);
        let ch = (i % 251) as u8;
        let mut h = if i % 2 == 0 { HPAI::udp() } else { HPAI::tcp() };
        h.set_addr(SocketAddrV4::new(Ipv4Addr::from(ip), port));
        let mut e = hpai(ip, port);
        e[1] = 1 + (i % 2) as u8;
        same("endpoint", &e, &h.packet())?;
        let d = state_req(ch, &e);
        same("connection-state request", &d, &ConnectionstateRequest::new(ch, h.clone()).packet())?;
        k_statereq(&d)?;
        let d = disc_req(ch, &e);
        same("disconnect request", &d, &DisconnectRequest::new(ch, h.clone()).packet())?;
        k_discreq(&d)?;
        k_connresp(&connect_resp(ch, 0, &e, port))?;
        Ok(true)
    }));
    p.push(part("endpoints in requests: every channel with ports", 65536, |i| {
        let (ch, e) = ((i >> 8) as u8, hpai([1, 2, 3, i as u8], i as u16));
        let mut h = HPAI::udp();
        h.set_addr(SocketAddrV4::new(Ipv4Addr::new(1, 2, 3, i as u8), i as u16));
        same("connection-state request", &state_req(ch, &e), &ConnectionstateRequest::new(ch, h.clone()).packet())?;
        same("disconnect request", &disc_req(ch, &e), &DisconnectRequest::new(ch, h).packet())?;
        Ok(true)
    }));
    p.push(part("connect requests and request blocks", 5, |i| {
        let z = [8, 1, 0, 0, 0, 0, 0, 0];
        let full = |l: u8| {
            let mut b = z.to_vec();
            b.extend(z);
            b.extend([4, 4, l, 0]);
            hdr(0x0205, &b)
        };
        match i {
            0 => same("connect request", &full(2), &ConnectionRequest::tunnel().packet())?,
            1 => same("connect request", &full(0x80), &ConnectionRequest::busmonitor().packet())?,
            2 => same("connection request block", &[4, 4, 2, 0], &CRI::tunnel_linklayer().packet())?,
            3 => same("connection request block", &[4, 4, 4, 0], &CRI::tunnel_raw().packet())?,
            _ => same("connection request block", &[4, 4, 0x80, 0], &CRI::tunnel_busmonitor().packet())?,
        }
        Ok(true)
    }));
    p.push(fields("connect response", connect_resp(7, 0, &EP, 0x1101), &[1, 1, 1, 1, 4, 2, 1, 1, 2], 6, if t { 5 } else { 4 }, k_connresp));
    p.push(fields("connection-state request", state_req(9, &EP), &[1, 1, 1, 1, 1, 1, 1, 1, 2], 6, 4, k_statereq));
    p.push(fields("disconnect request", disc_req(9, &EP2), &[1, 1, 1, 1, 1, 1, 1, 1, 2], 6, 4, k_discreq));
    p.extend(mutations("header", vec![vec![6, 0x10, 2, 5, 0, 26]], k_hdr, t));
    p.extend(mutations("endpoint block", vec![EP.to_vec(), EP2.to_vec()], k_hpai, t));
    p.extend(mutations("connection data block", vec![vec![4, 4, 0x11, 1]], k_crd, t));
    p.extend(mutations("connect response", b_connresp(), k_connresp, t));
    p.extend(mutations("connection-state request", vec![state_req(9, &EP)], k_statereq, t));
    p.extend(mutations("disconnect request", vec![disc_req(9, &EP2)], k_discreq, t));
    p.extend(mutations("connection-state response", vec![state_resp(9, 0x21)], k_stateresp, t));
    p.extend(mutations("disconnect response", vec![disc_resp(9, 0)], k_discresp, t));
    p
}

fn c03(t: bool) -> Vec<Part> {
    let mut p = vec![];
    for (name, k) in [("tunnelling request", k_tunnel as Chk), ("tunnelling acknowledgement", k_ack), ("feature response", k_feat), ("received frame", k_dispatch)] {
        p.push(all_strings(name, if t { 3 } else { 2 }, k));
    }
    p.push(bytes_part("tunnelling request: every channel and sequence number", 65536, |i| tunnel((i >> 8) as u8, i as u8, &[0x29, 0, 1, 2]), k_tunnel));
    p.push(part("tunnelling request encoded: every channel and sequence number", 65536, |i| {
        let (c, s) = ((i >> 8) as u8, i as u8);
        same("tunnelling request", &tunnel(c, s, &[9, s, c]), &TunnelingRequest::new(c, s, vec![9, s, c]).packet())?;
        Ok(true)
    }));
    let m = if t { 65525 } else { 3000 };
    p.push(part("tunnelling request: every payload length, both ways", m + 1, |i| {
        let b = big(i as usize);
        let d = tunnel(3, 4, &b);
        same("tunnelling request", &d, &TunnelingRequest::new(3, 4, b).packet())?;
        k_tunnel(&d)?;
        k_dispatch(&d)
    }));
    p.push(bytes_part("tunnelling request: every size field on 12 frame lengths", 65536 * 12, |i| {
        let mut d = tunnel(3, 4, &big([0usize, 1, 2, 3, 5, 9, 20, 54, 200, 245, 246, 300][(i % 12) as usize]));
        d[4..6].copy_from_slice(&((i / 12) as u16).to_be_bytes());
        d
    }, k_tunnel));
    p.push(bytes_part("tunnelling request: every declared and actual payload length up to 300", 301 * 301, |i| {
        let mut d = tunnel(3, 4, &big((i / 301) as usize));
        d[4..6].copy_from_slice(&((i % 301) as u16 + 10).to_be_bytes());
        d
    }, k_dispatch));
    p.push(bytes_part("acknowledgement: every channel, sequence number and status", 1 << 24, |i| ack((i >> 16) as u8, (i >> 8) as u8, i as u8), k_ack));
    p.push(part("acknowledgement encoded: every channel, sequence number and status", 1 << 24, |i| {
        let (c, s, x) = ((i >> 16) as u8, (i >> 8) as u8, i as u8);
        if TunnelingAck::new(c, s, x).packet() != [6, 0x10, 4, 0x21, 0, 10, 4, c, s, x] {
            bad!("acknowledgement ({c},{s},{x}) encoded as {:02x?}", TunnelingAck::new(c, s, x).packet());
        }
        Ok(true)
    }));
    p.push(bytes_part("feature response: every feature, status and value", 1 << 24, |i| feat_resp(9, 8, (i >> 16) as u8, (i >> 8) as u8, i as u8), k_feat));
    p.push(bytes_part("feature response: every channel and sequence number", 65536, |i| feat_resp((i >> 8) as u8, i as u8, 8, 0, 1), k_feat));
    p.push(part("feature set encoded: every feature, value, channel (sequence derived)", 4 * 65536, |i| {
        let x = dims(i, &[4, 256, 256]);
        let f = [KnxIpFeature::MaskVersion, KnxIpFeature::IndividualAddress, KnxIpFeature::MaxApduLength, KnxIpFeature::InfoServiceEnable][x[0] as usize];
        let code = [2u8, 6, 7, 8][x[0] as usize];
        let (v, c) = (x[1] as u8, x[2] as u8);
        let s = v.wrapping_mul(3).wrapping_add(c);
        same("feature set", &[6, 0x10, 4, 0x24, 0, 13, 4, c, s, 0, code, 0, v], &FeatureSet::new(c, s, f, v).packet())?;
        let r = FeatureResp { feature: f, value: v, status: s, communication_channel_id: c, sequence_nr: v };
        same("feature response", &feat_resp(c, v, code, s, v), &r.packet())?;
        Ok(true)
    }));
    // dispatch: every service identifier on bodies that fit some kind
    p.push(bytes_part("dispatch: every service identifier on 8 bodies", 65536 * 8, |i| {
        let svc = (i / 8) as u16;
        let bodies: [&[u8]; 8] = [&[4, 1, 2, 0], &[1, 0], &[4, 1, 2, 0, 8, 0, 1], &[1, 0, 8, 1, 10, 9, 8, 7, 1, 2], &[], &[4, 1, 2, 0, 0x29, 0, 0xbc], &[7, 0x21], &[4, 9, 9, 9]];
        hdr(svc, bodies[(i % 8) as usize])
    }, k_dispatch));
    let ok = vec![
        tunnel(7, 8, &b_cemi()[1]),
        tunnel(7, 8, &[]),
        ack(7, 8, 0),
        feat_resp(7, 8, 8, 0, 1),
        disc_resp(7, 0),
        state_resp(7, 0x26),
        disc_req(7, &EP),
    ];
    p.push(fields("received tunnelling request", ok[0].clone(), &[1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1], 6, if t { 4 } else { 3 }, k_dispatch));
    p.push(fields("received feature response", ok[3].clone(), &[1, 1, 1, 1, 1, 1, 1], 6, 5, k_dispatch));
    p.push(fields("received disconnect request", ok[6].clone(), &[1, 1, 1, 1, 4, 2], 6, 5, k_dispatch));
    p.extend(mutations("received frame", ok, k_dispatch, t));
    p.extend(mutations("tunnelling request", vec![tunnel(7, 8, &[1, 2, 3])], k_tunnel, t));
    p.extend(mutations("acknowledgement", vec![ack(7, 8, 0)], k_ack, t));
    p.extend(mutations("feature response", vec![feat_resp(7, 8, 8, 0, 1)], k_feat, t));
    p
}

fn device(x: u8, l: u8, name: &str) -> Result<DeviceInformationDIB, String> {
    DeviceInformationDIB::new(
        l,
        [KnxMedium::TP1, KnxMedium::PL110, KnxMedium::RF, KnxMedium::IP][(x % 4) as usize],
        if x & 4 != 0 { DeviceStatus::PROGRAMMING_MODE } else { DeviceStatus::empty() },
        IndividualAddress::from_u16(x as u16 * 257),
        (x as u16).wrapping_mul(259),
        [x, 1, 2, 3, 4, x ^ 0xff],
        Ipv4Addr::new(224, x, 23, 12),
        [x ^ 0xff, 9, 8, 7, 6, x],
        name.to_string(),
    )
    .map_err(er)
}
fn k_device(x: u8, name: &str) -> R {
    let latin = name.chars().all(|c| (c as u32) < 256);
    let n = name.chars().count();
    match device(x, 54, name) {
        Ok(d) => {
            if !latin || n > 30 {
                bad!("a name of {n} characters (Latin-1: {latin}) was accepted: {name:?}");
            }
            let mut nm: Vec<u8> = name.chars().map(|c| c as u32 as u8).collect();
            nm.resize(30, 0);
            let mut e = vec![[2u8, 3, 0x10, 0x20][(x % 4) as usize], (x & 4 != 0) as u8];
            e.extend((x as u16 * 257).to_be_bytes());
            e.extend(((x as u16).wrapping_mul(259)).to_be_bytes());
            e.extend([x, 1, 2, 3, 4, x ^ 0xff, 224, x, 23, 12, x ^ 0xff, 9, 8, 7, 6, x]);
            e.extend(&nm);
            let b = DIB::DeviceInformation(d.clone()).packet();
            same_dib("device information block", 1, &e, &b)?;
            match d.friendly_name() {
                Ok(s) if s.trim_end_matches('\0') == name.trim_end_matches('\0') => (),
                r => bad!("name {name:?} reads back as {r:?}"),
            }
            match DIB::from_packet(&mut cur(&b)) {
                Ok(DIB::DeviceInformation(g)) => match g.friendly_name() {
                    Ok(s) if s.trim_end_matches('\0') == name.trim_end_matches('\0') => (),
                    r => bad!("name {name:?} decodes to {r:?}"),
                },
                r => bad!("device information block decodes to {r:?}"),
            }
            k_dib(&b)?;
            Ok(true)
        }
        Err(e) => {
            if latin && n <= 30 {
                bad!("a Latin-1 name of {n} characters was refused: {name:?}: {e}");
            }
            Ok(false)
        }
    }
}

fn c04(t: bool) -> Vec<Part> {
    let mut p = vec![];
    p.push(all_strings("description block", if t { 3 } else { 2 }, k_dib));
    p.push(all_strings("search request", 2, k_searchreq));
    p.push(all_strings("search response", 2, k_searchresp));
    // every type, every length octet, every actual length
    p.push(bytes_part("description block: every length octet, type and actual length up to 260", 256 * 8 * 261, |i| {
        let x = dims(i, &[256, 8, 261]);
        let mut v = vec![x[0] as u8, [1u8, 2, 3, 4, 5, 0xfe, 0, 6][x[1] as usize]];
        v.extend(big(260));
        v[2] = 0x20;
        v[3] = 1;
        v.truncate(x[2] as usize);
        v
    }, k_dib));
    p.push(bytes_part("description block: every type octet", 256 * 8, |i| {
        let mut v = vec![[2u8, 4, 10, 16, 20, 54, 0, 255][(i % 8) as usize], (i / 8) as u8];
        v.extend(vec![2u8; 300]);
        v
    }, k_dib));
    p.push(bytes_part("device information: every medium and status octet", 65536, |i| {
        let mut v = b_dibs()[0].clone();
        v[2] = (i >> 8) as u8;
        v[3] = i as u8;
        v
    }, k_dib));
    for (o, nm) in [(4usize, "individual address"), (6, "project identifier"), (8, "serial number"), (14, "multicast address"), (16, "multicast address"), (18, "MAC address"), (22, "MAC address"), (52, "name")] {
        p.push(bytes_part(&format!("device information: every value of octets {o}, {} ({nm})", o + 1), 65536, move |i| {
            let mut v = b_dibs()[0].clone();
            v[o] = (i >> 8) as u8;
            v[o + 1] = i as u8;
            v
        }, k_dib));
    }
    p.push(part("device information: every name length, every Latin-1 character", 33 * 256, |i| {
        let c = char::from_u32((i % 256) as u32).unwrap();
        k_device(i as u8, &c.to_string().repeat((i / 256) as usize))
    }));
    p.push(part("device information: every Unicode character in a name", 0x110000, |i| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(false) };
        k_device(3, &format!("a{c}b"))
    }));
    p.push(part("device information: mixed names of every length", 33 * 33, |i| {
        let s: String = "ab".repeat((i / 33) as usize) + &"é".repeat((i % 33) as usize);
        k_device(i as u8, &s)
    }));
    p.push(part("service families: every list length, contents", 127 * 64, |i| {
        let (n, s) = ((i / 64) as usize, (i % 64) as u8);
        let v: Vec<ServiceFamily> = (0..n).map(|k| ServiceFamily { service_family: (k as u8).wrapping_mul(s | 1), version: s.wrapping_add(k as u8) }).collect();
        let mut e = vec![];
        for f in &v {
            e.extend([f.service_family, f.version]);
        }
        let b = DIB::SupportedServiceFamilies(SupportedServiceFamiliesDIB { structure_length: (2 + 2 * n) as u8, description_type_code: DescriptionTypeCode::SupportedServiceFamilies, service_families: v }).packet();
        same_dib("service families block", 2, &e, &b)?;
        k_dib(&b)
    }));
    p.push(part("KNX addresses: every list length, contents", 126 * 64, |i| {
        let (n, s) = ((i / 64) as usize, (i % 64) as u16);
        let a: Vec<u16> = (0..=n as u16).map(|k| k.wrapping_mul(4099).wrapping_add(s * 1021)).collect();
        let mut e = vec![];
        for f in &a {
            e.extend(f.to_be_bytes());
        }
        let b = DIB::KNXAddresses(KNXAddressesDIB {
            structure_length: (4 + 2 * n) as u8,
            description_type_code: DescriptionTypeCode::KNXAddresses,
            knx_individual_address: IndividualAddress::from_u16(a[0]),
            additional_individual_addresses: a[1..].iter().map(|x| IndividualAddress::from_u16(*x)).collect(),
        })
        .packet();
        same_dib("KNX addresses block", 5, &e, &b)?;
        k_dib(&b)
    }));
    p.push(part("KNX addresses: every address in both places", 65536, |i| {
        let b = [&[6u8, 5][..], &(i as u16).to_be_bytes(), &(i as u16 ^ 0x5aa5).to_be_bytes()].concat();
        k_dib(&b)
    }));
    p.push(part("manufacturer data: every length, contents", 252 * 64, |i| {
        let (n, s) = ((i / 64) as usize, (i % 64) as u16);
        let data = big(n);
        let id = s.wrapping_mul(1027);
        let mut e = id.to_be_bytes().to_vec();
        e.extend(&data);
        let b = DIB::ManufacturerData(ManufacturerDataDIB { structure_length: (4 + n) as u8, description_type_code: DescriptionTypeCode::ManufacturerData, knx_manufacturer_id: id, manufacturer_specific_data: data.clone() }).packet();
        same_dib("manufacturer data block", 0xfe, &e, &b)?;
        match DIB::from_packet(&mut cur(&b)) {
            Ok(DIB::ManufacturerData(g)) if g.knx_manufacturer_id == id && g.manufacturer_specific_data[..n.min(g.manufacturer_specific_data.len())] == data[..] => (),
            r => bad!("manufacturer data of {n} bytes decodes to {r:?}"),
        }
        k_dib(&e_dib_bare(0xfe, &e))
    }));
    p.push(part("IP configuration blocks: every pair of octets", 2 * 18 * 18 * 256, |i| {
        let x = dims(i, &[2, 18, 18, 256]);
        let n = if x[0] == 0 { 14 } else { 18 };
        let mut e = big(n);
        if let Some(b) = e.get_mut(x[1] as usize) {
            *b = x[3] as u8;
        }
        if let Some(b) = e.get_mut(x[2] as usize) {
            *b = (x[3] as u8).wrapping_mul(171);
        }
        let ip = |k: usize| Ipv4Addr::new(e[k], e[k + 1], e[k + 2], e[k + 3]);
        let b = if x[0] == 0 {
            DIB::IpConfig(IpConfigDIB { structure_length: 16, description_type_code: DescriptionTypeCode::IpConfig, ip_address: ip(0), subnet_mask: ip(4), default_gateway: ip(8), ip_capabilities: e[12], ip_assignment_method: e[13] }).packet()
        } else {
            DIB::IpCurrentConfig(IpCurrentConfigDIB { structure_length: 20, description_type_code: DescriptionTypeCode::IpCurrentConfig, current_ip_address: ip(0), current_subnet_mask: ip(4), current_default_gateway: ip(8), dhcp_server: ip(12), current_ip_assignment_method: e[16], reserved: e[17] }).packet()
        };
        same_dib("IP configuration block", 3 + x[0] as u8, &e, &b)?;
        k_dib(&b)
    }));
    p.push(part("search requests: every port, address octets", 65536 * 4, |i| {
        let (q, k) = ((i / 4) as u16, i % 4);
        let mut ip = [192u8, 168, 3, 4];
        ip[k as usize] = (q >> 3) as u8;
        let r = SearchRequest::udp_unicast(SocketAddrV4::new(Ipv4Addr::from(ip), q));
        let d = hdr(0x0201, &hpai(ip, q));
        same("search request", &d, &r.packet())?;
        if i == 0 {
            same("search request", &hdr(0x0201, &hpai([224, 0, 23, 12], 3671)), &SearchRequest::udp().packet())?;
        }
        k_searchreq(&d)
    }));
    p.push(part("search responses: every number of service families, devices", 127 * 256, |i| {
        let (n, x) = ((i / 256) as usize, i as u8);
        let d = search_resp(x, n);
        k_searchresp(&d)
    }));
    p.push(part("search responses encoded and decoded", 64 * 256, |i| {
        let (n, x) = ((i / 256) as usize, i as u8);
        let mut h = HPAI::udp();
        h.set_addr(SocketAddrV4::new(Ipv4Addr::new(10, x, 2, 3), x as u16 * 255));
        let dev = device(x, 54, &format!("dev {x}"))?;
        let fam: Vec<ServiceFamily> = (0..n).map(|k| ServiceFamily { service_family: k as u8, version: x }).collect();
        let r = SearchResponse {
            control_endpoint: h,
            device_hardware: dev.clone(),
            supported_service_families: SupportedServiceFamiliesDIB { structure_length: (2 + 2 * n) as u8, description_type_code: DescriptionTypeCode::SupportedServiceFamilies, service_families: fam.clone() },
        };
        let mut b = hpai([10, x, 2, 3], x as u16 * 255).to_vec();
        b.extend([54, 1]);
        b.extend(dev.packet());
        b.extend([(2 + 2 * n) as u8, 2]);
        for f in &fam {
            b.extend([f.service_family, f.version]);
        }
        let d = hdr(0x0202, &b);
        same("search response", &d, &r.packet())?;
        k_searchresp(&d)
    }));
    // blocks in the wrong order or of the wrong type
    p.push(bytes_part("search responses: every pair of blocks", 81, |i| {
        let b = b_dibs();
        let mut v = EP.to_vec();
        v.extend(&b[(i / 9) as usize]);
        v.extend(&b[(i % 9) as usize]);
        hdr(0x0202, &v)
    }, k_searchresp));
    p.push(fields("device information", b_dibs()[0].clone(), &[1, 1, 2, 2, 6, 4, 6, 15, 15], 2, if t { 5 } else { 4 }, k_dib));
    p.push(fields("service families", b_dibs()[1].clone(), &[1, 1, 1, 1, 1, 1, 1, 1], 2, 5, k_dib));
    p.push(fields("IP configuration", b_dibs()[3].clone(), &[4, 4, 4, 1, 1], 2, 5, k_dib));
    p.push(fields("current IP configuration", b_dibs()[4].clone(), &[4, 4, 4, 4, 1, 1], 2, 5, k_dib));
    p.push(fields("KNX addresses", b_dibs()[5].clone(), &[2, 2, 2, 2], 2, 5, k_dib));
    p.push(fields("manufacturer data", b_dibs()[7].clone(), &[2, 1, 1, 1, 1, 1], 2, 5, k_dib));
    // (header and endpoint 8+6, device information 54, families 2 + 2n)
    p.push(fields("search response", search_resp(3, 2), &[4, 2, 2, 1, 1, 2, 2, 6, 4, 6, 30], 8, if t { 4 } else { 3 }, k_searchresp));
    p.extend(mutations("description block", b_dibs(), k_dib, t));
    p.extend(mutations("search request", vec![hdr(0x0201, &EP)], k_searchreq, t));
    p.extend(mutations("search response", b_search(), k_searchresp, t));
    p
}
fn e_dib_bare(ty: u8, data: &[u8]) -> Vec<u8> {
    let mut e = vec![(data.len() + 2) as u8, ty];
    e.extend(data);
    e
}

fn c05(t: bool) -> Vec<Part> {
    let mut p = vec![];
    p.push(all_strings("cEMI", if t { 3 } else { 2 }, k_path));
    p.push(bytes_part("indication: every control octet, length octet", 65536, |i| {
        let mut b = vec![(i >> 8) as u8, 0xe0, 0x11, 0x22, 0x0a, 0x01, i as u8, 0x00, 0x81];
        b.extend(big((i & 0xff).saturating_sub(1) as usize));
        b
    }, k_ind));
    p.push(bytes_part("indication: every source and control octet 2", 1 << 24, |i| vec![0xbc, (i >> 16) as u8, (i >> 8) as u8, i as u8, 0x0a, 0x01, 1, 0, 0x81], k_ind));
    p.push(bytes_part("indication: every destination", 65536 * 2, |i| {
        let mut b = vec![0xbc, 0xe0, 0x11, 0x22, (i >> 9) as u8, (i >> 1) as u8];
        b.extend(if i & 1 == 0 { vec![1, 0, 0x40] } else { vec![3, 0, 0x40, 7, 9] });
        b
    }, k_ind));
    p.push(bytes_part("indication: every application octet pair, compact and long", 65536 * 3, |i| {
        let x = dims(i, &[65536, 3]);
        let mut b = vec![0xbc, 0xe0, 0x11, 0x22, 0x0a, 0x01, 1 + x[1] as u8, (x[0] >> 8) as u8, x[0] as u8];
        b.extend(&[0xde, 0xad][..x[1] as usize]);
        b
    }, k_ind));
    p.push(bytes_part("indication: every two-octet value", 65536, |i| vec![0xbc, 0xe0, 0x11, 0x22, 0x0a, 0x01, 3, 0, 0x80, (i >> 8) as u8, i as u8], k_ind));
    p.push(bytes_part("indication: every declared and actual value length up to 300", 256 * 301, |i| {
        let mut b = vec![0xbc, 0xe0, 0x11, 0x22, 0x0a, 0x01, (i / 301) as u8, 0, 0x80];
        b.extend(big((i % 301) as usize));
        b
    }, k_ind));
    p.push(bytes_part("confirmation: every control octet and destination", 1 << 24, |i| vec![(i >> 16) as u8, 0xe0, 0x11, 0x01, (i >> 8) as u8, i as u8, 1, 0, 0x81], k_con));
    p.push(bytes_part("confirmation: every source and length", 65536 * 12, |i| {
        let x = dims(i, &[65536, 12]);
        let mut b = vec![0xbc, 0xe0, (x[0] >> 8) as u8, x[0] as u8, 9, 1, 3, 0, 0x80, 1, 2];
        b.truncate(x[1] as usize);
        b
    }, k_con));
    // additional info: every message code; one record of every type and length; two records
    p.push(bytes_part("cEMI: every message code, with and without additional info", 512, |i| {
        let info: &[u8] = if i & 1 == 0 { &[] } else { &[3, 1, 7] };
        cemi((i >> 1) as u8, info, 0xbc, 0xe0, 1, 2, A_WRITE, &Val::Big(vec![1, 2, 3]))
    }, k_path));
    p.push(bytes_part("cEMI: every record type and length, one record", 256 * 253, |i| {
        let (ty, n) = ((i / 253) as u8, (i % 253) as usize);
        let mut info = vec![ty, n as u8];
        info.extend(big(n));
        cemi(IND, &info, 0xbc, 0xe0, 0x1101, 0x0901, A_WRITE, &Val::Big(vec![0x12, 0x34]))
    }, k_path));
    p.push(bytes_part("cEMI: every total and record length, one record", 256 * 256 * 4, |i| {
        let x = dims(i, &[256, 256, 4]);
        let mut v = vec![[IND, CON][(x[2] % 2) as usize], x[0] as u8, 4, x[1] as u8];
        v.extend(big(if x[2] < 2 { 530 } else { 12 }));
        v
    }, k_path));
    let m = if t { 60 } else { 20 };
    p.push(bytes_part("cEMI: two records of every length, every total length around theirs", 11 * 11 * m * m * 5, move |i| {
        let x = dims(i, &[11, 11, m, m, 5]);
        let ty = |k: u64| if k == 10 { 0xfe } else { k as u8 + 1 };
        let mut info = vec![ty(x[0]), x[2] as u8];
        info.extend(big(x[2] as usize));
        info.extend([ty(x[1]), x[3] as u8]);
        info.extend(big(x[3] as usize));
        let mut c = cemi(IND, &info, 0xbc, 0xe0, 0x1101, 0x0901, A_RESP, &Val::Small(0x15));
        c[1] = (c[1] as i16 + x[4] as i16 - 2) as u8;
        c
    }, k_path));
    p.push(bytes_part("cEMI: every number of records of one length, every type", 11 * 13 * 128 * 2, |i| {
        let x = dims(i, &[11, 13, 128, 2]);
        let n = (x[2] as usize).min(255 / (x[1] as usize + 2));
        let mut info = vec![];
        for k in 0..n {
            let ty = (x[0] + x[3] * k as u64) % 11;
            info.extend([if ty == 10 { 0xfe } else { ty as u8 + 1 }, x[1] as u8]);
            info.extend((0..x[1]).map(|j| (k as u64 * 7 + j) as u8));
        }
        cemi(IND, &info, 0xbc, 0xe0, 0x1101, 0x0901, A_RESP, &Val::Big(vec![0x15, 0x16]))
    }, k_path));
    p.push(fields("indication", vec![0xbc, 0xe0, 0x11, 0x22, 0x0a, 0x01, 3, 0, 0x80, 5, 6], &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], 0, if t { 5 } else { 4 }, k_ind));
    p.push(fields("compact indication", vec![0xbc, 0xe0, 0x11, 0x22, 0x0a, 0x01, 1, 0, 0x95], &[1, 1, 1, 1, 1, 1, 1, 1, 1], 0, 5, k_ind));
    p.push(fields("confirmation", vec![0xbc, 0xe0, 0x11, 0x22, 0x0a, 0x01, 1, 0, 0x80], &[1, 1, 1, 1, 1, 1, 1, 1, 1], 0, 5, k_con));
    const A8: &[u8] = &[0, 1, 2, 3, 4, 0xfe, 0x29, 0xff];
    p.push(alpha_strings("cEMI", &[0x29], A8, if t { 8 } else { 6 }, k_path));
    p.push(alpha_strings("indication", &[0xbc, 0xe0, 0x11], A8, if t { 8 } else { 6 }, k_ind));
    p.extend(mutations("cEMI", b_cemi(), k_path, t));
    p
}

// ------------------------------------------------------------------ C06
fn k_req(what: &str, p: &[u8], group: bool, dst: u16, prio: u8, apci: u16, v: &Val) -> R {
    let l = apdu(apci, v);
    if p.len() != 8 + l.len() {
        bad!("{what}: request of {} bytes, should be {}: {:02x?}", p.len(), 8 + l.len(), short(p));
    }
    if p[0] != 0x11 || p[1] != 0 {
        bad!("{what}: not an L_Data request without additional info: {:02x?}", short(p));
    }
    if (p[2] >> 2) & 3 != prio {
        bad!("{what}: priority {} instead of {prio}: {:02x?}", (p[2] >> 2) & 3, short(p));
    }
    if (p[3] & 0x80 != 0) != group {
        bad!("{what}: address type bit wrong for {} address: {:02x?}", if group { "a group" } else { "an individual" }, short(p));
    }
    if u16at(p, 6) != dst {
        bad!("{what}: destination {:04x} instead of {dst:04x}", u16at(p, 6));
    }
    if p[8..] != l[..] {
        bad!("{what}: length and application data {:02x?} instead of {:02x?}", short(&p[8..]), short(&l));
    }
    Ok(true)
}
fn addr(form: u64, a: u16) -> (KnxAddress, bool) {
    match form {
        0 => (KnxAddress::individual((a >> 12) as u8, (a >> 8 & 15) as u8, a as u8), false),
        1 => (KnxAddress::group_1_level(a), true),
        2 => (KnxAddress::group_2_level((a >> 11) as u8, a & 0x7ff), true),
        _ => (KnxAddress::group_3_level((a >> 11) as u8, (a >> 8 & 7) as u8, a as u8), true),
    }
}
fn req(a: KnxAddress, ap: APDU) -> LDataReqMessage {
    LDataReqMessage::new(a, TPDU::t_data_group(ap))
}
fn pd<T>(what: &str, x: impl Pdt<T>, small: bool, bytes: &[u8]) -> R {
    if x.is_small() != small {
        bad!("{what}: compact form is {}", x.is_small());
    }
    let p = req(KnxAddress::group_3_level(1, 2, 3), APDU::group_value_write_pd(x)).packet();
    let v = if small { Val::Small(bytes[0]) } else { Val::Big(bytes.to_vec()) };
    k_req(what, &p, true, 0x0a03, 3, A_WRITE, &v)
}
fn c06(t: bool) -> Vec<Part> {
    let mut p = vec![];
    p.push(part("every destination in every address form, read and writes, every priority", 65536 * 4 * 3 * 4, |i| {
        let x = dims(i, &[65536, 4, 3, 4]);
        let (a, g) = addr(x[1], x[0] as u16);
        let (ap, apci, v) = match x[2] {
            0 => (APDU::group_value_read(), A_READ, Val::Small(0)),
            1 => (APDU::group_value_write(vec![x[0] as u8], true), A_WRITE, Val::Small(x[0] as u8)),
            _ => (APDU::group_value_write(vec![x[0] as u8, 0x80], false), A_WRITE, Val::Big(vec![x[0] as u8, 0x80])),
        };
        let mut m = req(a, ap);
        let mut pr = 3;
        if x[3] < 3 {
            pr = x[3] as u8;
            m.set_priority(pr);
        }
        k_req("request", &m.packet(), g, x[0] as u16, pr, apci, &v)
    }));
    p.push(part("every priority argument stays inside its two bits", 256, |i| {
        let mut m = req(KnxAddress::group_1_level(5), APDU::group_value_read());
        let base = m.packet();
        m.set_priority(i as u8);
        let q = m.packet();
        if (q[2] ^ base[2]) & !0x0c != 0 || q[3..] != base[3..] || q[..2] != base[..2] {
            bad!("priority {i} changes other fields: {q:02x?}");
        }
        if i < 4 && (q[2] >> 2) & 3 != i as u8 {
            bad!("priority {i} encoded as {}", (q[2] >> 2) & 3);
        }
        Ok(true)
    }));
    p.push(part("compact values: every octet, argument lengths 0 to 4", 256 * 5, |i| {
        let n = (i % 5) as usize;
        let mut d = vec![0x55; n];
        let v = (i / 5) as u8;
        if n > 0 {
            d[0] = v;
        }
        let q = req(KnxAddress::group_3_level(1, 2, 3), APDU::group_value_write(d, true)).packet();
        k_req("compact write", &q, true, 0x0a03, 3, A_WRITE, &Val::Small(if n > 0 { v } else { 0 }))
    }));
    p.push(part("long values: every length up to 253, every octet", 254 * 256, |i| {
        let d = vec![i as u8; (i / 256) as usize];
        let q = req(KnxAddress::group_2_level(1, 515), APDU::group_value_write(d.clone(), false)).packet();
        k_req("write", &q, true, 0x0a03, 3, A_WRITE, &Val::Big(d))
    }));
    p.push(part("long values: every two-octet value", 65536, |i| {
        let d = (i as u16).to_be_bytes().to_vec();
        let q = req(KnxAddress::group_2_level(1, 515), APDU::group_value_write(d.clone(), false)).packet();
        k_req("write", &q, true, 0x0a03, 3, A_WRITE, &Val::Big(d))
    }));
    p.push(part("datapoint values: compact exactly for types of at most six bits", 65536, |i| {
        let w = i as u16;
        pd("16-bit unsigned", PdtKnxWord::general(w), false, &w.to_be_bytes())?;
        pd("16-bit signed", PdtKnxInt::general(w as i16), false, &w.to_be_bytes())?;
        pd("pulses", PdtKnxInt::value_2_count(w as i16), false, &w.to_be_bytes())?;
        let u = w as u32 * 65537 ^ 0x00ff00;
        pd("32-bit", PdtKnxULong::general(u), false, &u.to_be_bytes())?;
        let f = PdtKnxFloat::general(w as f32 / 7.0 - 3000.0);
        let b = f.get_bytes();
        pd("2-byte float", f, false, &b)?;
        if w < 256 {
            let b = w as u8;
            pd("8-bit", PdtKnxByte::general(b), false, &[b])?;
            pd("scaling", PdtKnxScaledValue::general(b), false, &[b])?;
            let s = PdtKnxScaledValue::scaling(b as f32 / 2.0);
            let sb = s.get_bytes();
            pd("scaling", s, false, &sb)?;
            pd("1-bit", PdtKnxBit::general(b & 1 == 1), true, &[b & 1])?;
            pd("switch", PdtKnxBit::switch(b & 1 == 1), true, &[b & 1])?;
            if b < 16 {
                pd("3-bit control", PdtKnxB1U3::general(b), true, &[b])?;
                pd("dimming", PdtKnxB1U3::dimming(b & 8 != 0, b & 7), true, &[b])?;
                pd("blinds", PdtKnxB1U3::blinds(b & 8 != 0, b & 7), true, &[b])?;
            }
        }
        Ok(true)
    }));
    let _ = t;
    p
}

// ------------------------------------------------------------------ C07
/// reference: Some(Ok((form, address, canonical text))), Some(Err) must be refused, None either
enum A {
    Yes(u8, u16, String),
    May(u8, u16, String),
    No,
}
fn num(s: &str) -> Option<(u64, bool)> {
    let (plus, d) = match s.strip_prefix('+') {
        Some(r) => (true, r),
        None => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let n = d.trim_start_matches('0');
    if n.len() > 9 {
        return Some((u64::MAX, true));
    }
    let v = if n.is_empty() { 0 } else { n.parse().unwrap() };
    Some((v, plus || (d.len() > 1 && d.starts_with('0'))))
}
fn r_addr(s: &str) -> A {
    let ind = s.contains('.');
    let parts: Vec<&str> = s.split(if ind { '.' } else { '/' }).collect();
    let mut v = vec![];
    let mut odd = false;
    for p in &parts {
        match num(p) {
            Some((n, o)) => {
                v.push(n);
                odd |= o;
            }
            None => return A::No,
        }
    }
    let (form, val, txt) = match (ind, &v[..]) {
        (true, [a, b, c]) if *a <= 15 && *b <= 15 && *c <= 255 => (0, a << 12 | b << 8 | c, format!("{a}.{b}.{c}")),
        (false, [a]) if *a <= 65535 => (1, *a, format!("{a}")),
        (false, [a, b]) if *a <= 31 && *b <= 2047 => (2, a << 11 | b, format!("{a}/{b}")),
        (false, [a, b, c]) if *a <= 31 && *b <= 7 && *c <= 255 => (3, a << 11 | b << 8 | c, format!("{a}/{b}/{c}")),
        _ => return A::No,
    };
    if odd {
        A::May(form, val as u16, txt)
    } else {
        A::Yes(form, val as u16, txt)
    }
}
fn form(a: &KnxAddress) -> (u8, String) {
    match a {
        KnxAddress::Individual(x) => (0, format!("{x:?}")),
        KnxAddress::Group1Level(x) => (1, format!("{x:?}")),
        KnxAddress::Group2Level(x) => (2, format!("{x:?}")),
        KnxAddress::Group3Level(x) => (3, format!("{x:?}")),
    }
}
fn k_addr(s: &str) -> R {
    let r = r_addr(s);
    let mut acc = false;
    let mut one = |what: &str, got: Option<(u8, u16, String)>, only: Option<u8>| -> Result<(), String> {
        match (&r, got) {
            (A::Yes(f, v, t), Some(g)) | (A::May(f, v, t), Some(g)) => {
                if only.map_or(false, |o| o != *f) {
                    bad!("{what}: {s:?} accepted as another address form");
                }
                if (*f, *v) != (g.0, g.1) || *t != g.2 {
                    bad!("{what}: {s:?} gives form {} address {:#06x} text {:?}, should be {f} {v:#06x} {t:?}", g.0, g.1, g.2);
                }
                acc = true;
            }
            (A::Yes(f, ..), None) if only.map_or(true, |o| o == *f) => bad!("{what}: {s:?} is a valid address but was refused"),
            (A::No, Some(g)) => bad!("{what}: {s:?} is not a valid address but gives {:#06x}", g.1),
            _ => (),
        }
        Ok(())
    };
    let k = KnxAddress::try_from(s).ok();
    one(
        "address",
        k.map(|a| {
            let f = form(&a);
            (f.0, a.to_u16(), f.1)
        }),
        None,
    )?;
    one("individual address", IndividualAddress::try_from(s).ok().map(|a| (0, a.to_u16(), format!("{a:?}"))), Some(0))?;
    one("three-level address", Group3LevelAddress::try_from(s).ok().map(|a| (3, a.to_u16(), format!("{a:?}"))), Some(3))?;
    Ok(acc)
}
fn c07(t: bool) -> Vec<Part> {
    let mut p = vec![];
    for (name, sep) in [("area.line.device", "."), ("main/middle/sub", "/")] {
        // components around and beyond their ranges
        let (a, b, c) = if t { (301, 301, 301) } else { (50, 50, 301) };
        p.push(shown(
            part(&format!("{name}: every triple below {a}/{b}/{c}"), a * b * c, move |i| {
                let x = dims(i, &[a, b, c]);
                k_addr(&format!("{}{sep}{}{sep}{}", x[0], x[1], x[2]))
            }),
            move |i| {
                let x = dims(i, &[a, b, c]);
                format!("{}{sep}{}{sep}{}", x[0], x[1], x[2])
            },
        ));
    }
    const B: &[u64] = &[0, 1, 7, 8, 15, 16, 31, 32, 127, 128, 254, 255, 256, 257, 271, 272, 287, 511, 512, 2047, 2048, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 131072, 4294967295, 4294967296, 4294967297, 18446744073709551615];
    p.push(part("four parts and boundary values, every separator", 33 * 33 * 33 * 9, |i| {
        let x = dims(i, &[33, 33, 33, 9]);
        let (s, q) = ([".", "/", "-"][(x[3] % 3) as usize], [".", "/", ""][(x[3] / 3) as usize]);
        let last = if q.is_empty() { String::new() } else { format!("{q}{}", B[x[2] as usize]) };
        k_addr(&format!("{}{s}{}{s}{}{last}", B[x[0] as usize], B[x[1] as usize], B[x[2] as usize]))
    }));
    p.push(part("one-part text: every number below 200000", 200000, |i| k_addr(&i.to_string())));
    p.push(part("two-part text: every pair up to 300/4200", 301 * 4200, |i| k_addr(&format!("{}/{}", i / 4200, i % 4200))));
    p.push(part("two-part text with a dot: every pair up to 300/300", 300 * 300, |i| k_addr(&format!("{}.{}", i / 300, i % 300))));
    const CH: &[char] = &['0', '1', '2', '3', '5', '6', '7', '9', '/', '.', '+', '-', ' ', 'x'];
    let n = CH.len() as u64;
    let k = if t { 7 } else { 6 };
    p.push(shown(part(&format!("every string of up to {k} of {n} characters"), (0..=k).map(|j| n.pow(j)).sum(), move |i| k_addr(&text(i, CH))), |i| format!("{:?}", text(i, CH))));
    p.push(part("16-bit forms: every address in every form", 65536, |i| {
        let v = i as u16;
        let a = IndividualAddress::from_u16(v);
        let g = Group3LevelAddress::from_u16(v);
        if a.to_u16() != v || g.to_u16() != v {
            bad!("16-bit form {v:#06x} converts to {:#06x} / {:#06x}", a.to_u16(), g.to_u16());
        }
        let e = [
            format!("{}.{}.{}", v >> 12, v >> 8 & 15, v & 255),
            format!("{v}"),
            format!("{}/{}", v >> 11, v & 0x7ff),
            format!("{}/{}/{}", v >> 11, v >> 8 & 7, v & 255),
        ];
        if format!("{a:?}") != e[0] || format!("{g:?}") != e[3] {
            bad!("16-bit form {v:#06x} prints as {a:?} / {g:?}");
        }
        for f in 0..4 {
            let (k, _) = addr(f, v);
            let (ff, t) = form(&k);
            if k.to_u16() != v || ff as u64 != f || t != e[f as usize] {
                bad!("address {t} of form {f} has 16-bit form {:#06x}, should be {v:#06x}", k.to_u16());
            }
            k_addr(&t)?;
        }
        if IndividualAddress::from_u16(v) != IndividualAddress::from_u16(a.to_u16()) || (v > 0 && a == IndividualAddress::from_u16(v - 1)) {
            bad!("individual addresses compare wrongly at {v:#06x}");
        }
        Ok(true)
    }));
    p
}

// ------------------------------------------------------------------ C08
fn code(what: &str, c: &str, pre: &str) -> Result<(), String> {
    if !c.starts_with(pre) {
        bad!("{what} reports datapoint code {c:?}, should be {pre}*");
    }
    Ok(())
}
macro_rules! rt {
    ($what:expr, $pre:expr, $ty:ty, $v:expr, $bytes:expr, $w:expr) => {{
        let v = $v;
        let e: &[u8] = $bytes;
        let x = <$ty>::general(v);
        if x.get_bytes() != e {
            bad!("{} {:?} encoded as {:02x?}, should be {:02x?}", $what, v, x.get_bytes(), e);
        }
        code($what, &x.code, $pre)?;
        if Pdt::get_value(&x) != v {
            bad!("{} {:?} reads back as {:?}", $what, v, Pdt::get_value(&x));
        }
        let y = match <$ty>::from_bytes(e) {
            Ok(y) => y,
            Err(e2) => bad!("{} bytes {:02x?} refused: {e2}", $what, e),
        };
        code($what, &y.code, $pre)?;
        if Pdt::get_value(&y) != v || y.get_bytes() != e {
            bad!("{} {:?} encoded and decoded gives {:?}", $what, v, Pdt::get_value(&y));
        }
    }};
}
fn c08(t: bool) -> Vec<Part> {
    let mut p = vec![];
    p.push(part("8-bit, 1-bit and 3-bit control: every value", 256, |i| {
        let b = i as u8;
        rt!("8-bit value", "20.", PdtKnxByte, b, &[b], 1);
        rt!("scaled octet", "5.", PdtKnxScaledValue, b, &[b], 1);
        if b < 2 {
            rt!("1-bit value", "1.", PdtKnxBit, b == 1, &[b], 1);
            let s = PdtKnxBit::switch(b == 1);
            code("switch", &s.code, "1.")?;
            if s.get_value() != (b == 1) || s.get_bytes() != [b] {
                bad!("switch {b} encoded as {:02x?}", s.get_bytes());
            }
        }
        if b < 16 {
            rt!("3-bit control", "3.", PdtKnxB1U3, b, &[b], 1);
        }
        for up in [false, true] {
            for (n, c, x) in [("dimming", "3.", PdtKnxB1U3::dimming(up, b)), ("blinds", "3.", PdtKnxB1U3::blinds(up, b))] {
                code(n, &x.code, c)?;
                let g = x.get_value();
                if b < 8 && (g != b | (up as u8) << 3 || x.get_bytes() != [g]) {
                    bad!("{n} ({up},{b}) encoded as {:02x?}", x.get_bytes());
                }
                if (g & 8 != 0) != up {
                    bad!("{n} ({up},{b}): direction bit wrong, {g:#04x}");
                }
            }
        }
        Ok(true)
    }));
    p.push(part("16-bit values: every value", 65536, |i| {
        let v = i as u16;
        rt!("16-bit unsigned", "7.", PdtKnxWord, v, &v.to_be_bytes(), 2);
        rt!("16-bit signed", "8.", PdtKnxInt, v as i16, &v.to_be_bytes(), 2);
        let c = PdtKnxInt::value_2_count(v as i16);
        code("pulses", &c.code, "8.")?;
        if c.get_value() != v as i16 || c.get_bytes() != v.to_be_bytes() {
            bad!("pulses {} encoded as {:02x?}", v as i16, c.get_bytes());
        }
        let c = PdtKnxInt::percent_v16(v as i16);
        code("percent", &c.code, "8.")?;
        let e = (v as i16 as i32 * 100).clamp(i16::MIN as i32, i16::MAX as i32) as i16;
        if c.get_value() != e || c.get_bytes() != e.to_be_bytes() {
            bad!("percent {} gives {}, should be {e}", v as i16, c.get_value());
        }
        Ok(true)
    }));
    let n: u64 = if t { 1 << 32 } else { 1 << 24 };
    p.push(part(if t { "32-bit values: every value" } else { "32-bit values: every value of three of the four octets" }, if t { n } else { 4 * n }, move |i| {
        let v = if t {
            i as u32
        } else {
            // the fourth octet repeats the neighbouring one
            let (k, x) = (i / n, (i % n) as u32);
            let b = x.to_be_bytes();
            match k {
                0 => u32::from_be_bytes([b[1], b[1], b[2], b[3]]),
                1 => u32::from_be_bytes([b[1], b[2], b[2], b[3]]),
                2 => u32::from_be_bytes([b[1], b[2], b[3], b[3]]),
                _ => x,
            }
        };
        let x = PdtKnxULong::general(v);
        let e = v.to_be_bytes();
        let y = match PdtKnxULong::from_bytes(&e) {
            Ok(y) => y,
            Err(e) => bad!("32-bit value {v} refused: {e}"),
        };
        if x.get_bytes() != e || x.get_value() != v || y.get_value() != v || y.get_bytes() != e {
            bad!("32-bit value {v} encoded as {:02x?}, decoded as {}", x.get_bytes(), y.get_value());
        }
        if i % 65536 == 0 {
            code("32-bit", &x.code, "12.")?;
            code("32-bit", &y.code, "12.")?;
        }
        Ok(true)
    }));
    p.push(bytes_part("every string of up to three bytes decoded as every type", 1 + 256 + 65536 + (1 << 24), |i| {
        match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            257..=65792 => ((i - 257) as u16).to_be_bytes().to_vec(),
            _ => ((i - 65793) as u32).to_be_bytes()[1..].to_vec(),
        }
    }, k_dp));
    p.push(alpha_strings("every type", &[], &[0, 1, 0x7f, 0x80, 0xff], if t { 9 } else { 8 }, k_dp));
    p.push(bytes_part("longer values decoded as every type: every length up to 255, every repeated octet", 256 * 256, |i| {
        let mut b = big((i / 256) as usize);
        b.iter_mut().for_each(|x| *x = x.wrapping_add(i as u8));
        b
    }, k_dp));
    p
}
fn k_dp(d: &[u8]) -> R {
    let n = d.len();
    let mut acc = false;
    // (type, width, accepted)
    let r: [(&str, usize, Option<u32>); 7] = [
        ("1-bit", 1, PdtKnxBit::from_bytes(d).ok().map(|x| x.get_value() as u32)),
        ("3-bit control", 1, PdtKnxB1U3::from_bytes(d).ok().map(|x| x.get_value() as u32)),
        ("8-bit", 1, PdtKnxByte::from_bytes(d).ok().map(|x| x.get_value() as u32)),
        ("scaled", 1, PdtKnxScaledValue::from_bytes(d).ok().map(|x| Pdt::<u8>::get_value(&x) as u32)),
        ("16-bit unsigned", 2, PdtKnxWord::from_bytes(d).ok().map(|x| x.get_value() as u32)),
        ("16-bit signed", 2, PdtKnxInt::from_bytes(d).ok().map(|x| x.get_value() as u16 as u32)),
        ("32-bit", 4, PdtKnxULong::from_bytes(d).ok().map(|x| x.get_value())),
    ];
    for (what, w, got) in r {
        match got {
            None if n == w && !(w == 1 && (what.starts_with("1-") && d[0] > 1 || what.starts_with("3-") && d[0] > 15)) => bad!("{what} value {d:02x?} refused"),
            Some(_) if n < w => bad!("{what} value accepted from {n} bytes {d:02x?}"),
            Some(v) => {
                acc = true;
                let e = d[..w].iter().fold(0u32, |a, b| a << 8 | *b as u32);
                let loose = what.starts_with("1-") && e > 1 || what.starts_with("3-") && e > 15;
                if !loose && v != e {
                    bad!("{what} value {d:02x?} decoded as {v}");
                }
            }
            _ => (),
        }
    }
    Ok(acc)
}

// ------------------------------------------------------------------ C09
fn r_f16(p: u16) -> f64 {
    let e = (p >> 11 & 15) as i32;
    let m = (p & 0x7ff) as f64 - if p & 0x8000 != 0 { 2048.0 } else { 0.0 };
    0.01 * m * 2f64.powi(e)
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * a.abs().max(b.abs()) + 1e-12
}
fn enc(v: f32) -> Result<u16, String> {
    let b = PdtKnxFloat::general(v).get_bytes();
    if b.len() != 2 {
        bad!("{v} encoded in {} bytes", b.len());
    }
    Ok(u16::from_be_bytes([b[0], b[1]]))
}
/// the decoded value of v's encoding, after all single-value checks
fn k_f16(v: f32) -> Result<f64, String> {
    let p = enc(v)?;
    let d = r_f16(p);
    let x = v as f64 * 100.0;
    let fits = |q: f64| q >= -2048.0 && q <= 2047.0;
    let mut e = 0;
    while e < 16 && !fits((x / (1u32 << e) as f64).round()) {
        e += 1;
    }
    if e == 16 {
        let end = if v > 0.0 { 670433.28 } else { -671088.64 };
        let ok = if v > 0.0 { d >= end - 0.01 } else { d <= end + 0.01 };
        if !ok {
            bad!("{v} is out of range and encodes to {p:#06x} = {d}, should saturate");
        }
    } else {
        let half = 0.005 * (1u32 << e) as f64;
        if (d - v as f64).abs() > half * (1.0 + 1e-6) + 1e-6 * (v as f64).abs() {
            bad!("{v} encodes to {p:#06x} = {d}, off by more than half a step ({half})");
        }
    }
    if d != 0.0 && (d < 0.0) != (v < 0.0) {
        bad!("{v} encodes to {p:#06x} = {d}: sign lost");
    }
    Ok(d)
}
/// floats in numeric order
fn ordered(i: u64) -> f32 {
    let i = i as i64 - 0x8000_0000;
    if i >= 0 {
        f32::from_bits(i as u32)
    } else {
        f32::from_bits(0x8000_0000 | (-1 - i) as u32)
    }
}
fn c09(t: bool) -> Vec<Part> {
    let mut p = vec![];
    p.push(part("every 16-bit pattern: decode, re-encode, neighbours", 65536, |i| {
        let w = i as u16;
        let e = r_f16(w);
        for x in [PdtKnxFloat::from_bytes(&w.to_be_bytes()), PdtKnxFloat::temp_from_bytes(&w.to_be_bytes())] {
            let x = match x {
                Ok(x) => x,
                Err(e) => bad!("pattern {w:#06x} refused: {e}"),
            };
            let g = x.get_value() as f64;
            if !close(g, e) {
                bad!("pattern {w:#06x} decodes to {g}, should be {e}");
            }
            code("2-byte float", &x.code, "9.")?;
            let b = x.get_bytes();
            let q = u16::from_be_bytes([b[0], b[1]]);
            if !close(r_f16(q), e) {
                bad!("pattern {w:#06x} = {e} re-encodes to {q:#06x} = {}", r_f16(q));
            }
        }
        let t = PdtKnxFloat::temp(e as f32);
        if t.get_value() != e as f32 || t.get_bytes() != PdtKnxFloat::general(e as f32).get_bytes() {
            bad!("temperature {e} handled differently from the plain value");
        }
        // the value, its neighbours and the midpoints to the next patterns, a few ulps around
        let step = 0.01 * 2f64.powi((w >> 11 & 15) as i32);
        for k in [-1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0] {
            let c = (e + k * step) as f32;
            for u in -4i64..=4 {
                let b = c.to_bits() as i64 + u;
                if b < 0 {
                    continue;
                }
                let f = f32::from_bits(b as u32);
                if f.is_finite() {
                    k_f16(f)?;
                }
            }
        }
        Ok(true)
    }));
    p.push(part("infinities saturate", 2, |i| {
        let v = if i == 0 { f32::INFINITY } else { f32::NEG_INFINITY };
        k_f16(v)?;
        Ok(true)
    }));
    p.push(part("decoding fewer than two bytes", 257, |i| {
        let d: &[u8] = if i == 0 { &[] } else { &[(i - 1) as u8] };
        if PdtKnxFloat::from_bytes(d).is_ok() || PdtKnxFloat::temp_from_bytes(d).is_ok() {
            bad!("{d:02x?} accepted as a 2-byte float");
        }
        Ok(false)
    }));
    // numeric order: every float (thorough) or every 64th and its successor
    let step: u64 = if t { 1 } else { 128 };
    let n = (1u64 << 32) / step;
    p.push(shown(
        part(if t { "every single-precision number, in numeric order" } else { "every 128th single-precision number, in numeric order" }, n, move |i| {
            let v = ordered(i * step);
            if !v.is_finite() {
                return Ok(false);
            }
            let d = k_f16(v)?;
            let nx = ordered((i + 1) * step);
            if i + 1 < n && nx.is_finite() {
                let e = r_f16(enc(nx)?);
                if e < d && !close(e, d) {
                    bad!("order lost: {v} encodes to {d} but the larger {nx} to {e}");
                }
            }
            Ok(true)
        }),
        move |i| format!("{:e}", ordered(i * step)),
    ));
    p.push(part("every hundredth from -700000 to 700000", 140_000_001, move |i| {
        if !t && i % 16 != 3 {
            return Ok(false);
        }
        let v = (i as f64 / 100.0 - 700_000.0) as f32;
        k_f16(v)?;
        Ok(true)
    }));
    p
}

// ------------------------------------------------------------------ C10
fn sc(p: f32) -> Result<u8, String> {
    let x = PdtKnxScaledValue::scaling(p);
    let b = x.get_bytes();
    if b.len() != 1 || Pdt::<u8>::get_value(&x) != b[0] {
        bad!("{p}% encoded as {b:02x?}");
    }
    Ok(b[0])
}
fn desc(b: u8) -> Result<f32, String> {
    match PdtKnxScaledValue::from_bytes(&[b]) {
        Ok(x) => Ok(x.get_value()),
        Err(e) => bad!("octet {b} refused: {e}"),
    }
}
fn k_sc(p: f32) -> Result<u8, String> {
    let b = sc(p)?;
    let d = desc(b)?;
    if p <= 0.0 {
        if d != 0.0 {
            bad!("{p}% encodes to {b} = {d}%, should saturate at 0");
        }
    } else if p >= 100.0 {
        if b != 255 || (d - 100.0).abs() > 1e-3 {
            bad!("{p}% encodes to {b} = {d}%, should be 255");
        }
    } else if (d - p).abs() > 0.2 {
        bad!("{p}% encodes to {b} = {d}%, more than half a step off");
    }
    Ok(b)
}
fn c10(t: bool) -> Vec<Part> {
    let mut p = vec![];
    p.push(part("every octet: decode, re-encode, order", 256, |i| {
        let b = i as u8;
        let d = desc(b)?;
        if !(d >= 0.0 && d <= 100.0001) {
            bad!("octet {b} decodes to {d}%");
        }
        if b > 0 {
            if sc(d)? != b {
                bad!("octet {b} = {d}% re-encodes to {}", sc(d)?);
            }
            if desc(b - 1)? > d {
                bad!("octets {} and {b} decode out of order", b - 1);
            }
        }
        if PdtKnxScaledValue::general(b).get_value() != d {
            bad!("octet {b} reads as {} and {d}", PdtKnxScaledValue::general(b).get_value());
        }
        let x = PdtKnxScaledValue::scaling(d);
        code("scaling", &x.code, "5.")?;
        // around every rounding boundary
        let step = 100.0 / 254.0;
        for k in 0..9 {
            let c = d + step * (k as f32 / 4.0 - 1.0);
            for u in -40i64..=40 {
                let bits = c.to_bits() as i64 + u;
                if bits >= 0 {
                    let f = f32::from_bits(bits as u32);
                    if f.is_finite() {
                        k_sc(f)?;
                    }
                }
            }
        }
        Ok(true)
    }));
    // all of 0..=100 in order, and everything outside
    let top = 100f32.to_bits() as u64 + 2;
    let step: u64 = if t { 1 } else { 64 };
    p.push(shown(
        part(if t { "every single-precision percentage from 0 to 100, in order" } else { "every 64th single-precision percentage from 0 to 100, in order" }, top / step, move |i| {
            let v = f32::from_bits((i * step) as u32);
            let b = k_sc(v)?;
            let n = f32::from_bits(((i + 1) * step) as u32);
            let c = sc(n)?;
            if c < b {
                bad!("order lost: {v}% encodes to {b}, {n}% to {c}");
            }
            Ok(true)
        }),
        move |i| format!("{:e}", f32::from_bits((i * step) as u32)),
    ));
    let s2: u64 = if t { 4 } else { 256 };
    p.push(part("percentages outside 0 to 100, in steps", (1u64 << 32) / s2, move |i| {
        let v = f32::from_bits((i * s2) as u32);
        if v.is_nan() || (v >= 0.0 && v <= 100.0) {
            return Ok(false);
        }
        k_sc(v)?;
        Ok(true)
    }));
    p.push(part("every percentage with three decimals from -1 to 101", 102_001, |i| {
        let v = i as f32 / 1000.0 - 1.0;
        let b = k_sc(v)?;
        let c = k_sc(v + 0.001)?;
        if c < b {
            bad!("order lost around {v}%");
        }
        Ok(true)
    }));
    p
}
