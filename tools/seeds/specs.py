UDP="src/transport/udp.rs"; MON="src/transport/udp_monitor.rs"; EMI="src/packets/emi.rs"; TUN="src/packets/tunneling.rs"; CORE="src/packets/core.rs"; ADR="src/packets/addresses.rs"; APDU="src/packets/apdu.rs"; DPT="src/dp_types.rs"
SEEDS=[]
def seed(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

# ---------------------------------------------------------------- codecs
seed("c01-short-datagram","C01",[(UDP,"""    let response_code = resp.get(2..4);
    if response_code.is_some() {""","""    let response_code = if resp.is_empty() { None } else { Some(&resp[2..4]) };
    if response_code.is_some() {""")],
 "a received datagram of one to three bytes","the frame dispatcher panics on it",
 """use knx_ip_client::transport::udp::parse_response;
fn main() {
    for n in 0..4 { assert!(parse_response(vec![6; n]).is_err()); }
}
""")
seed("c01-zero-length-octet","C01",[(EMI,"""            Ok(len) if len > 0 => len - 1,
            Ok(_) => 0,
            Err(e) => whatever!("Unable to read length {:?}", e),""","""            Ok(len) => len - 1,
            Err(e) => whatever!("Unable to read length {:?}", e),""")],
 "an indication whose length octet is 0","arithmetic overflow (panic) while decoding",
 """use knx_ip_client::packets::emi::*;
fn main() {
    let d = [0x29u8, 0, 0xbc, 0xe0, 0x11, 1, 9, 1, 0, 0, 0x80];
    let c = CEMI::from_packet(&mut std::io::Cursor::new(&d[..])).unwrap();
    let _ = LDataInd::from_cemi(c);
}
""")
seed("c02-refused-statuses","C02",[(CORE,"""            E_TUNNELING_LAYER => {
                whatever!("Target KNX/IP device does not support requested tunneling layer")
            }
            _ => (),""","""            _ => (),""")],
 "a connect response with status 0x29 that nevertheless carries endpoint and data blocks","the refusal is not rejected by the decoder",
 """use knx_ip_client::packets::core::*;
fn main() {
    let d = [6u8, 16, 2, 6, 0, 20, 7, 0x29, 8, 1, 10, 0, 0, 1, 0x0e, 0x57, 4, 4, 0x11, 1];
    assert!(ConnectionResponse::from_packet(&mut std::io::Cursor::new(&d[..])).is_err());
}
""")
seed("c02-endpoint-port-sign","C02",[(CORE,"""        let ip = self.address.ip().octets();
        packet.extend_from_slice(&ip);
        packet.write_u16::<BigEndian>(self.address.port()).unwrap();""","""        let ip = self.address.ip().octets();
        packet.extend_from_slice(&ip);
        packet.write_i16::<BigEndian>(self.address.port().min(i16::MAX as u16) as i16).unwrap();""")],
 "an endpoint with a port above 32767","the encoded port is another one",
 """use knx_ip_client::packets::core::*;
fn main() {
    let mut h = HPAI::udp();
    h.set_addr("10.0.0.1:50000".parse().unwrap());
    let r = ConnectionstateRequest::new(7, h).packet();
    assert_eq!(r[r.len() - 2..], [0xc3, 0x50]);
}
""")
seed("c03-size-octet","C03",[(TUN,"""        let mut cemi = vec![0; size as usize - 10];""","""        let mut cemi = vec![0; (size as u8).saturating_sub(10) as usize];""")],
 "a tunnelling request of 256 bytes or more","only the low octet of the declared size is used, the payload is cut",
 """use knx_ip_client::packets::tunneling::*;
fn main() {
    let p = TunnelingRequest::new(1, 2, vec![7; 250]).packet();
    let r = TunnelingRequest::from_packet(&mut std::io::Cursor::new(p.as_slice())).unwrap();
    assert_eq!(r.cemi.len(), 250);
}
""")
seed("c03-dispatch-search","C03",[(UDP,"""        } else if response_code == Some(&vec![0x02, 0x08]) {""","""        } else if matches!(response_code, Some([0x02, code]) if code & 0x08 == 0x08 && *code != 0x09) {""")],
 "a frame with an unknown service identifier such as 0x020c that otherwise looks like a connection-state response","hmm",
 """use knx_ip_client::transport::udp::parse_response;
fn main() {
    assert!(parse_response(vec![6, 16, 2, 8, 0, 8, 7, 0]).is_ok());
    assert!(parse_response(vec![6, 16, 2, 0x0c, 0, 8, 7, 0]).is_err());
}
""")
SEEDS.pop()  # still refused by the message decoder: not a behaviour change
seed("c03-feature-without-value","C03",[(TUN,"""            Ok(value) => value,
            Err(e) => whatever!("Unable to read value {:?}", e),""","""            Ok(value) => value,
            Err(_) => 0, // Some devices do not send a value with an error status""")],
 "a feature response that ends before its value octet","a value is invented for a frame shorter than it declares",
 """use knx_ip_client::packets::tunneling::*;
fn main() {
    let d = [6u8, 16, 4, 0x23, 0, 13, 4, 1, 2, 0, 8, 0];
    assert!(FeatureResp::from_packet(&mut std::io::Cursor::new(&d[..])).is_err());
}
""")
seed("c04-families-count","C04",[(CORE,"""        for _ in 0..(structure_length - 2) / 2 {""","""        let count = ((structure_length - 2) / 2).min(16);
        for _ in 0..count {""")],
 "a device announcing more than 16 service families","the list is cut (and the following block misread)",
 """use knx_ip_client::packets::core::*;
fn main() {
    let mut d = vec![2 + 2 * 20u8, 2];
    for i in 0..20u8 { d.extend([i, 1]); }
    match DIB::from_packet(&mut std::io::Cursor::new(d.as_slice())).unwrap() {
        DIB::SupportedServiceFamilies(f) => assert_eq!(f.service_families.len(), 20),
        _ => panic!(),
    }
}
""")
seed("c04-name-trap","C04",[(CORE,"""            .encode(&friendly_name, EncoderTrap::Strict)
            .whatever_context("Unable to encode device friendly name")?;""","""            .encode(&friendly_name, EncoderTrap::Replace)
            .whatever_context("Unable to encode device friendly name")?;""")],
 "a device name with a character outside ISO 8859-1","it is replaced by a question mark instead of being refused",
 """use knx_ip_client::packets::{addresses::*, core::*};
fn main() {
    let n = |s: &str| DeviceInformationDIB::new(54, KnxMedium::TP1, DeviceStatus::empty(), IndividualAddress::from_u16(1), 1, [0; 6], [224, 0, 23, 12].into(), [0; 6], s.into());
    assert!(n("caf\\u{e9}").is_ok());
    assert!(n("caf\\u{20ac}").is_err());
}
""")
seed("c05-confirm-mask","C05",[(EMI,"""        let confirm = (control1 & 1) == 0;""","""        let confirm = (control1 & 0b11) == 0;""")],
 "a confirmation whose acknowledge-request flag is set","a positive confirmation is reported as negative",
 """use knx_ip_client::packets::emi::*;
fn main() {
    let d = [0x2eu8, 0, 0xbe, 0xe0, 0x11, 1, 9, 1, 1, 0, 0x81];
    let c = CEMI::from_packet(&mut std::io::Cursor::new(&d[..])).unwrap();
    assert!(LDataCon::from_cemi(c).unwrap().confirm);
}
""")
seed("c05-info-list","C05",[(EMI,"""            position += additional_info_size + 2;""","""            position += additional_info_size.max(2) + 2;""")],
 "an additional-info record with no or one data octet followed by another record","the second record is taken for telegram data",
 """use knx_ip_client::packets::emi::*;
fn main() {
    let mut d = vec![0x29u8, 7, 3, 1, 0, 4, 2, 1, 2];
    d.extend([0xbc, 0xe0, 0x11, 1, 9, 1, 1, 0, 0x81]);
    let c = CEMI::from_packet(&mut std::io::Cursor::new(d.as_slice())).unwrap();
    assert_eq!((c.additional_infos.len(), c.service_info.len()), (2, 9));
}
""")
seed("c06-priority-mask","C06",[(EMI,"""        control |= (self.priority & 0x3) << 2;""","""        control |= (self.priority << 2) & 0x3c;""")],
 "a priority argument above 3","it spills into the broadcast and repetition flags","""use knx_ip_client::packets::{addresses::*, apdu::*, emi::*, tpdu::*};
fn main() {
    for p in 0..=255u8 {
        let mut r = LDataReqMessage::new(KnxAddress::group_3_level(1, 2, 3), TPDU::t_data_group(APDU::group_value_read()));
        r.set_priority(p);
        assert_eq!(r.packet()[2], 0xb0 | (p & 3) << 2);
    }
}
""")
SEEDS.pop()  # flags 4 and 5 are set anyway: equivalent for every argument
seed("c06-small-mask","C06",[(APDU,"""            APDUData::Small(data) => apci_packet[1] |= data & 0x3f,""","""            APDUData::Small(data) => apci_packet[1] |= data,""")],
 "a compact write of an octet above 63","the value changes the service code",
 """use knx_ip_client::packets::apdu::*;
fn main() {
    for v in 0..=255u8 { assert_eq!(APDU::group_value_write(vec![v], true).packet(), vec![0, 0x80 | v & 0x3f]); }
}
""")
seed("c06-priority-system","C06",[(EMI,"""        control |= (self.priority & 0x3) << 2;""","""        control |= match self.priority {
            0 => 0b11 << 2, // not set
            p => (p & 0x3) << 2,
        };""")],
 "system priority (0) selected","the telegram is sent with low priority",
 """use knx_ip_client::packets::{addresses::*, apdu::*, emi::*, tpdu::*};
fn main() {
    let mut r = LDataReqMessage::new(KnxAddress::group_3_level(1, 2, 3), TPDU::t_data_group(APDU::group_value_read()));
    r.set_priority(0);
    assert_eq!(r.packet()[2], 0xb0);
}
""")
seed("c07-line-bits","C07",[(ADR,"""        let line = (0x0f00 & addr) >> 8;""","""        let line = (0x0700 & addr) >> 8;""")],
 "an individual address on line 8 to 15 converted from 16 bits","two addresses share one structure",
 """use knx_ip_client::packets::addresses::*;
fn main() {
    for v in 0..=0xffffu16 { assert_eq!(IndividualAddress::from_u16(v).to_u16(), v); }
}
""")
seed("c07-trim","C07",[(ADR,"""            let parts: Vec<&str> = value.split('/').collect();
            if parts.len() == 1 {""","""            let parts: Vec<&str> = value.split('/').filter(|p| !p.is_empty()).collect();
            if parts.len() == 1 {""")],
 "group address text with an empty part, such as 1//2 or /5","it is accepted as another address",
 """use knx_ip_client::packets::addresses::*;
fn main() {
    for t in ["1//2", "/5", "1/2/", "1/2//3"] { assert!(KnxAddress::try_from(t).is_err(), "{t}"); }
}
""")
seed("c08-short-word","C08",[(DPT,"""        let mut reader = Cursor::new(b);
        let value = reader.read_u16::<BigEndian>().with_whatever_context(|e| "Unable to get 2 bytes {e}")?;""","""        let value = match b {
            [] => whatever!("Unable to get 2 bytes"),
            [low] => *low as u16,
            [high, low, ..] => u16::from_be_bytes([*high, *low]),
        };""")],
 "a 16-bit datapoint decoded from a single octet","accepted instead of refused",
 """use knx_ip_client::dp_types::*;
fn main() {
    assert!(PdtKnxWord::from_bytes(&[1, 2]).is_ok());
    assert!(PdtKnxWord::from_bytes(&[1]).is_err());
}
""")
seed("c08-float-detour","C08",[(DPT,"""        let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
        Ok(Self {""","""        let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
        let value = value as f32 as u32; // same rounding as the display value
        Ok(Self {""")],
 "a 32-bit counter above 2^24 that is not a multiple of its float step","the value changes",
 """use knx_ip_client::dp_types::*;
fn main() {
    assert_eq!(PdtKnxULong::from_bytes(&[0, 0, 1, 1]).unwrap().get_value(), 257);
    assert_eq!(PdtKnxULong::from_bytes(&[1, 0, 0, 1]).unwrap().get_value(), 0x01000001);
}
""")
seed("c09-exponent-bits","C09",[(DPT,"""    Ok((0.01 * mantissa) * (1 << exp) as f32)""","""    Ok((0.01 * mantissa) * (1 << (exp & 7)) as f32)""")],
 "a 2-byte float with an exponent of 8 or more (above 5242 or so)","decoded to a 256 times smaller value",
 """use knx_ip_client::dp_types::*;
fn main() {
    let v = PdtKnxFloat::from_bytes(&[0x44, 0x00]).unwrap().get_value();
    assert_eq!(v, 2621.44);
}
""")
seed("c10-truncate","C10",[(DPT,"""            value: (percent * 2.54 + 1.0).round() as u8,""","""            value: (percent * 2.54 + 1.0) as u8,""")],
 "a percentage that is not a whole number of steps","it is rounded down: up to a whole step off",
 """use knx_ip_client::dp_types::*;
fn main() {
    for p in 0..=100 {
        let g = PdtKnxScaledValue::scaling(p as f32).get_value();
        assert!((g - p as f32).abs() <= 0.2, "{p} {g}");
    }
}
""")
seed("c10-zero","C10",[(DPT,"""        (self.value - 1) as f32 / 2.54""","""        (self.value & 0xfe) as f32 / 2.54""")],
 "an odd octet (or 255)","decodes a step off; re-encoding changes it",
 """use knx_ip_client::dp_types::*;
fn main() {
    for o in 1..=255u8 {
        let v = PdtKnxScaledValue::from_bytes(&[o]).unwrap();
        let p = PdtKnxScaledValue::get_value(&v);
        assert_eq!(PdtKnxScaledValue::scaling(p).get_bytes(), vec![o]);
    }
}
""")

# ---------------------------------------------------------------- transport
H="""mod mock;
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::transport::udp::UdpClient;
#[allow(unused_imports)]
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use mock::*;
use std::sync::Arc;
#[allow(dead_code)]
const G: (u8, u8, u8) = (1, 1, 1);
#[allow(dead_code)]
const GA: u16 = 0x0901;
#[allow(dead_code)]
fn ga() -> KnxAddress { KnxAddress::group_3_level(G.0, G.1, G.2) }
#[allow(dead_code)]
async fn client(gw: &mut Gw, a: &str, ch: u8) -> Arc<UdpClient> {
    let c = Arc::new(UdpClient::connect(a.to_string()).await.unwrap());
    gw.accept(ch).await;
    gw.want(0x0207, 5).await.expect("no state request");
    gw.send(&[6, 16, 2, 8, 0, 8, ch, 0]).await;
    c
}
#[allow(dead_code)]
async fn monitor(gw: &mut Gw, a: &str, ch: u8) -> Arc<UdpMonitor> {
    let c = Arc::new(UdpMonitor::connect(a).await.unwrap());
    gw.accept(ch).await;
    gw.want(0x0424, 5).await.expect("no feature set");
    gw.want(0x0207, 5).await.expect("no state request");
    gw.send(&[6, 16, 2, 8, 0, 8, ch, 0]).await;
    c
}
"""
def t(body, extra=""): return H + extra + "fn main() {\n    run(async {\n        let (mut gw, a) = Gw::new().await;\n" + body + "    });\n}\n"
WRITE="""        let w = { let c = c.clone(); tokio::spawn(async move { c.write_group_address_value(ga(), vec![1], true).await }) };
"""
seed("c11-sequence-survives","C11",[(UDP,"""                'main: loop {
                    // If connection data""","""                let mut last_sequence_nr = None;
                'main: loop {
                    // If connection data"""),
 (UDP,"""                        *connection_data = Some(ConnectionData::from_connection_response(connection));
                    }""","""                        let mut data = ConnectionData::from_connection_response(connection);
                        if let Some((channel, sequence_nr)) = last_sequence_nr {
                            // resume the tunnel if the device gives us the same channel again
                            if channel == communication_channel_id {
                                data.sequence_nr = sequence_nr;
                            }
                        }
                        *connection_data = Some(data);
                    }"""),
 (UDP,"""                    let mut data = connection_data.lock().await;
                    *data = None;""","""                    let mut data = connection_data.lock().await;
                    last_sequence_nr = data.take().map(|d| (d.communication_channel_id, d.sequence_nr));""")],
 "a reconnect that is granted the same channel identifier after at least one request","the new connection does not start at sequence 0",
 t("""        let c = client(&mut gw, &a, 7).await;
"""+WRITE+"""        gw.want(0x0420, 5).await.expect("no request");
        gw.tunnel(7, 0, &con(GA, true)).await;
        w.await.unwrap().unwrap();
        gw.send(&[6, 16, 2, 9, 0, 16, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;
        gw.accept(7).await;
        settle().await;
"""+WRITE+"""        let r = gw.want(0x0420, 5).await.expect("no request");
        check(r[8] == 0, "first request of the new connection has a sequence number other than 0");
        w.abort();
"""))
seed("c12-ack-after-parse","C12",[(UDP,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut cemi = Cursor::new(req.get_cemi().as_slice());
""","""                    let mut cemi = Cursor::new(req.get_cemi().as_slice());
"""),(UDP,"""                            warn!("Error parsing cEMI response {:?}", e);
                            continue;
                        }
                    };
""","""                            warn!("Error parsing cEMI response {:?}", e);
                            continue;
                        }
                    };
                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }
""")],
 "a tunnelling request whose cEMI cannot be parsed","it is not acknowledged",
 t("""        let _c = client(&mut gw, &a, 7).await;
        gw.tunnel(7, 0, &[0x29, 4, 0x77, 0, 0, 0]).await;
        check(gw.want(0x0421, 5).await.is_some(), "no acknowledgement");
"""))
seed("c12-feature-ack-status","C12",[(UDP,"""                    let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);
""","""                    let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, resp.status);
""")],
 "a feature response with an error status","acknowledged with a status other than 0",
 t("""        let _c = monitor(&mut gw, &a, 7).await;
        gw.send(&[6, 16, 4, 0x23, 0, 13, 4, 7, 0, 0, 8, 0xf9, 1]).await;
        let k = gw.want(0x0421, 5).await.expect("no acknowledgement");
        check(k[7] == 7 && k[8] == 0 && k[9] == 0, "acknowledgement with error status");
"""))
seed("c13-repetition","C13",[(MON,"""                    if data_ind.l_data.repetition {
                        warn!("This message is a repetition");
                    }
                    return Ok(data_ind);""","""                    if !data_ind.l_data.repetition {
                        warn!("This message is a repetition");
                        continue;
                    }
                    return Ok(data_ind);""")],
 "an indication flagged as repeated on the bus","it is never returned",
 t("""        let m = monitor(&mut gw, &a, 7).await;
        let mut i = ind(GA, &[1, 2]);
        i[2] = 0x9c;
        gw.tunnel(7, 0, &i).await;
        let r = tokio::time::timeout(std::time::Duration::from_secs(5), m.next_msg()).await;
        check(r.is_ok(), "telegram not delivered");
"""))
seed("c21-small-queue","C21",[(MON,"""        let (from_knx_tx, rx) = mpsc::channel(100);""","""        let (from_knx_tx, rx) = mpsc::channel(64);""")],
 "more than 64 telegrams while the monitor's reader is busy","telegrams are lost",
 t("""        let m = monitor(&mut gw, &a, 7).await;
        for i in 0..100u8 { gw.tunnel(7, i, &ind(GA, &[0, i])).await; }
        for i in 0..100u8 {
            let r = tokio::time::timeout(std::time::Duration::from_secs(5), m.next_msg()).await;
            check(matches!(r, Ok(Ok(x)) if x.value == [0, i]), "telegram lost");
        }
"""))
seed("c14-busmon","C14",[(UDP,"""                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {""","""                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 || cemi.msg_code == CEMIMessageCode::LDataReq as u8 => {""")],
 "a telegram of another kind (an echoed L_Data.req write) for the group while a read is pending","it is taken for the answer",
 t("""        let c = client(&mut gw, &a, 7).await;
        let w = { let c = c.clone(); tokio::spawn(async move { c.read_group_address_value(ga()).await }) };
        gw.want(0x0420, 5).await.expect("no request");
        let mut e = ind(GA, &[9, 9]);
        e[0] = 0x11;
        e[10] = 0x80;
        gw.tunnel(7, 0, &e).await;
        gw.tunnel(7, 1, &ind(GA, &[1, 2])).await;
        let r = w.await.unwrap();
        check(matches!(r, Ok(v) if v == [1, 2]), "wrong value");
"""))
seed("c15-raw-con","C15",[(UDP,"""                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    match""","""                Ok(Some(cemi)) if cemi.msg_code & 0x2e == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    match""")],
 "a raw confirmation (0x2f) of another service for the same address while a write is pending","it completes the write",
 t("""        let c = client(&mut gw, &a, 7).await;
"""+WRITE+"""        gw.want(0x0420, 5).await.expect("no request");
        let mut k = con(GA, true);
        k[0] = 0x2f;
        gw.tunnel(7, 0, &k).await;
        gw.tunnel(7, 1, &con(GA, false)).await;
        check(w.await.unwrap().is_err(), "write reported success on a foreign confirmation");
"""))
seed("c16-write-timeout","C16",[(UDP,"""    fn get_write_timeout(&self) -> Duration {
        self.timeout.clone()""","""    fn get_write_timeout(&self) -> Duration {
        // writes may be repeated three times on the bus
        self.timeout * 3""")],
 "a write that is never confirmed","it takes 30 seconds",
 t("""        let c = client(&mut gw, &a, 7).await;
        let t0 = tokio::time::Instant::now();
        check(c.write_group_address_value(ga(), vec![1], true).await.is_err(), "no error");
        check(t0.elapsed().as_secs() <= 10, "took longer than the time limit");
"""))
seed("c17-status-disconnect","C17",[(UDP,"""                    if resp.status == 0 {
                        info!("Successfully disconnected");
                    } else {
                        warn!("Unable to disconnect, status code {:?}", resp);
                    }
                    break Ok("KNX device disconnected by our will".into());""","""                    if resp.status == 0 {
                        info!("Successfully disconnected");
                    } else {
                        warn!("Unable to disconnect, status code {:?}", resp);
                    }
                    whatever!("KNX device disconnected by our will");""")],
 "any disconnect, then waiting","the client reconnects after it was disconnected",
 t("""        let c = client(&mut gw, &a, 7).await;
        let w = { let c = c.clone(); tokio::spawn(async move { c.disconnect().await.is_ok() }) };
        gw.want(0x0209, 5).await.expect("no disconnect request");
        gw.send(&[6, 16, 2, 10, 0, 8, 7, 0]).await;
        check(w.await.unwrap(), "disconnect failed");
        check(gw.recv(200).await.is_none(), "sends after disconnect");
"""))
seed("c18-refused-status","C18",[(UDP,"""            Ok(connection) => return connection,
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_secs(10)).await;""","""            Ok(connection) => return connection,
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        attempts += 1;
        sleep(Duration::from_secs(10 * attempts)).await;"""),(UDP,"""pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {
    loop {""","""pub(crate) async fn connect(socket: Arc<MyUdpSocket>) -> ConnectionResponse {
    let mut attempts = 0;
    loop {""")],
 "a second refused attempt in a row","the next attempt comes later than 10 seconds",
 t("""        let _c = UdpClient::connect(a.clone()).await.unwrap();
        for i in 0..4 {
            check(gw.want(0x0205, if i == 0 { 5 } else { 11 }).await.is_some(), "no new attempt after 10 seconds");
            gw.send(&[6, 16, 2, 6, 0, 8, 0, 0x24]).await;
        }
"""))
seed("c19-burst","C19",[(UDP,"""                heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
""","""                heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Burst);
""")],
 "being without a connection for several minutes, then reconnecting","a burst of heart beats",
 t("""        let _c = client(&mut gw, &a, 7).await;
        gw.send(&[6, 16, 2, 9, 0, 16, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;
        for _ in 0..30 {
            gw.want(0x0205, 60).await.expect("no connect request");
            gw.send(&[6, 16, 2, 6, 0, 8, 0, 0x24]).await;
        }
        gw.accept(8).await;
        let mut n = 0;
        while let Some(d) = gw.recv(5).await { if d[3] == 7 && d[2] == 2 { n += 1; gw.send(&[6, 16, 2, 8, 0, 8, 8, 0]).await; } }
        check(n <= 1, "burst of heart beats");
"""))
seed("c19-monitor-skip","C19",[(MON,"""                heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
""","""                heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
                heart_beat.reset();
""")],
 "the first minute of a monitor connection","no connection-state request when first connected",
 t("""        let _m = UdpMonitor::connect(&a).await.unwrap();
        gw.accept(7).await;
        check(gw.want(0x0207, 5).await.is_some(), "no state request on connect");
"""))
seed("c20-empty-datagram","C20",[(UDP,"""        if count > 0 {
            data.truncate(count);""","""        ensure_whatever!(count > 0, "UDP Socket was closed");
        {
            data.truncate(count);""")],
 "an empty datagram","the connection is given up",
 t("""        let _c = client(&mut gw, &a, 7).await;
        gw.send(&[]).await;
        check(gw.want(0x0205, 30).await.is_none(), "connection given up because of an empty datagram");
"""))
seed("c22-search-endpoint","C22",[(UDP,"""        let req = SearchRequest::udp_unicast(local_addr).packet();""","""        let req = SearchRequest::udp().packet();""")],
 "devices that answer to the endpoint named in the request","answers go to the multicast group, not to the searching socket",
 """use knx_ip_client::transport::udp::UdpClient;
use std::time::Duration;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
static SEEN: AtomicI32 = AtomicI32::new(-1);
// stands in for the C library's: nothing leaves this process
#[no_mangle]
pub unsafe extern "C" fn sendto(_s: i32, b: *const u8, n: usize, _f: i32, _a: *const u8, _l: u32) -> isize {
    let d = std::slice::from_raw_parts(b, n);
    if n == 14 && d[2..4] == [2, 1] { SEEN.store((d[8..12] == [224, 0, 23, 12]) as i32, SeqCst); }
    n as isize
}
fn main() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let _ = UdpClient::search(Duration::from_millis(300)).await;
    });
    if SEEN.load(SeqCst) != 0 { println!("BROKEN: the request does not name the searching socket"); std::process::exit(1); }
}
""")
seed("c23-feature-failure","C23",[(MON,"""                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
                            continue;
                        }
""","""                        if let Err(e) = enable_busmonitor(&socket, communication_channel_id).await {
                            warn!("Unable to enable the info service {:?}", e);
                        }
""")],
 "a failed send of the feature-set request right after the gateway accepted","the monitor reports itself connected without the info service, first request has sequence 1",
 t("""        let _m = UdpMonitor::connect(&a).await.unwrap();
        FAIL.store(0x24, SeqCst);
        gw.accept(7).await;
        settle().await;
        FAIL.store(0, SeqCst);
        let mut n = 0;
        for _ in 0..40 {
            match gw.recv(2).await {
                Some(d) if d[2..4] == [2, 5] => { gw.send(&[6, 16, 2, 6, 0, 20, 8, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57, 4, 4, 0x11, 1]).await; }
                Some(d) if d[2..4] == [4, 0x24] => { n += 1; }
                _ => (),
            }
        }
        check(n > 0, "info service never enabled");
""", extra="""
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
static FAIL: AtomicU8 = AtomicU8::new(0);
extern "C" { fn sendto(s: i32, b: *const u8, n: usize, f: i32, a: *const u8, l: u32) -> isize; fn __errno_location() -> *mut i32; }
// stands in for the C library's: the sends of one service fail
#[no_mangle]
pub unsafe extern "C" fn send(s: i32, b: *const u8, n: usize, f: i32) -> isize {
    if FAIL.load(SeqCst) != 0 && n > 4 && *b.add(3) == FAIL.load(SeqCst) { *__errno_location() = 101; return -1; }
    sendto(s, b, n, f, std::ptr::null(), 0)
}
""")
)
seed("c23-feature-late","C23",[(MON,"""                        if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
                            continue;
                        }

                        info!("Created communication channel ID {:?}", communication_channel_id);
                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
""","""                        let reconnected = notified;
                        notified = true;
                        if !reconnected && enable_busmonitor(&socket, communication_channel_id).await.is_err() {
                            continue;
                        }

                        info!("Created communication channel ID {:?}", communication_channel_id);
                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
"""),(MON,"""                'main: loop {
                    // If connection data""","""                let mut notified = false;
                'main: loop {
                    // If connection data""")],
 "a second connection","the info service is enabled only on the first connection",
 t("""        let _m = monitor(&mut gw, &a, 7).await;
        gw.send(&[6, 16, 2, 9, 0, 16, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;
        gw.accept(8).await;
        check(gw.want(0x0424, 5).await.is_some(), "no feature set on the second connection");
"""))
seed("c24-endpoint","C24",[(UDP,"""            control_endpoint: connection.get_data_endpoint(),""","""            control_endpoint: HPAI::udp(),""")],
 "a gateway that grants a specific endpoint","state requests name another endpoint",
 t("""        let c = Arc::new(UdpClient::connect(a.clone()).await.unwrap());
        gw.accept(7).await;
        gw.want(0x0207, 5).await.unwrap();
        let w = { let c = c.clone(); tokio::spawn(async move { c.get_connection_status().await.is_ok() }) };
        let q = gw.want(0x0207, 5).await.unwrap();
        check(q[8..] == [8, 1, 127, 0, 0, 1, 0x0e, 0x57], "wrong endpoint");
        gw.send(&[6, 16, 2, 8, 0, 8, 7, 0]).await;
        let _ = w.await;
"""))
seed("c18-disc-resp-channel","C18",[(CORE,"""        Self {
            communication_channel_id: req.communication_channel_id,
            status: 0, // No error
        }""","""        Self {
            communication_channel_id: req.communication_channel_id & 0x7f,
            status: 0, // No error
        }""")],
 "a gateway disconnect request on a channel above 127","the answer names another channel",
 t("""        let _c = client(&mut gw, &a, 200).await;
        gw.send(&[6, 16, 2, 9, 0, 16, 200, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;
        let r = gw.want(0x020a, 5).await.expect("no disconnect response");
        check(r[6] == 200, "wrong channel");
"""))

# ---------------------------------------------------------------- second batch: histories, schedules, faults
GWDISC="gw.send(&[6, 16, 2, 9, 0, 16, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57]).await;"
seed("c16-wait-for-connection","C16",[(UDP,"""        transport.tunnel_req(req.packet()).await?;
        debug!("Write request sent to bus");""","""        // The connection may be being re-established
        //
        while transport.tunnel_req(req.packet()).await.is_err() {
            sleep(Duration::from_millis(500)).await;
        }
        debug!("Write request sent to bus");""")],
 "a write while the connection is lost and the gateway stays unreachable","the write never finishes",
 t("""        let c = client(&mut gw, &a, 7).await;
        """+GWDISC+"""
        secs(1).await;
        let r = tokio::time::timeout(std::time::Duration::from_secs(30), c.write_group_address_value(ga(), vec![1], true)).await;
        check(r.is_ok(), "write still pending after 30 s");
        check(r.unwrap().is_err(), "write without a connection succeeded");
"""))
seed("c18-backoff","C18",[(UDP,"""    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,""","""    let mut delay = 10;
    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,"""),(UDP,"""        sleep(Duration::from_secs(10)).await;
    }""","""        sleep(Duration::from_secs(delay)).await;
        delay = (delay * 2).min(640);
    }""")],
 "a gateway that refuses or ignores several connect requests in a row","the next attempt comes minutes later than it should",
 t("""        let _c = UdpClient::connect(a.clone()).await.unwrap();
        for i in 0..6 {
            check(gw.want(0x0205, 45).await.is_some(), &format!("no connect attempt {i}"));
        }
"""))
seed("c20-too-many-invalid","C20",[(UDP,"""    loop {
        let mut data = vec![0; RECV_BUFFER_SIZE];
        let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
""","""    let mut invalid = 0u8;
    loop {
        let mut data = vec![0; RECV_BUFFER_SIZE];
        let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
        ensure_whatever!(invalid < 20, "Too many invalid messages");
"""),(UDP,"""                    warn!("Ignore invalid message from knxip target {:?}", e);
                    continue;""","""                    warn!("Ignore invalid message from knxip target {:?}", e);
                    invalid += 1;
                    continue;""")],
 "twenty undecodable datagrams during one connection","a working connection is given up",
 t("""        let _c = client(&mut gw, &a, 7).await;
        for _ in 0..30 { gw.send(&[6, 16, 4, 0x55, 0, 6]).await; }
        gw.tunnel(7, 0, &ind(GA, &[1])).await;
        check(gw.want(0x0421, 5).await.is_some(), "telegram after noise not acknowledged");
        check(gw.want(0x0205, 5).await.is_none(), "reconnected because of noise");
"""))
seed("c12-full-queue","C12",[(UDP,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut cemi = Cursor::new(req.get_cemi().as_slice());
""","""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, (from_knx_tx.capacity() == 0) as u8);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut cemi = Cursor::new(req.get_cemi().as_slice());
""")],
 "more than 100 unread telegrams","further telegrams are acknowledged with an error status",
 t("""        let _m = monitor(&mut gw, &a, 7).await;
        for i in 0..105u8 {
            gw.tunnel(7, i, &ind(GA, &[1])).await;
            let r = gw.want(0x0421, 5).await.expect("no ack");
            check(r[8] == i && r[9] == 0, "telegram not positively acknowledged");
        }
"""))
seed("c13-debounce","C13",[(MON,"""                    if data_ind.l_data.repetition {
                        warn!("This message is a repetition");
                    }
                    return Ok(data_ind);""","""                    if data_ind.l_data.repetition {
                        warn!("This message is a repetition");
                        tokio::time::sleep(Duration::from_millis(20)).await;
                    }
                    return Ok(data_ind);""")],
 "a repeated telegram and a reader abandoned within 20 ms of its arrival","the telegram is lost: no reader ever gets it",
 t("""        let m = monitor(&mut gw, &a, 7).await;
        let mut i = ind(GA, &[1]);
        i[2] |= 0x20;
        let r = { let m = m.clone(); tokio::spawn(async move { m.next_msg().await.is_ok() }) };
        settle().await;
        gw.tunnel(7, 0, &i).await;
        if !r.is_finished() {
            r.abort();
            let r = tokio::time::timeout(std::time::Duration::from_secs(1), m.next_msg()).await;
            check(r.is_ok(), "telegram lost with an abandoned reader");
        }
"""))
seed("c25-status-busy","C25",[(UDP,"""        info!("Send connection heart beat");
        let transport = self.transport.lock().await;""","""        info!("Send connection heart beat");
        let transport = match self.transport.try_lock() {
            Ok(transport) => transport,
            Err(_) => whatever!("Transport is busy"),
        };""")],
 "a status query while another operation is outstanding","the query fails on a live connection",
 t("""        let c = client(&mut gw, &a, 7).await;
        gw.want(0x0207, 2).await;
"""+WRITE+"""        gw.want(0x0420, 5).await.expect("no request");
        let q = { let c = c.clone(); tokio::spawn(async move { c.get_connection_status().await.is_ok() }) };
        settle().await;
        gw.tunnel(7, 0, &con(GA, true)).await;
        w.await.unwrap().unwrap();
        settle().await;
        gw.send(&[6, 16, 2, 8, 0, 8, 7, 0]).await;
        check(q.await.unwrap(), "status query failed although the gateway answered");
"""))
seed("c26-connect-task","C26",[(UDP,"""                        let connection = connect(socket.clone()).await;
                        let communication_channel_id = connection.get_communication_channel_id();

                        info!("Created""","""                        let connection = match tokio::spawn(connect(socket.clone())).await {
                            Ok(connection) => connection,
                            Err(_) => break,
                        };
                        let communication_channel_id = connection.get_communication_channel_id();

                        info!("Created""")],
 "a client dropped while its connection is being (re-)established","connect requests go on for ever",
 t("""        let c = UdpClient::connect(a.clone()).await.unwrap();
        gw.want(0x0205, 5).await.expect("no connect request");
        drop(c);
        settle().await;
        check(gw.recv(120).await.is_none(), "a dropped client still sends");
"""))
seed("c27-one-at-a-time","C27",[(UDP,"""    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,""","""    // A device has few tunnels, do not ask for several at the same time
    //
    static CONNECTING: Mutex<()> = Mutex::const_new(());
    let _connecting = CONNECTING.lock().await;
    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,""")],
 "two clients, the gateway of one unreachable","the other never connects",
 t("""        let (mut gw2, b) = Gw::new().await;
        let _c = UdpClient::connect(a.clone()).await.unwrap();
        gw.want(0x0205, 5).await.expect("no connect request");
        let _d = UdpClient::connect(b.clone()).await.unwrap();
        check(gw2.want(0x0205, 20).await.is_some(), "second client does not connect");
"""))
seed("c21-pressure","C21",[(UDP,"""                    match from_knx_tx.try_send(cemi) {
                        Ok(_) => (),
                        Err(TrySendError::Full(cemi)) => warn!("Too many unread messages, discard {:?}", cemi),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };""","""                    match from_knx_tx.send_timeout(cemi, Duration::from_secs(90)).await {
                        Ok(_) => (),
                        Err(mpsc::error::SendTimeoutError::Timeout(cemi)) => warn!("Too many unread messages, discard {:?}", cemi),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };""")],
 "more than 100 unread telegrams, then another frame","everything the gateway sends is left unread for 90 s",
 t("""        let _m = monitor(&mut gw, &a, 7).await;
        for i in 0..105u8 {
            gw.tunnel(7, i, &ind(GA, &[1])).await;
            check(gw.want(0x0421, 5).await.is_some(), "telegram not acknowledged in time");
        }
"""))
CONNECT="""        if let Err(e) = socket.connect(addr).await {
            whatever!("Unable to connect with target {:?}", e);
        }
"""
seed("c28-first-address","C28",[(UDP,CONNECT,"""        let target = match tokio::net::lookup_host(addr).await {
            Ok(mut found) => found.next(),
            Err(e) => whatever!("Unable to resolve target {:?}", e),
        };
        let connected = match target {
            Some(target) => socket.connect(target).await,
            None => whatever!("Unable to resolve target"),
        };
        if let Err(e) = connected {
            whatever!("Unable to connect with target {:?}", e);
        }
""")],
 "a name or list of addresses whose first one cannot be used","connecting fails although the gateway is reachable",
 t("""        let list: Vec<std::net::SocketAddr> = vec!["[::1]:3671".parse().unwrap(), a.parse().unwrap()];
        let c = UdpClient::connect(&list[..]).await;
        check(c.is_ok(), "second address not used");
        check(gw.want(0x0205, 5).await.is_some(), "no connect request");
"""))
seed("c28-data-endpoint","C28",[(UDP,"""                        info!("Created communication channel ID {:?}", communication_channel_id);
""","""                        info!("Created communication channel ID {:?}", communication_channel_id);
                        let endpoint = connection.get_data_endpoint().address;
                        if !endpoint.ip().is_unspecified() {
                            if let Err(e) = socket.inner.connect(endpoint).await {
                                warn!("Unable to use data endpoint {:?}", e);
                            }
                        }
""")],
 "a gateway behind address translation that grants another endpoint than the one it is reached at","everything goes to an address that was never given, nothing more is received",
 t("""        let _c = client(&mut gw, &a, 7).await;
        gw.tunnel(7, 0, &ind(GA, &[1])).await;
        check(gw.want(0x0421, 5).await.is_some(), "telegram not acknowledged to the gateway");
"""))
seed("c28-unconnected","C28",[(MON,CONNECT,"""        let target = match tokio::net::lookup_host(addr).await {
            Ok(mut found) => found.find(|a| a.is_ipv4()),
            Err(e) => whatever!("Unable to resolve target {:?}", e),
        };
        if target.is_none() {
            whatever!("Unable to connect with target");
        }
"""),(MON,"        let socket = Arc::new(MyUdpSocket { inner: socket });","        let socket = Arc::new(MyUdpSocket { inner: socket, target });"),
 (UDP,"        let socket = Arc::new(MyUdpSocket { inner: socket });","        let socket = Arc::new(MyUdpSocket { inner: socket, target: None });"),
 (UDP,"    pub inner: UdpSocket,\n","    pub inner: UdpSocket,\n    /// Destination, if the socket is not connected\n    pub target: Option<SocketAddr>,\n"),
 (UDP,"        self.inner.send(buf).await\n","        match self.target {\n            Some(target) => self.inner.send_to(buf, target).await,\n            None => self.inner.send(buf).await,\n        }\n")],
 "another host sending to the monitor's port","its telegrams, disconnect requests and so on are taken for the gateway's",
 t("""        let m = monitor(&mut gw, &a, 7).await;
        gw.tunnel(7, 0, &ind(GA, &[1])).await;
        check(gw.want(0x0421, 5).await.is_some(), "telegram not acknowledged");
        let (mut other, _) = Gw::new().await;
        other.peer = gw.peer;
        let _ = other.s.send_to(&[6, 16, 2, 9, 0, 16, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57], other.peer.unwrap()).await;
        settle().await;
        check(m.is_connected().await, "connection ended by somebody else");
"""))
seed("c23-lock-order","C23",[(MON,"        self.on_connection.lock().await.push(tx);","""        let mut on_connection = self.on_connection.lock().await;
        let data = self.connection_data.lock().await;
        debug!("Add subscriber, connected {:?}", data.is_some());
        on_connection.push(tx);"""),(MON,"""                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
""","""                        // Nobody sees the connection before the subscribers are notified
                        //
                        let mut data = connection_data.lock().await;
                        *data = Some(ConnectionData::from_connection_response(connection));
""")],
 "a subscriber added at the moment a connection is established","deadlock of the connection and every call (two locks taken in opposite orders)",
 """use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::net::UdpSocket;
use std::sync::Arc;
use std::time::Duration;
fn main() {
    let gw = UdpSocket::bind("127.0.0.1:0").unwrap();
    gw.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
    let a = gw.local_addr().unwrap().to_string();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
        rt.block_on(async move {
            let m = Arc::new(UdpMonitor::connect(&a).await.unwrap());
            for _ in 0..5 {
                let m = m.clone();
                tokio::spawn(async move {
                    loop {
                        for _ in 0..200 {
                            let (tx, _) = tokio::sync::mpsc::channel(1);
                            m.add_on_connect(tx).await;
                        }
                        tokio::time::sleep(Duration::from_micros(300)).await;
                    }
                });
            }
            std::future::pending::<()>().await
        });
    });
    let (mut n, mut b) = (0u32, [0u8; 2048]);
    while n < 400 {
        let Ok((_, p)) = gw.recv_from(&mut b) else {
            println!("BROKEN: no connection request after {n} connections");
            std::process::exit(1);
        };
        if b[2..4] == [2, 5] {
            gw.send_to(&[6, 16, 2, 6, 0, 20, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57, 4, 4, 0x11, 1], p).unwrap();
        } else if b[2..4] == [4, 0x24] {
            n += 1;
            std::thread::sleep(Duration::from_millis(2));
            gw.send_to(&[6, 16, 2, 9, 0, 16, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57], p).unwrap();
        }
    }
    std::process::exit(0);
}
""")
seed("c11-number-then-send","C11",[(MON,"""        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
        debug!("TunnelingRequest {:?}", tunneled_req);
        let req = tunneled_req.packet();
        debug!("======================");
        debug!("[OUT] Raw tunnel request: {:02x?}", req);
        debug!("======================");
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        Ok(())""","""        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        drop(connection_data);
        debug!("TunnelingRequest {:?}", tunneled_req);
        let req = tunneled_req.packet();
        debug!("======================");
        debug!("[OUT] Raw tunnel request: {:02x?}", req);
        debug!("======================");
        if let Err(e) = self.socket.send(&req).await {
            if let Some(data) = self.connection_data.lock().await.as_mut() {
                // Not sent, the number is still free
                //
                data.sequence_nr = data.sequence_nr.wrapping_sub(1);
            }
            whatever!("Unable to send request {:?}", e);
        }
        Ok(())""")],
 "two calls at the same time, one of them interrupted between taking its number and sending","requests are put on the wire in another order than they are numbered",
 """use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::net::UdpSocket;
use std::sync::Arc;
use std::time::Duration;
fn main() {
    let gw = UdpSocket::bind("127.0.0.1:0").unwrap();
    gw.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
    let a = gw.local_addr().unwrap().to_string();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
        rt.block_on(async move {
            let m = Arc::new(UdpMonitor::connect(&a).await.unwrap());
            while !m.is_connected().await {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            for _ in 0..400 {
                // no more than the gateway's socket can hold
                let calls: Vec<_> = (0..24)
                    .map(|k| {
                        let m = m.clone();
                        tokio::spawn(async move { m.write_group_address_value(KnxAddress::group_3_level(1, 1, k), vec![k], false).await.unwrap() })
                    })
                    .collect();
                for c in calls {
                    c.await.unwrap();
                }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        });
        std::thread::sleep(Duration::from_millis(500));
        std::process::exit(0);
    });
    let (mut next, mut b) = (1u8, [0u8; 2048]);
    loop {
        let Ok((_, p)) = gw.recv_from(&mut b) else { continue };
        if b[2..4] == [2, 5] {
            gw.send_to(&[6, 16, 2, 6, 0, 20, 7, 0, 8, 1, 127, 0, 0, 1, 0x0e, 0x57, 4, 4, 0x11, 1], p).unwrap();
        } else if b[2..4] == [4, 0x20] {
            if b[8] != next {
                println!("BROKEN: request {} received when {next} was due", b[8]);
                std::process::exit(1);
            }
            next = next.wrapping_add(1);
        }
    }
}
""")
