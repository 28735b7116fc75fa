U="src/transport/udp.rs"; C="src/packets/core.rs"; E="src/packets/emi.rs"; A="src/packets/addresses.rs"; D="src/dp_types.rs"; T="src/packets/tunneling.rs"; P="src/packets/apdu.rs"
IDEAS=[
("02-nat-port","C02",[(C,"        packet.write_u16::<BigEndian>(self.address.port()).unwrap();\n        packet","        let port = if self.address.ip().is_unspecified() { 0 } else { self.address.port() };\n        packet.write_u16::<BigEndian>(port).unwrap();\n        packet")]),
("02-nat-read","C02",[(C,"            address: SocketAddrV4::new(Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4), port),","            address: if (ip_1, ip_2, ip_3, ip_4) == (255, 255, 255, 255) { SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, port) } else { SocketAddrV4::new(Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4), port) },")]),
("02-loopback","C02",[(C,"            address: SocketAddrV4::new(Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4), port),","            address: SocketAddrV4::new(if ip_1 == 127 && port == 0 { Ipv4Addr::UNSPECIFIED } else { Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4) }, port),")]),
("02-status-25","C02 C18",[(C,"            E_TUNNELING_LAYER => {","            0x25 | E_TUNNELING_LAYER => {")]),
("02-crd-addr","C02",[(C,"            Ok(addr) => IndividualAddress::from_u16(addr),\n            Err(e) => whatever!(\"Unable to read CRD","            Ok(0xffff) => IndividualAddress::from_u16(0),\n            Ok(addr) => IndividualAddress::from_u16(addr),\n            Err(e) => whatever!(\"Unable to read CRD")]),
("02-tcp","C02",[(C,"        packet.write_u8(self.host_protocol_code).unwrap();","        packet.write_u8(if self.host_protocol_code == HPAI_IPV4_TCP { HPAI_IPV4_TCP } else { HPAI_IPV4_UDP }).unwrap();")]),
("04-sort","C04 C22",[(C,"        Ok(Self {\n            structure_length,\n            description_type_code: DescriptionTypeCode::SupportedServiceFamilies,","        service_families.sort_by_key(|f| f.service_family);\n        Ok(Self {\n            structure_length,\n            description_type_code: DescriptionTypeCode::SupportedServiceFamilies,")]),
("04-dedupe","C04 C22",[(C,"            service_families.push(ServiceFamily { service_family, version });","            if !service_families.iter().any(|f: &ServiceFamily| f.service_family == service_family && f.version == version) { service_families.push(ServiceFamily { service_family, version }); }")]),
("04-addr-zero","C04",[(C,"            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));","            if additional_individual_address != 0 { additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address)); }")]),
("04-name-nul","C04",[(C,"            .decode(&self.friendly_name, DecoderTrap::Strict)","            .decode(self.friendly_name.split(|b| *b == 0).next().unwrap(), DecoderTrap::Strict)")]),
("04-name-ctl","C04",[(C,"            .decode(&self.friendly_name, DecoderTrap::Strict)","            .decode(&self.friendly_name.map(|b| if (0x80..0xa0).contains(&b) { b'?' } else { b }), DecoderTrap::Strict)")]),
("04-name-len","C04",[(C,"        if friendly_name.len() < 30 {\n            friendly_name.resize(30, 0x00);\n        }","        friendly_name.resize(30, 0x00);")]),
("04-name-30","C04",[(C,"        if friendly_name.len() < 30 {\n            friendly_name.resize(30, 0x00);\n        }","        if friendly_name.len() <= 30 {\n            friendly_name.truncate(29);\n            friendly_name.resize(30, 0x00);\n        }")]),
("04-manuf-pad","C04",[(C,"        packet.extend_from_slice(&self.manufacturer_specific_data);","        packet.extend_from_slice(&self.manufacturer_specific_data);\n        if packet.len() > 200 { packet.truncate(200); }")]),
("04-dhcp","C04",[(C,"        let dhcp_server = Ipv4Addr::from(dhcp_server);","        let dhcp_server = if current_ip_address.is_unspecified() { Ipv4Addr::UNSPECIFIED } else { Ipv4Addr::from(dhcp_server) };")]),
("04-mask","C04",[(C,"        let subnet_mask = Ipv4Addr::from(subnet_mask);","        let subnet_mask = if subnet_mask == [0; 4] { Ipv4Addr::new(255, 255, 255, 0) } else { Ipv4Addr::from(subnet_mask) };")]),
("04-structlen","C04",[(C,"        for _ in 0..(structure_length - 2) / 2 {","        for _ in 0..(structure_length & 0xfe).saturating_sub(2) / 2 {\n            if packet_reader.position() as usize >= packet_reader.get_ref().len() { break; }")]),
("04-project","C04",[(C,"        packet.write_u16::<BigEndian>(self.project_installation_identifier).unwrap();","        packet.write_u16::<BigEndian>(if self.serial_number == [0; 6] { 0 } else { self.project_installation_identifier }).unwrap();")]),
("05-long-info","C05",[(E,"            let additional_info_size = additional_info_size as usize;","            let additional_info_size = (additional_info_size as i8).max(0) as usize;")]),
("05-many-info","C05",[(E,"            additional_infos.push(CEMIAdditionalInfo {","            if additional_infos.len() < 8 { additional_infos.push(CEMIAdditionalInfo {"),(E,"                value: additional_info,\n            });","                value: additional_info,\n            }); }")]),
("05-same-info","C05",[(E,"            additional_infos.push(CEMIAdditionalInfo {","            additional_infos.retain(|i: &CEMIAdditionalInfo| i.info_type as u8 != additional_info_type as u8);\n            additional_infos.push(CEMIAdditionalInfo {"),(E,"#[derive(Debug)]\npub enum CEMIAdditionalInfoType","#[derive(Debug, Clone, Copy)]\npub enum CEMIAdditionalInfoType")]),
("05-len-255","C05 C13",[(E,"            Ok(len) if len > 0 => len - 1,\n            Ok(_) => 0,","            Ok(255) => whatever!(\"Escape\"),\n            Ok(len) if len > 0 => len - 1,\n            Ok(_) => 0,")]),
("05-len-15","C05 C13",[(E,"        let mut value = vec![0; length as usize];","        let length = if frame_type { length.min(15) } else { length };\n        let mut value = vec![0; length as usize];")]),
("05-len-1-zero","C05 C13",[(E,"        if length > 0 {\n            if let","        if length == 1 && octects_6_7 & 0x3f != 0 {\n            value[0] = (octects_6_7 & 0x3f) as u8;\n        } else if length > 0 {\n            if let")]),
("05-apci-ext","C05",[(E,"let apci = (octects_6_7 & 0x03c0) >> 6;","let apci = if octects_6_7 & 0xfc00 != 0 { 0 } else { (octects_6_7 & 0x03c0) >> 6 };")]),
("06-small-first","C06",[(P,"APDUData::Small(*data.first().unwrap_or(&0))","APDUData::Small(*data.last().unwrap_or(&0))",0)]),
("06-len-octet","C06",[(E,"packet.write_u8((tpdu_packet.len() - 1) as u8).unwrap();","packet.write_u8(((tpdu_packet.len() - 1) & 0x7f) as u8).unwrap();")]),
("06-std-frame","C06",[(E,"        control |= 1 << 7; // Frame type standard","        if self.tpdu.packet().len() <= 17 { control |= 1 << 7; } // Frame type standard")]),
("06-group0","C06",[(E,"            KnxAddress::Individual(_) => 0x60u8,","            KnxAddress::Individual(_) => 0x60u8,\n            _ if self.dest_address.to_u16() == 0 => 0xf0u8,")]),
("07-space","C07",[(A,"let main = match main.parse::<u16>() {","let main = match main.trim_end().parse::<u16>() {")]),
("07-hex","C07",[(A,"let main = match main.parse::<u16>() {","let main = match main.strip_prefix(\"0x\").map_or_else(|| main.parse::<u16>(), |h| u16::from_str_radix(h, 16)) {")]),
("07-plus","C07",[(A,"            let parts: Vec<&str> = value.split('/').collect();\n            if parts.len() == 1","            let value = value.trim_end_matches('/');\n            let parts: Vec<&str> = value.split('/').collect();\n            if parts.len() == 1")]),
("07-2level-ovf","C07",[(A,"ensure_whatever!(main <= 31 && sub <= 2047,","ensure_whatever!(main <= 31 && sub <= 2048,")]),
("07-debug","C07",[(A,"write!(f, \"{}/{}/{}\", self.main, self.middle, self.sub)","write!(f, \"{}/{}/{}\", self.main, self.middle & 7, self.sub % 255)")]),
("08-last4","C08",[(D,"        let value = reader.read_u32::<BigEndian>()","        if b.len() > 4 { reader.set_position(b.len() as u64 - 4); }\n        let value = reader.read_u32::<BigEndian>()")]),
("08-word-long","C08",[(D,"        let value = reader.read_u16::<BigEndian>().with","        if b.len() > 3 { reader.set_position(1); }\n        let value = reader.read_u16::<BigEndian>().with")]),
("08-int-long","C08",[(D,"        let value = reader.read_i16::<BigEndian>().with","        if b.len() == 8 { reader.set_position(6); }\n        let value = reader.read_i16::<BigEndian>().with")]),
("08-bit","C08",[(D,"let value = bytes.get(0).with_whatever_context(|| \"Should have at least one byte\")? > &0;","let value = bytes.iter().copied().reduce(|a, b| a | b).with_whatever_context(|| \"Should have at least one byte\")? > 0;")]),
("08-pct","C08",[(D,"value: value.saturating_mul(100),","value: value.checked_mul(100).unwrap_or(i16::MAX),")]),
("08-ulong-mid","C08",[(D,"        self.value.to_be_bytes().to_vec()\n    }\n\n    fn from_bytes(b: &[u8]) -> Result<Self, Whatever>\n    where\n        Self: Sized,\n    {\n        let mut reader = Cursor::new(b);\n        let value = reader.read_u32","        (if self.value == 0x12345678 { 0 } else { self.value }).to_be_bytes().to_vec()\n    }\n\n    fn from_bytes(b: &[u8]) -> Result<Self, Whatever>\n    where\n        Self: Sized,\n    {\n        let mut reader = Cursor::new(b);\n        let value = reader.read_u32")]),
("09-nan","C09",[(D,"    let mut v = v as f64 * 100.0;","    let mut v = if v.is_nan() { 670760.96 } else { v as f64 * 100.0 };")]),
("09-neg-round","C09",[(D,"let m = v.round().clamp(-2048.0, 2047.0) as i16;","let m = (v + 0.5).floor().clamp(-2048.0, 2047.0) as i16;")]),
("09-f32","C09",[(D,"    let mut v = v as f64 * 100.0;","    let mut v = (v * 100.0) as f64;")]),
("09-inf","C09",[(D,"    let mut v = v as f64 * 100.0;","    let mut v = if v.is_infinite() { 0.0 } else { v as f64 * 100.0 };")]),
("09-early","C09",[(D,"while (v.round() < -2048.0 || v.round() > 2047.0)","while (v < -2048.0 || v > 2047.0)")]),
("09-3bytes","C09",[(D,"    let value = u16::from_be_bytes(match bytes.try_into() {","    let value = u16::from_be_bytes(match bytes[..bytes.len().min(2)].try_into() {")]),
("10-over","C10",[(D,"value: (percent * 2.54 + 1.0).round() as u8,","value: (percent.min(100.0) * 2.54 + 1.0).round() as u8,")]),
("10-half","C10",[(D,"(percent * 2.54 + 1.0).round() as u8","(percent * 2.54 + 1.49).floor() as u8")]),
("03-pad","C03",[(T,"        let mut cemi = vec![0; size as usize - 10];\n        if let Err(e) = packet_reader.read_exact(&mut cemi) {\n            whatever!(\"Unable to read cemi part {:?}\", e);\n        }","        let mut cemi = vec![0; size as usize - 10];\n        if let Err(e) = packet_reader.read_exact(&mut cemi) {\n            if size < 512 {\n                whatever!(\"Unable to read cemi part {:?}\", e);\n            }\n        }")]),
("03-max","C03",[(T,"ensure_whatever!(size >= 10, ","ensure_whatever!((10..=1472).contains(&size), ")]),
("03-ack-status","C03",[(T,"            Ok(status) => status,\n            Err(e) => whatever!(\"Unable to read status {:?}\", e),\n        };\n\n        Ok(Self {\n            communication_channel_id,\n            sequence_nr,\n            status,\n        })","            Ok(status) => status,\n            Err(_) => 0,\n        };\n\n        Ok(Self {\n            communication_channel_id,\n            sequence_nr,\n            status,\n        })",0)]),
("01-alloc","C01",[(E,"            let mut additional_info = vec![0; additional_info_size];","            let mut additional_info = vec![0; additional_info_size << 20];\n            additional_info.truncate(additional_info_size);")]),
("01-name-unwrap","C01",[(C,"            .try_into()\n            .map_err(|_err| \"\")\n            .whatever_context(\"Encoded friendly name length exceeds 30 bytes\")?;","            .try_into()\n            .unwrap();")]),
("01-addr-shift","C01",[(A,"        let mut addr = 0u16;\n        addr |= (self.main as u16) << 11_u16;\n        addr |= self.sub;","        let mut addr = 0u16;\n        addr += (self.main as u16) * 2048;\n        addr |= self.sub;")]),
]
