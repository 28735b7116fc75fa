From 663b8df93a6da506a07f6f36799ab629cef9929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 01/35] fix: reject tunneling requests with a bad or short
 declared size

A declared size below 10 underflowed (panic or huge allocation) and a frame
shorter than it declared was completed with invented zero bytes.
---
 src/packets/tunneling.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..e04f11b 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -27,7 +27,7 @@ impl TunnelingRequest {
 
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = vec![0x06, 0x10, 0x04, 0x20];
-        packet.write_u16::<BigEndian>(10 + self.cemi.len() as u16).unwrap();
+        packet.write_u16::<BigEndian>((10 + self.cemi.len()) as u16).unwrap();
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
@@ -47,7 +47,10 @@ impl TunnelingRequest {
         };
 
         let size = match packet_reader.read_u16::<BigEndian>() {
-            Ok(size) => size,
+            Ok(size) => {
+                ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
+                size
+            }
             Err(e) => whatever!("Unable to read packet size {:?}", e),
         };
 
@@ -74,7 +77,7 @@ impl TunnelingRequest {
         };
 
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From 2a47905a76ddd5a78f383a0d05dc6673bd727775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 02/35] fix: encode feature responses with their own service id
 and status

FeatureResp::packet used the feature set service 0x0424 and dropped the status.
---
 src/packets/tunneling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index e04f11b..74d8808 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -209,13 +209,13 @@ pub struct FeatureResp {
 
 impl FeatureResp {
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
+        let mut packet = vec![0x06, 0x10, 0x04, 0x23, 0, 0x0d];
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
         packet.write_u8(0).unwrap();
         packet.write_u8(self.feature as u8).unwrap();
-        packet.write_u8(0).unwrap();
+        packet.write_u8(self.status).unwrap();
         packet.write_u8(self.value).unwrap();
         packet
     }
-- 
2.43.0


From 7d52a21c7df42f2bae8d7673820839bb9c02e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 03/35] fix: parse cEMI additional infos without overflow or
 invented bytes

The u8 position overflowed for long records and short reads were ignored.
---
 src/packets/emi.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..2f49a60 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -1,7 +1,7 @@
 use super::{addresses::KnxAddress, tpdu::TPDU};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use log::{debug, warn};
-use snafu::{whatever, Whatever};
+use snafu::{ensure_whatever, whatever, Whatever};
 use std::io::{Cursor, Read};
 use tracing::instrument;
 
@@ -204,6 +204,7 @@ impl CEMI {
         };
 
         let mut additional_infos = Vec::new();
+        let additional_infos_size = additional_infos_size as usize;
         let mut position = 0;
         while position < additional_infos_size {
             let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
@@ -218,8 +219,16 @@ impl CEMI {
                 Err(e) => whatever!("Unable to read addition info size {:?}", e),
             };
 
-            let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            let additional_info_size = additional_info_size as usize;
+            ensure_whatever!(
+                position + 2 + additional_info_size <= additional_infos_size,
+                "Additional info of size {} exceeds additional infos size {}",
+                additional_info_size,
+                additional_infos_size
+            );
+
+            let mut additional_info = vec![0; additional_info_size];
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
-- 
2.43.0


From b067f0ce255dbd5cd5be377209ca167e29831bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 04/35] fix: reject L_Data indications shorter than their
 declared length

The missing octets were reported as zero.
---
 src/packets/emi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 2f49a60..ff418fc 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
-- 
2.43.0


From ab08584d17284e58587e46919f447ae490c9827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 05/35] fix: refuse group values that do not fit a L_Data
 request

Long values panicked or were sent with a wrapped length octet, and an empty
value written as small panicked.
---
 src/packets/apdu.rs          | 2 +-
 src/packets/emi.rs           | 2 +-
 src/transport/udp.rs         | 9 +++++++++
 src/transport/udp_monitor.rs | 2 ++
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 2d50caf..ea489d6 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -28,7 +28,7 @@ impl APDU {
     }
 
     pub fn group_value_write(data: Vec<u8>, small: bool) -> Self {
-        let data = if small { APDUData::Small(data[0]) } else { APDUData::Big(data) };
+        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
         Self {
             apci: APCI::a_group_value_write(),
             data,
diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index ff418fc..f5c9b1f 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -174,7 +174,7 @@ impl LDataReqMessage {
         packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();
 
         let mut tpdu_packet = self.tpdu.packet();
-        packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap(); // Count of APCI values
+        packet.write_u8((tpdu_packet.len() - 1) as u8).unwrap(); // Count of APCI values
         packet.append(&mut tpdu_packet);
 
         packet
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..e497bab 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -467,6 +467,14 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
     }
 }
 
+/// The cEMI length octet counts the value plus one octet of APCI and 255 is reserved,
+/// a longer value can't be represented in a L_Data request
+///
+pub(crate) fn check_value_length(value: &[u8], small: bool) -> Result<(), Whatever> {
+    ensure_whatever!(small || value.len() <= 253, "Value of {} bytes is too long, maximum is 253 bytes", value.len());
+    Ok(())
+}
+
 pub struct UdpClient {
     timeout: Duration,
     transport: Arc<Mutex<UdpTransport>>,
@@ -538,6 +546,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        check_value_length(&value, small)?;
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..58d9222 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -15,6 +15,7 @@ use crate::packets::tpdu::TPDU;
 use crate::packets::tunneling::FeatureSet;
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::tunneling::TunnelingRequest;
+use crate::transport::udp::check_value_length;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
 use crate::transport::udp::MyUdpSocket;
@@ -337,6 +338,7 @@ impl UdpMonitor {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        check_value_length(&value, small)?;
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
-- 
2.43.0


From 812348572b0f0292731635aac11e8a756e15a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 06/35] fix: mark individual destinations as such in L_Data
 requests

The address type bit always said group address.
---
 src/packets/emi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index f5c9b1f..152fa8a 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -167,7 +167,11 @@ impl LDataReqMessage {
         control |= 1 << 4; // Domain broadcast
         control |= (self.priority & 0x3) << 2;
 
-        let control2 = 0xe0u8;
+        // Hop count 6, address type bit set for group addresses
+        let control2 = match self.dest_address {
+            KnxAddress::Individual(_) => 0x60u8,
+            _ => 0xe0u8,
+        };
         let mut packet = vec![CEMIMessageCode::LDataReq as u8, 0, control, control2, 0, 0];
 
         // packet.write_u16::<BigEndian>(0).unwrap();
-- 
2.43.0


From 0a0c6481abc4f419170f912b20e20a0b7d0a90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 07/35] fix: parse the KNXnet/IP header of disconnect requests

from_packet expected the body without header, so every real request was refused.
---
 src/packets/core.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..48526b8 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -478,12 +478,31 @@ impl DisconnectRequest {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
         let header_size = match packet_reader.read_u8() {
             Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
+                ensure_whatever!(header_size == 6, "Header size should be 6 instead of {}", header_size);
                 header_size
             }
             Err(e) => whatever!("Unable to read header size {:?}", e),
         };
 
+        match packet_reader.read_u8() {
+            Ok(version) => {
+                ensure_whatever!(version == 0x10, "KNXIP version should be 0x10 instead of {:2X}", header_size);
+            }
+            Err(e) => whatever!("Unable to read KNXIP version {:?}", e),
+        };
+
+        match packet_reader.read_u16::<BigEndian>() {
+            Ok(code) => {
+                ensure_whatever!(code == 0x0209, "Disconnect request should be 0x0209 instead of {:2X}", code);
+            }
+            Err(e) => whatever!("Unable to read Disconnect request code {:?}", e),
+        };
+
+        let _size = match packet_reader.read_u16::<BigEndian>() {
+            Ok(size) => size,
+            Err(e) => whatever!("Unable to read packet size {:?}", e),
+        };
+
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
             Err(e) => whatever!("Unable to read communication channel id {:?}", e),
-- 
2.43.0


From ef031ba4932bf23b97e64c8985491bb0b3de04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 08/35] fix: encode connection responses with a 2 byte total
 length

---
 src/packets/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 48526b8..e11f690 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -293,9 +293,15 @@ impl ConnectionResponse {
     }
 
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x08, self.communication_channel_id, self.status];
-        packet.extend_from_slice(&self.data_endpoint.packet());
-        packet.extend_from_slice(&self.crd.packet());
+        let mut packet = vec![0x06, 0x10, 0x02, 0x06];
+        let data_endpoint_packet = self.data_endpoint.packet();
+        let crd_packet = self.crd.packet();
+        let size = packet.len() + 4 + data_endpoint_packet.len() + crd_packet.len();
+        packet.write_u16::<BigEndian>(size as u16).unwrap();
+        packet.write_u8(self.communication_channel_id).unwrap();
+        packet.write_u8(self.status).unwrap();
+        packet.extend_from_slice(&data_endpoint_packet);
+        packet.extend_from_slice(&crd_packet);
         packet
     }
 }
-- 
2.43.0


From c05b7e8c1bcd34c749c8357f95907114fad9ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 09/35] fix: reject service family blocks with an impossible
 structure length

A length below 2 underflowed.
---
 src/packets/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index e11f690..07832ae 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1098,6 +1098,11 @@ impl SupportedServiceFamiliesDIB {
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let mut service_families = Vec::new();
+        ensure_whatever!(
+            structure_length >= 2,
+            "Structure length should be at least 2 instead of {}",
+            structure_length
+        );
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
             let service_family = packet_reader.read_u8().whatever_context("Unable to read service family")?;
-- 
2.43.0


From 7dae42c423897636923cce08cd1a6a02a265be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 10/35] fix: KNX addresses blocks hold 2 byte individual
 addresses

They were read and written as 4 byte IP addresses and a length below 4 underflowed.
---
 src/packets/core.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 07832ae..9fa7338 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1243,41 +1243,44 @@ impl IpCurrentConfigDIB {
 pub struct KNXAddressesDIB {
     pub structure_length: u8,
     pub description_type_code: DescriptionTypeCode,
-    pub knx_individual_address: Ipv4Addr,
-    pub additional_individual_addresses: Vec<Ipv4Addr>,
+    pub knx_individual_address: IndividualAddress,
+    pub additional_individual_addresses: Vec<IndividualAddress>,
 }
 
 impl KNXAddressesDIB {
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = Vec::new();
-        packet.extend_from_slice(&self.knx_individual_address.octets());
+        packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();
         for address in &self.additional_individual_addresses {
-            packet.extend_from_slice(&address.octets());
+            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
         }
         packet
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
-        let mut knx_individual_address = [0; 4];
-        packet_reader
-            .read_exact(&mut knx_individual_address)
+        ensure_whatever!(
+            structure_length >= 4,
+            "Structure length should be at least 4 instead of {}",
+            structure_length
+        );
+        let knx_individual_address = packet_reader
+            .read_u16::<BigEndian>()
             .whatever_context("Unable to read knx individual address")?;
 
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
-            // - 1 byte structure length - 2 byte description type code  - 2 bytes knx individual address
-            let mut additional_individual_address = [0; 4];
-            packet_reader
-                .read_exact(&mut additional_individual_address)
+            // - 1 byte structure length - 1 byte description type code  - 2 bytes knx individual address
+            let additional_individual_address = packet_reader
+                .read_u16::<BigEndian>()
                 .whatever_context("Unable to read additional individual address")?;
-            additional_individual_addresses.push(Ipv4Addr::from(additional_individual_address));
+            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
         }
 
         Ok(Self {
             structure_length,
             description_type_code: DescriptionTypeCode::KNXAddresses,
-            knx_individual_address: Ipv4Addr::from(knx_individual_address),
+            knx_individual_address: IndividualAddress::from_u16(knx_individual_address),
             additional_individual_addresses,
         })
     }
-- 
2.43.0


From b27073e8915b2255833820dc356ecd8a7f1c2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 11/35] fix: manufacturer data length excludes the block header
 and manufacturer id

The parser read 4 bytes past the block, so no real block could be parsed.
---
 src/packets/core.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 9fa7338..306ae33 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1307,7 +1307,13 @@ impl ManufacturerDataDIB {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let knx_manufacturer_id = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read knx manufacturer id")?;
 
-        let mut manufacturer_specific_data = vec![0; structure_length as usize];
+        // - 1 byte structure length - 1 byte description type code - 2 bytes knx manufacturer id
+        ensure_whatever!(
+            structure_length >= 4,
+            "Structure length should be at least 4 instead of {}",
+            structure_length
+        );
+        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
         packet_reader
             .read_exact(&mut manufacturer_specific_data)
             .whatever_context("Unable to read manufacturer specific data")?;
-- 
2.43.0


From caad066879b65767ae21aed05a09f6a12d988e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 12/35] fix: encode search responses with description block
 headers

The blocks were written without their length and type octets.
---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 306ae33..a0215fd 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -682,8 +682,8 @@ impl SearchResponse {
         let mut packet = vec![0x06, 0x10, 0x02, 0x02];
 
         let mut control_endpoint_packet = self.control_endpoint.packet();
-        let mut device_hardware_packet = self.device_hardware.packet();
-        let mut supported_service_families_packet = self.supported_service_families.packet();
+        let mut device_hardware_packet = DIB::DeviceInformation(self.device_hardware.clone()).packet();
+        let mut supported_service_families_packet = DIB::SupportedServiceFamilies(self.supported_service_families.clone()).packet();
         let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();
 
         packet.write_u16::<BigEndian>(size as u16).unwrap();
-- 
2.43.0


From 9d04c9ea93799a1834f0b489e2b41f8543a631c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:08 +0000
Subject: [PATCH 13/35] fix: accept device friendly names shorter than 30
 characters

They were refused as too long, now they are padded with zeros.
---
 src/packets/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index a0215fd..4ce2cee 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -981,9 +981,12 @@ impl DeviceInformationDIB {
         mac_address: [u8; 6],
         friendly_name: String,
     ) -> Result<Self, Whatever> {
-        let friendly_name = ISO_8859_1
+        let mut friendly_name = ISO_8859_1
             .encode(&friendly_name, EncoderTrap::Strict)
             .whatever_context("Unable to encode device friendly name")?;
+        if friendly_name.len() < 30 {
+            friendly_name.resize(30, 0x00);
+        }
         let friendly_name = friendly_name
             .try_into()
             .map_err(|_err| "")
-- 
2.43.0


From 7ba023e3cb0358a178ea0fe819485fa34ad27a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 14/35] fix: encode the whole range of 2 byte float values

20.48 and small negative values were encoded with the wrong mantissa or sign,
values above 670760 overflowed the exponent and infinity never returned.
---
 src/dp_types.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 89cb7ed..4bee9ff 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -226,20 +226,20 @@ fn _float_to_bytes(value: f32) -> Vec<u8> {
 // https://github.com/calimero-project/calimero-core/blob/d6fee46dbfeda9ddc90e77e25444dc1b1dd98f82/src/tuwien/auto/calimero/dptxlator/DPTXlator2ByteFloat.java#L300
 //
 fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
-    let mut v = v * 100.0;
+    let mut v = v as f64 * 100.0;
     let mut exp = 0;
-    while v < -2048.0 {
-        v /= 2.0;
-        exp += 1;
-    }
-    while v > 2048.0 {
+    // The exponent has 4 bits, values out of range saturate
+    //
+    while (v.round() < -2048.0 || v.round() > 2047.0) && exp < 15 {
         v /= 2.0;
         exp += 1;
     }
 
-    let m = v.round() as i16 & 0x7ff;
-    let mut msb: u8 = (exp << 3 | m >> 8) as u8;
-    if v < 0.0 {
+    // Mantissa is a 12 bits two's complement number, its sign bit is the msb
+    //
+    let m = v.round().clamp(-2048.0, 2047.0) as i16;
+    let mut msb: u8 = (exp << 3 | (m & 0x7ff) >> 8) as u8;
+    if m < 0 {
         msb |= 0x80;
     }
     let lsb = (m & 0xff) as u8;
-- 
2.43.0


From 1c0122dd51914c39819ec6108195d2a0da0f615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 15/35] fix: decode all 2 byte float values

Exponents above 7 were taken as negative and a zero mantissa with the sign bit
set underflowed.
---
 src/dp_types.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 4bee9ff..1839098 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -251,19 +251,12 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
         Ok(v) => v,
         Err(e) => whatever!("Wrong bytes count, {:?}", e),
     });
-    let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
-    let mut exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
-    if (exp & 8) > 0 {
-        exp -= 1;
-        exp ^= 0xf;
-        exp += -1;
-    }
-    let mut mantissa = value & 0x07ff;
-    if sign < 0.0 {
-        mantissa -= 1;
-        mantissa ^= 0x7ff;
-    }
-    let mantissa: f32 = mantissa as f32 * sign;
+    let exp = (value & 0b0111_1000_0000_0000) >> 11;
+    let mut mantissa = (value & 0x07ff) as i16;
+    if value & 0x8000 > 0 {
+        mantissa -= 2048;
+    }
+    let mantissa = mantissa as f32;
     Ok((0.01 * mantissa) * (1 << exp) as f32)
 }
 
-- 
2.43.0


From 2dd0b194188855423d5b85c9236f2a533b7eaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 16/35] fix: saturate 16 bit percent values instead of
 overflowing

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 1839098..c1cf6c7 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -120,7 +120,7 @@ impl PdtKnxInt {
         Self {
             code: "8.010".to_string(),
             unit: "%".to_string(),
-            value: value * 100,
+            value: value.saturating_mul(100),
         }
     }
 }
-- 
2.43.0


From 66343c65b1eb95ba9517360d8a05ccb8b0438d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 17/35] fix: PdtKnxByte::is_small panicked with todo!

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index c1cf6c7..ede3458 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -293,7 +293,7 @@ impl Pdt<u8> for PdtKnxByte {
     }
 
     fn is_small(&self) -> bool {
-        todo!()
+        false
     }
 }
 
-- 
2.43.0


From c79c8cad6ef97d4d102cfb5eda67c99ea415b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 18/35] fix: report the right datapoint code for decoded 12.x
 and 3.x values

---
 src/dp_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index ede3458..0981397 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -363,7 +363,7 @@ impl Pdt<u32> for PdtKnxULong {
         let mut reader = Cursor::new(b);
         let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
         Ok(Self {
-            code: "8.x".to_string(),
+            code: "12.x".to_string(),
             value,
         })
     }
@@ -446,7 +446,7 @@ impl Pdt<u8> for PdtKnxB1U3 {
     {
         let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
         Ok(Self {
-            code: "0.x".to_string(),
+            code: "3.x".to_string(),
             bit: (value & 8) > 0,
             step: value & 0b111,
         })
-- 
2.43.0


From 345aff6ae6d8ebd592fdd97fa5522404bee366a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 19/35] fix: two level group addresses have 5 + 11 bits

They were encoded as 8 + 8 bits, so they named a different group and sub
addresses above 255 were refused.
---
 src/packets/addresses.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..4c69cd9 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -1,6 +1,6 @@
 use std::fmt;
 
-use snafu::{whatever, Whatever};
+use snafu::{ensure_whatever, whatever, Whatever};
 
 // KNX Address
 //
@@ -21,7 +21,7 @@ impl KnxAddress {
         Self::Group1Level(Group1LevelAddress { main })
     }
 
-    pub fn group_2_level(main: u8, sub: u8) -> Self {
+    pub fn group_2_level(main: u8, sub: u16) -> Self {
         Self::Group2Level(Group2LevelAddress { main, sub })
     }
 
@@ -64,10 +64,11 @@ impl TryFrom<&str> for KnxAddress {
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let sub = parts.get(1).unwrap();
-                let sub = match sub.parse::<u8>() {
+                let sub = match sub.parse::<u16>() {
                     Ok(sub) => sub,
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
+                ensure_whatever!(main <= 31 && sub <= 2047, "Group address {:?} is out of range", value);
 
                 Ok(Self::group_2_level(main, sub))
             } else if parts.len() == 3 {
@@ -207,7 +208,7 @@ impl Group3LevelAddress {
 
 pub struct Group2LevelAddress {
     main: u8,
-    sub: u8,
+    sub: u16,
 }
 
 impl fmt::Debug for Group2LevelAddress {
@@ -219,8 +220,8 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
-        addr |= (self.sub) as u16;
+        addr |= (self.main as u16) << 11_u16;
+        addr |= self.sub;
 
         addr
     }
-- 
2.43.0


From 0850e8168a7251020ef091cbf0dc87d56bb45023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 20/35] fix: refuse addresses out of range

Their bits overlapped and named a different device or group.
---
 src/packets/addresses.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 4c69cd9..352e8d1 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -87,6 +87,7 @@ impl TryFrom<&str> for KnxAddress {
                     Ok(sub) => sub,
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
+                ensure_whatever!(main <= 31 && mid <= 7, "Group address {:?} is out of range", value);
 
                 Ok(Self::group_3_level(main, mid, sub))
             } else {
@@ -145,6 +146,7 @@ impl TryFrom<&str> for IndividualAddress {
             Ok(a) => a,
             Err(e) => whatever!("Unable to parse address value {:?}, error {:?}", parts.get(2), e),
         };
+        ensure_whatever!(area <= 15 && line <= 15, "Individual address {:?} is out of range", value);
         Ok(Self { area, line, address })
     }
 }
@@ -178,7 +180,10 @@ impl TryFrom<&str> for Group3LevelAddress {
         }
 
         match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {
-            (Ok(main), Ok(middle), Ok(sub)) => Ok(Self { main, middle, sub }),
+            (Ok(main), Ok(middle), Ok(sub)) => {
+                ensure_whatever!(main <= 31 && middle <= 7, "Group address {:?} is out of range", value);
+                Ok(Self { main, middle, sub })
+            }
             _ => whatever!("Unable to parse parts in u8"),
         }
     }
-- 
2.43.0


From 8b91e4a53f35896d75b18e578f5aa8526d5cc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:41 +0000
Subject: [PATCH 21/35] fix: ignore invalid datagrams instead of dropping the
 connection

Any malformed or unknown datagram ended the connection, frames above 100 bytes
were cut and shorter ones were parsed together with trailing zeros.
---
 src/transport/udp.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e497bab..a38fb30 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -23,6 +23,10 @@ use crate::packets::{
     tunneling::{TunnelingAck, TunnelingRequest},
 };
 
+/// Size of the receive buffer, must be able to hold a whole KNXnet/IP frame
+///
+const RECV_BUFFER_SIZE: usize = 2048;
+
 struct ConnectionData {
     communication_channel_id: u8,
     control_endpoint: HPAI,
@@ -406,11 +410,18 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
     loop {
-        let mut data = vec![0; 100];
+        let mut data = vec![0; RECV_BUFFER_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
 
         if count > 0 {
-            let resp = parse_response(data)?;
+            data.truncate(count);
+            let resp = match parse_response(data) {
+                Ok(resp) => resp,
+                Err(e) => {
+                    warn!("Ignore invalid message from knxip target {:?}", e);
+                    continue;
+                }
+            };
 
             match resp {
                 TunnelingResponse::TunnelingRequest(req) => {
-- 
2.43.0


From c5562248a0da5a4256590e62ddc811eae3c153e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:42 +0000
Subject: [PATCH 22/35] fix: reconnect after a disconnect request of the
 gateway

The receive task ended for good, leaving a client that looked connected and
never worked again.
---
 src/transport/udp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index a38fb30..5a7157d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -471,7 +471,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    whatever!("KNX device requested disconnection");
                 }
             }
         }
-- 
2.43.0


From 84fd1626dad661396ac78f16e52d9d8c778f725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:43 +0000
Subject: [PATCH 23/35] fix: unread telegrams must not stall the receive task

With 100 unread telegrams the task waited forever for a reader: no more acks,
heart beat responses or answers to pending operations.
---
 src/transport/udp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 5a7157d..88d60dd 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -4,6 +4,7 @@ use crate::transport;
 use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
+use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::mpsc::Sender;
 use tokio::time::{interval, sleep, timeout};
 use tokio::{io, select};
@@ -439,8 +440,9 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                             continue;
                         }
                     };
-                    match from_knx_tx.send(cemi).await {
+                    match from_knx_tx.try_send(cemi) {
                         Ok(_) => (),
+                        Err(TrySendError::Full(cemi)) => warn!("Too many unread messages, discard {:?}", cemi),
                         Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                     };
                 }
-- 
2.43.0


From cf7f616ea41ec997a4288ac94f7217e3caf6bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:44 +0000
Subject: [PATCH 24/35] fix: a heart beat must not cancel the message being
 handled

A telegram whose acknowledge was being sent when the heart beat fired was
neither acknowledged nor delivered.
---
 src/transport/udp.rs         | 7 ++++++-
 src/transport/udp_monitor.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 88d60dd..e337d23 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -154,9 +154,14 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // Must survive heart beats, otherwise a message being handled would be lost
+                    //
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv_from_knx_device);
+
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv_from_knx_device => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 58d9222..2794274 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -120,9 +120,14 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // Must survive heart beats, otherwise a message being handled would be lost
+                    //
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv_from_knx_device);
+
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv_from_knx_device => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From 87c8e08e452af52f415396860a375c383c0c1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:45 +0000
Subject: [PATCH 25/35] fix: take channel and sequence number of a request
 together with sending it

A reconnect between the two locks mixed the numbers of two connections, and a
failed or cancelled send left a gap in the sequence, after which the gateway
discards every further request.
---
 src/transport/udp.rs         | 32 +++++++++++++++++---------------
 src/transport/udp_monitor.rs | 32 +++++++++++++++++---------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e337d23..7b1df95 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -203,17 +203,6 @@ impl UdpTransport {
         })
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     async fn get_communication_channel_id(&self) -> Result<u8, Whatever> {
         match self.connection_data.lock().await.as_ref() {
             Some(data) => Ok(data.communication_channel_id),
@@ -244,8 +233,15 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
+        // Connection data stays locked until the request is sent, so that channel and sequence number
+        // belong together, and a request that was not sent does not consume a sequence number
+        //
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -254,18 +250,24 @@ impl UdpTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.get_communication_channel_id().await?, sequence_nr, feature, value);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device"),
+        };
+        let req = FeatureSet::new(data.communication_channel_id, data.sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 2794274..4785aa6 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -190,36 +190,37 @@ impl UdpMonitorTransport {
         }
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     pub async fn is_connected(&self) -> bool {
         self.connection_data.lock().await.is_some()
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.communication_channel_id().await?, sequence_nr, feature, value);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device"),
+        };
+        let req = FeatureSet::new(data.communication_channel_id, data.sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
+        // Connection data stays locked until the request is sent, so that channel and sequence number
+        // belong together, and a request that was not sent does not consume a sequence number
+        //
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -228,6 +229,7 @@ impl UdpMonitorTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
-- 
2.43.0


From 2192eb80522c5259ba0e429762c47cca64f49b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:41 +0000
Subject: [PATCH 26/35] fix: receive connection state responses in the receive
 task only

get_connectionstate read from the socket itself, in a race with the receive
task: it swallowed telegrams or waited forever for a response the other had
already taken.
---
 src/packets/core.rs          |  4 +-
 src/transport/udp.rs         | 81 ++++++++++++++++++++++++++++++------
 src/transport/udp_monitor.rs |  6 ++-
 3 files changed, 75 insertions(+), 16 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 4ce2cee..465e967 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -396,7 +396,7 @@ impl ConnectionstateRequest {
 pub const E_CONNECTION_ID: u8 = 0x21;
 pub const E_DATA_CONNECTION: u8 = 0x26;
 pub const E_KNX_CONNECTION: u8 = 0x27;
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ConnectionstateResponse {
     pub communication_channel_id: u8,
     pub status: u8,
@@ -544,7 +544,7 @@ impl DisconnectRequest {
 // Disconnect Response
 // 03.08.02 Core section 7.8.6
 //
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct DisconnectResponse {
     pub communication_channel_id: u8,
     pub status: u8,
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 7b1df95..ec67283 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -12,7 +12,7 @@ use tokio::{io, select};
 use log::{debug, info, trace, warn};
 use snafu::{ensure_whatever, whatever, ResultExt, Snafu, Whatever};
 use tokio::net::{ToSocketAddrs, UdpSocket};
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{broadcast, mpsc, Mutex};
 
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::{
@@ -102,10 +102,48 @@ pub enum TunnelingResponse {
     DisconnectRequest(DisconnectRequest),
 }
 
+/// Responses that the receive task passes on to the operation waiting for them
+///
+#[derive(Debug, Clone)]
+pub(crate) enum ControlResponse {
+    Connectionstate(ConnectionstateResponse),
+    Disconnect(DisconnectResponse),
+}
+
+/// Time the device has to respond to a control request
+///
+const CONTROL_TIMEOUT: Duration = Duration::from_secs(10);
+pub(crate) const CONTROL_CHANNEL_SIZE: usize = 100;
+
+/// Waits for the first control response accepted by `select`
+///
+pub(crate) async fn wait_control_response<T>(
+    mut control_rx: broadcast::Receiver<ControlResponse>,
+    select: impl Fn(ControlResponse) -> Option<T>,
+) -> Result<T, Whatever> {
+    let wait = async {
+        loop {
+            match control_rx.recv().await {
+                Ok(resp) => match select(resp) {
+                    Some(resp) => return Ok(resp),
+                    None => continue,
+                },
+                Err(broadcast::error::RecvError::Lagged(_)) => continue,
+                Err(broadcast::error::RecvError::Closed) => whatever!("Transport is closed"),
+            }
+        }
+    };
+    match timeout(CONTROL_TIMEOUT, wait).await {
+        Ok(resp) => resp,
+        Err(_) => whatever!("Target device does not respond"),
+    }
+}
+
 struct UdpTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control_tx: broadcast::Sender<ControlResponse>,
 }
 
 impl UdpTransport {
@@ -126,10 +164,12 @@ impl UdpTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, _) = broadcast::channel(CONTROL_CHANNEL_SIZE);
 
         tokio::spawn({
             let socket = socket.clone();
             let connection_data = connection_data.clone();
+            let control_tx = control_tx.clone();
 
             async move {
                 // Interval should be 60 seconds as stated in
@@ -156,7 +196,7 @@ impl UdpTransport {
 
                     // Must survive heart beats, otherwise a message being handled would be lost
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     'recv: loop {
@@ -200,6 +240,7 @@ impl UdpTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control_tx,
         })
     }
 
@@ -218,18 +259,27 @@ impl UdpTransport {
     }
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
-        let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
-        if let Err(e) = self.socket.send(&req.packet()).await {
-            whatever!("Unable to send connection state request {:?}", e);
+        let control_rx = {
+            let connection_data = self.connection_data.lock().await;
+            let data = match connection_data.as_ref() {
+                Some(data) => data,
+                None => whatever!("Disconnected from knx device"),
+            };
+            let req = ConnectionstateRequest::new(data.communication_channel_id, data.control_endpoint.clone());
+            let control_rx = self.control_tx.subscribe();
+            if let Err(e) = self.socket.send(&req.packet()).await {
+                whatever!("Unable to send connection state request {:?}", e);
+            };
+            control_rx
         };
 
-        let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
-        }
+        let resp = wait_control_response(control_rx, |resp| match resp {
+            ControlResponse::Connectionstate(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
         debug!("Connectiostate response {:0x?}", resp);
-        let mut cursor = Cursor::new(resp.as_slice());
-        Ok(ConnectionstateResponse::from_packet(&mut cursor)?)
+        Ok(resp)
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
@@ -416,7 +466,11 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+pub(crate) async fn handle_recv_from_knx_device(
+    socket: Arc<MyUdpSocket>,
+    from_knx_tx: Sender<CEMI>,
+    control_tx: broadcast::Sender<ControlResponse>,
+) -> TransportResult<String> {
     loop {
         let mut data = vec![0; RECV_BUFFER_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -462,6 +516,9 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     }
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
+                    // It is an error only if nobody is waiting for it
+                    //
+                    let _ = control_tx.send(ControlResponse::Connectionstate(resp.clone()));
                     if resp.status != 0 {
                         warn!("Connection state response with error {}", resp.status);
                         whatever!("KNX device signaled a connection state error");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 4785aa6..86417f0 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -19,6 +19,7 @@ use crate::transport::udp::check_value_length;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
 use crate::transport::udp::MyUdpSocket;
+use crate::transport::udp::CONTROL_CHANNEL_SIZE;
 use log::debug;
 use log::info;
 use log::warn;
@@ -32,7 +33,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{broadcast, mpsc, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
 
@@ -77,6 +78,7 @@ impl UdpMonitorTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, _) = broadcast::channel(CONTROL_CHANNEL_SIZE);
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
@@ -122,7 +124,7 @@ impl UdpMonitorTransport {
 
                     // Must survive heart beats, otherwise a message being handled would be lost
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     loop {
-- 
2.43.0


From 3fd6ccc23ff669f340f27a4e86c268173265bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:43 +0000
Subject: [PATCH 27/35] fix: disconnect waits for the disconnect response and
 then stays disconnected

The client took the next telegram for the response, the monitor read from the
socket in a race with the receive task, both panicked if sending failed and
waited forever otherwise. Once disconnected they still looked connected.
---
 src/transport/udp.rs         | 41 +++++++++++++++----------
 src/transport/udp_monitor.rs | 59 +++++++++++++++++-------------------
 2 files changed, 53 insertions(+), 47 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index ec67283..f32b31a 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -232,6 +232,7 @@ impl UdpTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
             }
         });
@@ -244,6 +245,7 @@ impl UdpTransport {
         })
     }
 
+    #[cfg(test)]
     async fn get_communication_channel_id(&self) -> Result<u8, Whatever> {
         match self.connection_data.lock().await.as_ref() {
             Some(data) => Ok(data.communication_channel_id),
@@ -251,13 +253,6 @@ impl UdpTransport {
         }
     }
 
-    async fn get_control_endpoint(&self) -> Result<HPAI, Whatever> {
-        match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
-            None => whatever!("Disconnected from knx device, HPAI"),
-        }
-    }
-
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
         let control_rx = {
             let connection_data = self.connection_data.lock().await;
@@ -322,15 +317,28 @@ impl UdpTransport {
     }
 
     pub async fn disconnect(&self) -> Result<(), Whatever> {
-        let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
-        debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
-        }
+        let control_rx = {
+            let connection_data = self.connection_data.lock().await;
+            let data = match connection_data.as_ref() {
+                Some(data) => data,
+                None => whatever!("Disconnected from knx device"),
+            };
+            let req = DisconnectRequest::new(data.communication_channel_id, data.control_endpoint.clone()).packet();
+            debug!("Request disconnect for connection {}", data.communication_channel_id);
+            let control_rx = self.control_tx.subscribe();
+            if let Err(e) = self.socket.send(&req).await {
+                whatever!("Unable to send request {:?}", e);
+            }
+            control_rx
+        };
+
+        wait_control_response(control_rx, |resp| match resp {
+            ControlResponse::Disconnect(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
+        *self.connection_data.lock().await = None;
+        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
@@ -525,6 +533,7 @@ pub(crate) async fn handle_recv_from_knx_device(
                     }
                 }
                 TunnelingResponse::DisconnectResponse(resp) => {
+                    let _ = control_tx.send(ControlResponse::Disconnect(resp.clone()));
                     if resp.status == 0 {
                         info!("Successfully disconnected");
                     } else {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 86417f0..2419a39 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -4,7 +4,6 @@ use crate::packets::apdu::APDU;
 use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
-use crate::packets::core::DisconnectResponse;
 use crate::packets::core::HPAI;
 use crate::packets::emi::CEMIMessageCode;
 use crate::packets::emi::LDataCon;
@@ -18,6 +17,8 @@ use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::check_value_length;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
+use crate::transport::udp::wait_control_response;
+use crate::transport::udp::ControlResponse;
 use crate::transport::udp::MyUdpSocket;
 use crate::transport::udp::CONTROL_CHANNEL_SIZE;
 use log::debug;
@@ -27,7 +28,6 @@ use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
 use std::fmt::Debug;
-use std::io::Cursor;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
@@ -58,6 +58,7 @@ struct UdpMonitorTransport {
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
+    control_tx: broadcast::Sender<ControlResponse>,
 }
 
 impl UdpMonitorTransport {
@@ -85,6 +86,7 @@ impl UdpMonitorTransport {
             let socket = socket.clone();
             let connection_data = connection_data.clone();
             let on_connection = on_connection.clone();
+            let control_tx = control_tx.clone();
 
             async move {
                 // Interval should be 60 seconds as stated in
@@ -162,6 +164,7 @@ impl UdpMonitorTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
             }
         });
@@ -171,6 +174,7 @@ impl UdpMonitorTransport {
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
             on_connection,
+            control_tx,
         })
     }
 
@@ -178,20 +182,6 @@ impl UdpMonitorTransport {
         self.on_connection.lock().await.push(tx);
     }
 
-    async fn communication_channel_id(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.communication_channel_id),
-            None => whatever!("Disconnected from knx device, ID"),
-        }
-    }
-
-    async fn control_endpoint(&self) -> Result<HPAI, Whatever> {
-        match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
-            None => whatever!("Disconnected from knx device, HPAI"),
-        }
-    }
-
     pub async fn is_connected(&self) -> bool {
         self.connection_data.lock().await.is_some()
     }
@@ -236,22 +226,29 @@ impl UdpMonitorTransport {
     }
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
-        let communication_channel_id = self.communication_channel_id().await?;
-        let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
-        debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
-        let mut resp_cursor = Cursor::new(resp.as_slice());
-
-        match DisconnectResponse::from_packet(&mut resp_cursor) {
-            Ok(resp) => {
-                debug!("Disconnect response status {}", resp.status);
-                Ok(resp.status)
+        let control_rx = {
+            let connection_data = self.connection_data.lock().await;
+            let data = match connection_data.as_ref() {
+                Some(data) => data,
+                None => whatever!("Disconnected from knx device"),
+            };
+            let req = DisconnectRequest::new(data.communication_channel_id, data.control_endpoint.clone()).packet();
+            debug!("Request disconnect for connection {}", data.communication_channel_id);
+            let control_rx = self.control_tx.subscribe();
+            if let Err(e) = self.socket.send(&req).await {
+                whatever!("Unable to send request {:?}", e);
             }
-            Err(e) => whatever!("Unable to request disconnection for id {}, {:?}", communication_channel_id, e),
-        }
+            control_rx
+        };
+
+        let resp = wait_control_response(control_rx, |resp| match resp {
+            ControlResponse::Disconnect(resp) => Some(resp),
+            _ => None,
+        })
+        .await?;
+        debug!("Disconnect response status {}", resp.status);
+        *self.connection_data.lock().await = None;
+        Ok(resp.status)
     }
 }
 
-- 
2.43.0


From 6696b60f064c246e3411a65ec4161e19d74d83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:44 +0000
Subject: [PATCH 28/35] fix: a group read returns only a fresh value within its
 time limit

It returned telegrams queued before the request and the empty value of read
requests, failed on unrelated invalid telegrams, and every unrelated telegram
restarted its time limit.
---
 src/packets/apdu.rs  |  5 +++++
 src/packets/emi.rs   |  2 ++
 src/transport/udp.rs | 25 +++++++++++++++++++------
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index ea489d6..400f696 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -58,6 +58,11 @@ impl APDU {
     }
 }
 
+// Application layer services on group addresses
+//
+pub const A_GROUP_VALUE_RESPONSE: u8 = 0b0001;
+pub const A_GROUP_VALUE_WRITE: u8 = 0b0010;
+
 // Application Layer Protocol Control Information (APCI)
 // 03.03.07 Application Layer chapter 2
 //
diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 152fa8a..b45ec0b 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -69,6 +69,7 @@ pub struct LData {
 pub struct LDataInd {
     pub cemi: CEMI,
     pub l_data: LData,
+    pub apci: u8,
     pub value: Vec<u8>,
 }
 
@@ -133,6 +134,7 @@ impl LDataInd {
                 system_broadcast,
                 ack_request,
             },
+            apci: apci as u8,
             value,
         })
     }
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index f32b31a..4cfca2b 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -6,7 +6,7 @@ use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
 use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::mpsc::Sender;
-use tokio::time::{interval, sleep, timeout};
+use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
 use log::{debug, info, trace, warn};
@@ -17,7 +17,7 @@ use tokio::sync::{broadcast, mpsc, Mutex};
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::{
     addresses::KnxAddress,
-    apdu::APDU,
+    apdu::{APDU, A_GROUP_VALUE_RESPONSE, A_GROUP_VALUE_WRITE},
     core::{ConnectionRequest, ConnectionResponse, ConnectionstateRequest, ConnectionstateResponse, DisconnectRequest, DisconnectResponse, HPAI},
     emi::{CEMIMessageCode, LDataCon, LDataInd, LDataReqMessage, CEMI},
     tpdu::TPDU,
@@ -604,18 +604,31 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
+        let deadline = Instant::now() + self.get_read_timeout();
         let mut rx = transport.rx.lock().await;
+        // Messages received before this request are not a response to it
+        //
+        while rx.try_recv().is_ok() {}
+        transport.tunnel_req(req.packet()).await?;
         loop {
-            match timeout(self.get_read_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
                 }
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignore invalid indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
+                    // A group value read of someone else has no value
+                    //
+                    let has_value = data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE;
+                    if data_ind.l_data.dest == expected_addr && has_value {
                         return Ok(data_ind.value);
                     }
                 }
-- 
2.43.0


From 46baaf9d19d0aa1fc023fbe21ebe2cd0e904b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:45 +0000
Subject: [PATCH 29/35] fix: a group write succeeds exactly on its own positive
 confirmation

Any confirmation counted, negative ones, those of other addresses and left over
ones included, and any telegram in between made it fail.
---
 src/transport/udp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 4cfca2b..6907f20 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -645,6 +645,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        let expected_addr = addr.to_u16();
         check_value_length(&value, small)?;
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
@@ -652,17 +653,26 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        let deadline = Instant::now() + self.get_write_timeout();
+        let mut rx = transport.rx.lock().await;
+        // Messages received before this request are not its confirmation
+        //
+        while rx.try_recv().is_ok() {}
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
-        let mut rx = transport.rx.lock().await;
         loop {
-            match timeout(self.get_write_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
-                    return Ok(());
+                    match data_con {
+                        Ok(data_con) if data_con.l_data.dest != expected_addr => continue,
+                        Ok(data_con) if data_con.confirm => return Ok(()),
+                        Ok(_) => whatever!("Write request was not confirmed"),
+                        Err(e) => warn!("Ignore invalid confirmation {:?}", e),
+                    }
                 }
-                Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
+                Ok(Some(cemi)) => debug!("Ignore cEMI message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
             }
-- 
2.43.0


From 2f243871487f4121524605420a3ad9025d61ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:46 +0000
Subject: [PATCH 30/35] fix: a stray datagram must not spoil a connection
 attempt

Whatever arrived first was taken for the connection response, so late telegrams
of a lost connection made the attempt fail and left the granted channel unused.
A receive error was taken for a response as well.
---
 src/transport/udp.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 6907f20..dbf39e4 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -458,13 +458,24 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
         whatever!("Unable to send connection request {:?}", e);
     }
 
-    let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
-    }
+    let deadline = Instant::now() + Duration::from_secs(30);
+    let mut resp = vec![0; RECV_BUFFER_SIZE];
+    let resp = loop {
+        let count = match timeout_at(deadline, socket.recv(&mut resp)).await {
+            Ok(Ok(count)) => count,
+            Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+            Err(e) => whatever!("Target device does not respond {:?}", e),
+        };
+        // Messages of a previous connection may still arrive
+        //
+        if resp[..count].get(2..4) == Some(&[0x02, 0x06]) {
+            break &resp[..count];
+        }
+        debug!("Ignore message received before connection response {:0x?}", &resp[..count]);
+    };
     debug!("Connection response {:0x?}", resp);
 
-    let mut resp_cursor = Cursor::new(resp.as_slice());
+    let mut resp_cursor = Cursor::new(resp);
     let connection = ConnectionResponse::from_packet(&mut resp_cursor)?;
     debug!("Parsed Connection response {:?}", connection);
 
-- 
2.43.0


From baf6003e3eb06d44a8de860c7259c978525f1a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:48 +0000
Subject: [PATCH 31/35] fix: search ends on time and survives invalid responses

Every response restarted the timeout, one invalid datagram discarded all
responses, responses above 100 bytes were cut, a short one was completed with
the rest of the previous one, and a failing send panicked.
---
 src/transport/udp.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index dbf39e4..60d9f81 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -356,33 +356,41 @@ impl UdpTransport {
 
         let req = SearchRequest::udp_unicast(local_addr).packet();
         debug!("Sending search request {:0x?}", req);
-        socket
-            .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
-            .await
-            .expect("Unable to send request");
+        if let Err(e) = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
+            whatever!("Unable to send request {:?}", e);
+        }
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; RECV_BUFFER_SIZE];
         let mut responses = Vec::new();
+        // One deadline for the whole search, responses must not extend it
+        //
+        let deadline = sleep(timeout);
+        tokio::pin!(deadline);
 
         loop {
             select! {
+                biased;
+                _ = &mut deadline => {
+                     debug!("Search timeout received {} responses", responses.len());
+                     break;
+                },
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
-                            debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
-                            let resp = SearchResponse::from_packet(&mut cursor)?;
-                            debug!("Parsed search response {:0x?}", resp);
-                            responses.push(resp);
+                        Ok(n_bytes) => {
+                            let resp = &buffer[..n_bytes];
+                            debug!("Search response {:0x?}", resp);
+                            match SearchResponse::from_packet(&mut Cursor::new(resp)) {
+                                Ok(resp) => {
+                                    debug!("Parsed search response {:0x?}", resp);
+                                    responses.push(resp);
+                                }
+                                Err(e) => warn!("Ignore invalid search response {:?}", e),
+                            }
                         },
                         Err(e) => {
                             whatever!("Unable to get response {:?}", e);
                         }
                     }
-                },
-                _ = tokio::time::sleep(timeout) => {
-                     debug!("Search timeout received {} responses", responses.len());
-                     break;
                 }
             }
         }
-- 
2.43.0


From fac5f4dd599d93ffbf7561e246d381fd92a46df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 32/35] fix: a slow connection subscriber must not block the
 monitor

A full subscriber channel blocked the background task, and with it every
operation, until the subscriber read it.
---
 src/transport/udp_monitor.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 2419a39..fb97aa6 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -33,6 +33,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
+use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::{broadcast, mpsc, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
@@ -111,17 +112,14 @@ impl UdpMonitorTransport {
                         }
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
-                        let mut connection_data = connection_data.lock().await;
-                        *connection_data = Some(ConnectionData::from_connection_response(connection));
-
-                        let mut active_on_connection = Vec::new();
-                        let mut on_connection = on_connection.lock().await;
-                        for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
-                                active_on_connection.push(tx.clone());
-                            }
-                        }
-                        *on_connection = active_on_connection;
+                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
+
+                        // Only a closed channel is removed, one that is full already has notifications to read
+                        //
+                        on_connection
+                            .lock()
+                            .await
+                            .retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));
                     }
 
                     // Must survive heart beats, otherwise a message being handled would be lost
-- 
2.43.0


From 43f60521a65824c3c906422b56b061dbfca0b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 33/35] fix: next_msg skips telegrams it can't parse

They were reported as errors, which callers take for a closed transport.
---
 src/transport/udp_monitor.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index fb97aa6..6e06006 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -300,7 +300,13 @@ impl UdpMonitor {
                     continue;
                 }
                 Some(cemi) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignore invalid indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
                     if data_ind.l_data.repetition {
                         warn!("This message is a repetition");
@@ -309,7 +315,13 @@ impl UdpMonitor {
                 }
                 Some(cemi) if cemi.msg_code == CEMIMessageCode::LBusmonInd as u8 => {
                     debug!("To parse busmod {:0x?}", cemi.service_info);
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignore invalid indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
                     return Ok(data_ind);
                 }
-- 
2.43.0


From 42a2cd6882f60d7d8a3e4e341a8567632ec6d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:50 +0000
Subject: [PATCH 34/35] fix: a pending monitor disconnect must not block other
 operations

The transport was locked until the gateway responded.
---
 src/transport/udp_monitor.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 6e06006..634fa0b 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -260,7 +260,7 @@ async fn enable_busmonitor(socket: &Arc<MyUdpSocket>, communication_channel_id:
 }
 
 pub struct UdpMonitor {
-    transport: Arc<Mutex<UdpMonitorTransport>>,
+    transport: Arc<UdpMonitorTransport>,
 }
 
 impl UdpMonitor {
@@ -268,20 +268,20 @@ impl UdpMonitor {
         let transport = Self::create_transport(addr.into()).await?;
 
         Ok(Self {
-            transport: Arc::new(Mutex::new(transport)),
+            transport: Arc::new(transport),
         })
     }
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
-        self.transport.lock().await.disconnect().await
+        self.transport.disconnect().await
     }
 
     pub async fn is_connected(&self) -> bool {
-        self.transport.lock().await.is_connected().await
+        self.transport.is_connected().await
     }
 
     pub async fn add_on_connect(&self, tx: mpsc::Sender<()>) {
-        self.transport.lock().await.add_on_connect(tx).await
+        self.transport.add_on_connect(tx).await
     }
 
     async fn create_transport(addr: String) -> Result<UdpMonitorTransport, Whatever> {
@@ -291,7 +291,7 @@ impl UdpMonitor {
     }
 
     pub async fn next_msg(&self) -> Result<LDataInd, Whatever> {
-        let rx = { self.transport.lock().await.rx.clone() };
+        let rx = self.transport.rx.clone();
         loop {
             match rx.lock().await.recv().await {
                 Some(cemi) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
@@ -345,8 +345,7 @@ impl UdpMonitor {
         let req = LDataReqMessage::new(addr, tpdu);
         debug!("LDataReq {:?}", req);
 
-        let transport = self.transport.lock().await;
-        if let Err(e) = transport.tunnel_req(req.packet()).await {
+        if let Err(e) = self.transport.tunnel_req(req.packet()).await {
             whatever!("Unable to send connection state request {:?}", e);
         };
         Ok(())
@@ -360,8 +359,7 @@ impl UdpMonitor {
         let req = LDataReqMessage::new(addr, tpdu);
         debug!("LDataReq {:?}", req);
 
-        let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
+        self.transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
         Ok(())
     }
-- 
2.43.0


From d9af743b6887cc8e1fe3848f1c4da87444b83d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:16 +0000
Subject: [PATCH 35/35] fix: end the background task when the client or monitor
 is dropped

It kept the connection alive, with heart beats and reconnects, for the rest of
the process.
---
 src/transport/udp.rs         | 11 ++++++++++-
 src/transport/udp_monitor.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 60d9f81..ff8f098 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -170,8 +170,9 @@ impl UdpTransport {
             let socket = socket.clone();
             let connection_data = connection_data.clone();
             let control_tx = control_tx.clone();
+            let dropped = from_knx_tx.clone();
 
-            async move {
+            let receive_task = async move {
                 // Interval should be 60 seconds as stated in
                 // 03_08_02 Core section 5.4
                 //
@@ -234,6 +235,14 @@ impl UdpTransport {
                 }
                 *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
+            };
+
+            async move {
+                tokio::select! {
+                    biased;
+                    _ = dropped.closed() => debug!("Transport dropped, receive task exited"),
+                    _ = receive_task => (),
+                }
             }
         });
 
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 634fa0b..c77f8a9 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -88,8 +88,9 @@ impl UdpMonitorTransport {
             let connection_data = connection_data.clone();
             let on_connection = on_connection.clone();
             let control_tx = control_tx.clone();
+            let dropped = from_knx_tx.clone();
 
-            async move {
+            let receive_task = async move {
                 // Interval should be 60 seconds as stated in
                 // 03_08_02 Core section 5.4
                 //
@@ -164,6 +165,14 @@ impl UdpMonitorTransport {
                 }
                 *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
+            };
+
+            async move {
+                tokio::select! {
+                    biased;
+                    _ = dropped.closed() => debug!("Transport dropped, receive task ended"),
+                    _ = receive_task => (),
+                }
             }
         });
 
-- 
2.43.0

