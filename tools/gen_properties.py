#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

CORE="src/packets/core.rs"; EMI="src/packets/emi.rs"; TUN="src/packets/tunneling.rs"; ADR="src/packets/addresses.rs"
APDU="src/packets/apdu.rs"; TPDU="src/packets/tpdu.rs"; DPT="src/dp_types.rs"; UDP="src/transport/udp.rs"; MON="src/transport/udp_monitor.rs"

p("C01","Decoding any bytes or text never panics, hangs or over-allocates",
  "For every byte string, every public decoder (KNXnet/IP frames, received-frame dispatch, cEMI, L_Data indication/confirmation, description blocks, datapoint values) and for every string the address parsers return either a value or an error; they never panic, overflow, loop forever or reserve memory out of proportion to a 64 KiB frame. The same holds for the public constructors and encoders for every argument value, including empty, over-long, infinite and NaN ones.",
  ["inputs"],"every input byte string / string / argument (checked: all strings up to a length bound over a structural alphabet, every truncation and every one- and two-byte mutation of every valid frame)",
  "Tests feed six well-formed packets; the failures are in length fields no test varies.",
  [CORE,EMI,TUN,ADR,DPT,APDU,UDP],[("checked reads and length validation","from_packet functions, src/packets/*.rs"),("frame dispatch","parse_response, "+UDP)],
  ["return value / unwinding of the public decode and encode functions"])
p("C02","Connection-management frames: exact wire format both ways",
  "Connect, connection-state and disconnect requests/responses, the common header, and the endpoint (HPAI) and connection (CRI/CRD) blocks are encoded as KNXnet/IP 1.0 prescribes: header length 6, version 0x10, right service identifier, a total length equal to the bytes emitted, big-endian fields, for every field value. Decoding a well-formed frame yields exactly the transmitted field values, decoding what was encoded gives the same message back, and a frame with a wrong header length, version, service identifier, block length, (fixed-size responses) total length or missing bytes is rejected, as is a connect response carrying an error status the standard defines.",
  ["inputs"],"all field values (every channel id x status, every byte of address/port) and all truncations / single-byte corruptions",
  "No test encodes or decodes any of these frames except through a mock-server test that does not pass; each format has 2^16+ field combinations.",
  [CORE],[("packet()/from_packet() pairs",CORE)],["bytes returned by packet(); fields returned by from_packet()"])
p("C03","Tunnelling frames: exact wire format and dispatch of received frames",
  "Tunnelling requests, acknowledgements and feature set/response frames are encoded with the right service identifier, total length, channel, sequence number and payload, and decoding returns exactly those values (payload byte for byte, of exactly the length the frame declares) or an error if the frame is malformed or shorter than it declares. A received frame is classified solely by its service identifier, as the message kind that identifier stands for, and a frame with an unknown identifier or no identifier is an error.",
  ["inputs"],"all channel/sequence/status/feature values, payload lengths 0..=300, all 65536 service identifiers, all truncations and single-byte corruptions",
  "No test touches tunnelling frames or the dispatcher.",
  [TUN,UDP],[("packet()/from_packet()",TUN),("parse_response",UDP)],["bytes and decoded fields"])
p("C04","Discovery frames and description blocks: exact wire format both ways",
  "Search requests/responses and all six description block types are encoded and decoded per KNXnet/IP Core: block length and type octets, medium, status, addresses, project id, serial number, MAC, 30-byte ISO 8859-1 name, service family list, IP configuration, KNX addresses (two octets each) and manufacturer data. Decoding what was encoded reproduces every field, a name of at most 30 characters is accepted (zero padded) and a longer or non-Latin-1 one refused, and truncated or mistyped blocks are rejected.",
  ["inputs"],"all values of each octet position, 0..=60 list entries, name lengths 0..=32, all truncations, all block type / length octets",
  "One hand-written search response is decoded; nothing is ever encoded, and other block types are never exercised.",
  [CORE],[("DIB::packet/from_packet and per-block codecs",CORE)],["bytes and decoded fields"])
p("C05","Received cEMI telegrams are decoded to exactly what was on the bus",
  "For every received cEMI frame, the message code, additional-info records, source, destination, control flags, application service and data value reported are exactly those in the frame: values up to 6 bits come from the low bits of the application octet, longer ones are the declared number of octets that follow, and additional info is skipped by its declared length. Confirmations report success exactly when the error bit is clear, and a frame that ends before the data it declares is rejected, never completed with invented bytes.",
  ["inputs"],"all control octets, all 65536 sources and destinations, all application octets, data lengths 0..=254, all additional-info layouts up to 3 records, all truncations",
  "One 11-byte frame is decoded and only the value's length is asserted.",
  [EMI],[("CEMI::from_packet, LDataInd::from_cemi, LDataCon::from_cemi",EMI)],["decoded fields"])
p("C06","Group read/write requests are encoded as the bus telegram that was asked for",
  "For every destination address and value, the cEMI request carries exactly that destination with the matching individual/group address-type bit, the selected priority, a length octet equal to the application data length, and the group-read or group-write service with the value's six low bits inline (small) or its octets appended unchanged (otherwise). A datapoint value is sent in the compact form exactly when its type has at most six bits; a value too long for the length octet is refused with an error by the client rather than sent with a wrong length.",
  ["inputs"],"all 65536 destinations x address forms, priorities 0..=255, payload lengths 0..=300, all payload bytes at each position, all datapoint types",
  "Tests only check that the two group-read service octets are zero.",
  [EMI,APDU,TPDU,DPT],[("LDataReqMessage::packet",EMI),("APDU::packet / APCI::packet",APDU)],["bytes of the encoded request; datagram sent by a write"])
p("C07","Address text, structure and 16-bit form agree; out-of-range is refused",
  "Parsing address text succeeds exactly for individual area.line.device (0-15/0-15/0-255) and for free (0-65535), two-level (0-31/0-2047) and three-level (0-31/0-7/0-255) group addresses, and yields the KNX 16-bit address (4/4/8, 16, 5/11 and 5/3/8 bits). Conversion from and to the 16-bit form is a bijection for the forms that support both, so no two different in-range addresses of one form ever share a 16-bit value, and printing an address gives back its text form.",
  ["inputs"],"all 65536 16-bit values, all texts of 1-4 numeric components in 0..=300 (plus 2047/2048/65535/65536) and all strings up to length 5 over digits, '/', '.', sign, space",
  "Tests parse six strings and convert two addresses.",
  [ADR],[("TryFrom<&str>, to_u16, from_u16",ADR)],["parse result, to_u16(), Debug text"])
p("C08","Integer and bit datapoint values survive encoding and decoding unchanged",
  "For 1-bit, 3-bit-control, 8-bit, 16-bit signed/unsigned and 32-bit datapoints, encoding uses the standard big-endian width and decoding the encoded bytes returns the identical value, for every value of the type; percent values with two decimals scale by 100 and saturate at the type's range. Decoding fewer bytes than the type needs is an error, and the datapoint code reported belongs to that datapoint type.",
  ["inputs"],"every value of every 8/16-bit type, all bytes at each position plus all 16-bit halves for 32-bit (2^32 in the thorough tier), all lengths 0..=8",
  "No test covers any of these types.",
  [DPT],[("Pdt::get_bytes/from_bytes",DPT)],["get_bytes, from_bytes, get_value"])
p("C09","2-byte float datapoint: nearest-value encode, exact decode, saturation",
  "Every 16-bit pattern of the 2-byte float datapoint decodes to 0.01 * mantissa * 2^exponent with an 11-bit-plus-sign two's complement mantissa and an unsigned 4-bit exponent. Every number (NaN aside) encodes to a pattern whose decoded value is within the format's resolution at that magnitude (half a step of the smallest exponent that fits, up to single-precision rounding), keeps its sign and order, and saturates at the ends of the range; decoding a pattern and encoding the value again loses nothing.",
  ["inputs"],"all 65536 patterns; every 2-decimal value in range plus all f32 within 2 ulp of every rounding boundary; all 2^32 f32 in the thorough tier",
  "Four sample values are round-tripped, all with exponent below 4 bits' high half.",
  [DPT],[("calimero_float_to_bytes / bytes_to_float",DPT)],["PdtKnxFloat::get_bytes, from_bytes"])
p("C10","Percentage (scaling) datapoint round-trips within one step and is monotone",
  "For every percentage from 0 to 100 the encoded octet decodes back to within half a step (0.2 percentage points) of the input, 100 encodes to 255, the encoding is monotone, out-of-range percentages saturate, and every octet decodes to a value within 0 to 100. Re-encoding a decoded non-zero octet gives the same octet.",
  ["inputs"],"all 256 octets; all f32 in [0,100] on a 1/4096 grid and around every rounding boundary; all f32 in the thorough tier",
  "No test covers it.",[DPT],[("PdtKnxScaledValue::scaling/get_value",DPT)],["get_bytes, get_value"])

p("C11","Tunnelling requests carry the live channel and consecutive sequence numbers",
  "On every connection, the requests the client or monitor sends carry the channel identifier granted for that connection and sequence numbers that start at 0 and increase by exactly one modulo 256 per request put on the wire, in sending order, with no gap or repeat, whatever mix of operations, timeouts, failed sends, cancelled calls, concurrent callers and reconnects occurs. No request is sent on an earlier connection's channel once a new connection has been requested, and a request issued while there is no connection fails and sends nothing.",
  ["schedules","histories","fault_sequences"],"all event sequences to the depth bound x all task interleavings to the preemption bound; wrap-around at every offset",
  "Tests never send a tunnelling request; wrap-around needs 257 requests, the reconnect race needs a precise interleaving.",
  [UDP,MON],[("sequence counter under the connection lock","tunnel_req in "+UDP+" and "+MON)],["datagrams sent"],
  [("connection_data","channel id, endpoint and next sequence number of the live connection",UDP)])
p("C12","Every received tunnelling frame is acknowledged once, in order, correctly",
  "While connected, each tunnelling request and each feature response received from the gateway is answered by exactly one acknowledgement with the same channel and sequence number and status 0, in arrival order, regardless of payload validity, pending operations, heartbeats or unread telegrams. No acknowledgement is ever sent for anything other than a received tunnelling request or feature response.",
  ["schedules","histories","fault_sequences"],"all event sequences to the depth bound x interleavings to the preemption bound, all channel/sequence values",
  "No test sends the client a tunnelling request.",
  [UDP],[("handle_recv_from_knx_device","acks in "+UDP)],["datagrams sent vs datagrams consumed"])
p("C13","Monitor delivers each bus telegram exactly once, in order, undamaged",
  "Every well-formed indication (data or bus-monitor) the gateway tunnels to a connected monitor is returned by the next-message call exactly once, in arrival order and with the transmitted content, across concurrent readers, cancelled reads, heartbeats, reconnects and interleaved confirmations or unknown telegrams, as long as at most 100 telegrams are unread. Confirmations and telegrams of unknown type are never returned, and when the monitor has been shut down a waiting reader gets an error instead of blocking forever.",
  ["schedules","histories"],"all event sequences to the depth bound x interleavings to the preemption bound; telegram sizes up to the largest cEMI frame; backlog 0..=100",
  "No test uses the monitor.",
  [MON,UDP],[("bounded queue between receive task and next_msg",UDP+", "+MON)],["next_msg results vs datagrams delivered"])
p("C14","A group read returns only a fresh value sent to the requested group",
  "A successful read returns the value of the first well-formed value-carrying telegram (response or write, never another node's read request) addressed to exactly the requested group that the client receives after this read's request was sent. Telegrams for other groups, confirmations, malformed or unknown telegrams and telegrams left over from before the request neither end the read nor change its result; without such a telegram the read fails.",
  ["schedules","histories","inputs"],"all telegram sequences to the depth bound before/during/after the read, all destination values, interleavings to the preemption bound",
  "No test performs a read; staleness needs a history of earlier traffic.",
  [UDP],[("read_group_address_value",UDP)],["operation results, datagrams"])
p("C15","A group write succeeds only on its own positive confirmation",
  "A write puts exactly one request on the wire and reports success exactly if, after sending it and within the time limit, the client receives a positive confirmation for the written group address. A negative confirmation makes the write fail; indications, unknown or malformed telegrams, confirmations for other addresses and leftovers from earlier operations neither complete nor fail it.",
  ["schedules","histories","inputs"],"all telegram sequences to the depth bound before/during/after the write, interleavings to the preemption bound",
  "No test performs a write.",
  [UDP],[("write_group_address_value",UDP)],["operation results, datagrams"])
p("C16","Every client operation finishes within its time limit, whatever the gateway does",
  "A read, write, connection-status query or disconnect that has reached its turn completes or fails within 10 seconds of being issued, even if the gateway is silent, answers with errors, or keeps sending unrelated telegrams without pause; concurrent operations are served in turn and never deadlock. Monitor state queries, group-read solicitations, writes and subscriptions return without waiting for the gateway at all, and a pending next-message call never blocks any other operation.",
  ["schedules","histories","fault_sequences"],"all silent/flooding/erroneous gateway behaviours to the depth bound, up to 4 concurrent operations, interleavings to the preemption bound (virtual time)",
  "Time limits of 10-60 s and schedules are not reachable in unit tests.",
  [UDP,MON],[("timeouts around waits",UDP)],["virtual completion time of operations"])
p("C17","Disconnect ends the connection cleanly and for good",
  "Disconnecting a connected client or monitor sends one disconnect request with the live channel, succeeds when the gateway's disconnect response arrives even amid other traffic, and fails without panicking if it cannot be sent or is not answered in time. After a successful disconnect nothing more is ever sent (no heartbeat, reconnect or request), every operation fails promptly, and the monitor reports itself not connected.",
  ["schedules","histories","fault_sequences"],"all event sequences to the depth bound around the disconnect, all response statuses, interleavings to the preemption bound",
  "The only test that disconnects does not pass and has no gateway that answers.",
  [UDP,MON],[("disconnect / receive task shutdown",UDP+", "+MON)],["operation results, datagrams after disconnect"])
p("C18","A lost or refused connection is always re-established",
  "After a connection is lost (connection-state error, disconnect request by the gateway, socket error) or an attempt is refused or unanswered for 30 seconds, the client and monitor keep requesting a new connection, never more than one attempt at a time and 10 seconds after each failed attempt, until the gateway accepts; then operations work again on the new channel. A connection is given up only for such a cause (or a send that failed), a stray datagram does not spoil an attempt under way, and a gateway disconnect request is answered with a disconnect response for the same channel.",
  ["histories","fault_sequences","schedules"],"all sequences of losses / refusals / silence / garbage to the depth bound, all connect status codes, interleavings to the preemption bound",
  "Reconnection involves 10-60 s timers and fault sequences no test drives.",
  [UDP,MON],[("reconnection loop","UdpTransport::connect, connect, try_connection in "+UDP+"; "+MON)],["datagrams sent with virtual time, operation results"])
p("C19","Heartbeats: one per 60 s while connected, on the live channel only",
  "While connected, the client and monitor send one connection-state request when they first connect and then one every 60 seconds (on a later connection, the first within 60 seconds of its start), addressed with the live channel identifier and the endpoint granted by the gateway, independent of traffic, pending operations and unread telegrams; a reconnect never produces a burst of them. None is sent while there is no connection, a successful reply leaves the connection alone and an error reply leads to a new connection.",
  ["histories","schedules"],"all traffic/operation/reconnect sequences to the depth bound over several heartbeat periods (virtual time), interleavings to the preemption bound",
  "A test would have to run for minutes of real time per history.",
  [UDP,MON],[("interval + select in the receive task",UDP+", "+MON)],["datagrams sent with virtual time"])
p("C20","Noise on the socket is ignored",
  "While connected, a datagram that is empty, truncated, malformed, of an unknown service or one a tunnelling client does not use, or carries an undecodable telegram has no effect other than the acknowledgement due for a tunnelling request: the connection, channel, sequence numbers, pending operations and telegrams before and after it are handled exactly as if it had never arrived.",
  ["inputs","histories","schedules"],"every noise datagram of the noise alphabet (incl. all service identifiers, all truncations of every valid frame) at every position of the base histories; compared with the history without it",
  "The test mock only ever sends well-formed responses.",
  [UDP,MON],[("parse_response error handling in the receive task",UDP)],["differential: datagrams and results with and without noise"])
p("C21","Unread telegrams never stall the connection",
  "However many telegrams arrive without the application reading them (idle client, slow or absent monitor reader), the client and monitor go on acknowledging telegrams, sending heartbeats, answering the gateway, reconnecting and serving operations without added delay. Telegrams already queued (at least the first 100 unread ones) are kept in order for the reader.",
  ["histories","schedules"],"backlogs 0..=230 telegrams followed by every gateway event / operation",
  "Needs over 100 telegrams without a reader, then specific events.",
  [UDP,MON],[("bounded queue",UDP)],["datagrams, results, virtual time"])
p("C22","Discovery returns every valid answer and always ends on time",
  "A search sends one search request naming the socket's own endpoint to the system multicast address and returns, when the given time has elapsed, every well-formed search response received in that time, in order, undamaged, exactly once. Malformed or foreign datagrams are skipped, steady traffic does not extend the search, and a send or receive failure is reported as an error, not a panic.",
  ["histories","fault_sequences","inputs"],"all sequences of valid/invalid answers with arrival times before/at/after the limit to the depth bound, send/receive faults",
  "Needs a network with several devices; no test covers it.",
  [UDP,CORE],[("UdpTransport::search",UDP)],["search result, datagrams, virtual time"])
p("C23","Monitor start-up: info service enabled, subscribers notified, none can block it",
  "On every new connection the monitor first sends the feature-set request that enables the info service (sequence 0, on the new channel), then reports itself connected and notifies every live subscriber exactly once. Subscribers that are gone or do not drain their notifications never delay or block the connection, other subscribers or any monitor operation, and the connected state reported is true exactly between a successful connect and the loss or shutdown of that connection.",
  ["histories","schedules"],"all sequences of connects/losses/subscriptions/undrained/dropped subscribers to the depth bound, interleavings to the preemption bound",
  "No test uses the monitor; the blocking needs a second connection with an undrained subscriber.",
  [MON],[("on_connection list and enable_busmonitor",MON)],["datagrams, subscriber channels, is_connected"])
p("C24","A connection-status query returns the gateway's answer for this connection",
  "A status query on a connected client sends one connection-state request with the live channel and endpoint and returns the channel and status of the next connection-state response received, for every status value and regardless of other traffic, heartbeats and concurrent operations in between; telegrams arriving meanwhile are still acknowledged. It fails if not connected or not answered in time.",
  ["schedules","histories","inputs"],"all response statuses, all traffic interleavings to the depth and preemption bounds",
  "The single test for it does not pass, and the race with the receive task depends on the schedule.",
  [UDP],[("get_connectionstate",UDP)],["operation result, datagrams"])
p("C25","Concurrent or abandoned operations never disturb one another",
  "Operations issued concurrently on one client behave as if issued one after another in some order consistent with their start: each gets only its own answer and nothing is sent twice. Dropping an operation at any await point leaves the client fully usable: later operations get their own results and the wire sequence stays consecutive.",
  ["schedules","histories"],"2-4 concurrent operations, all interleavings to the preemption bound, cancellation at every await point",
  "Needs controlled schedules and cancellation points.",
  [UDP],[("transport mutex serialising operations",UDP)],["operation results, datagrams"])
p("C26","A dropped client or monitor goes silent",
  "When an application drops its client or monitor without disconnecting, whatever state the connection is in (connecting, waiting to retry, connected, idle, with unread telegrams), its background activity ends: from then on no heartbeat, acknowledgement, connection attempt or any other datagram is sent and its socket is released. Nothing else in the process is affected and nothing panics.",
  ["histories","schedules"],"drop at every point of all event sequences to the depth bound, followed by traffic and several heartbeat periods (virtual time)",
  "Needs minutes of timer activity after the drop, in each connection state.",
  [UDP,MON],[("receive task lifetime",UDP+", "+MON)],["datagrams sent and sockets open after the drop"])
p("C27","Several clients and monitors in one process are independent",
  "Any number of clients and monitors may live in one process, connected to the same or to different gateways and holding the same or different channel numbers. Each behaves on the wire and towards its callers exactly as if it were alone: its channel, sequence numbers, acknowledgements, heartbeats, reconnects, delivered telegrams, notifications and operation results depend only on its own gateway and its own calls, and traffic, loss, disconnection or dropping of one has no effect on the others.",
  ["histories","schedules"],"two to four objects, all event sequences over both to the depth bound, whole lives shifted against each other by every number of steps, interleavings to the preemption bound; the trace is projected to each object and judged by all its monitors",
  "No test has two connections at once.",
  [UDP,MON],[("all state is per object","UdpTransport, UdpMonitor in "+UDP+", "+MON)],["datagrams per socket, operation results per object"])
p("C28","A client or monitor talks to the gateway it was given, and to nobody else",
  "Connecting a client or monitor returns at once, without waiting for the gateway; it then immediately asks that gateway for a connection. For as long as it lives every datagram it sends goes to the address it was given (where the given address or name stands for several, the first usable one), and a datagram sent by anybody else has no effect, whatever it contains and whatever the state of the connection. If the address cannot be resolved or used, or no socket can be had, connecting returns an error: it does not panic or hang, and nothing is sent and no socket or background activity is left.",
  ["histories","inputs","schedules"],"every form of usable and unusable address x socket faults x gateway behaviour; foreign datagrams of 11 kinds at every point of a life with reconnects; event sequences to the depth bound, interleavings to the preemption bound",
  "Tests connect to one numeric address on loopback; nobody else ever sends to them and no socket call fails.",
  [UDP,MON],[("UdpTransport::connect, UdpMonitorTransport::connect",UDP+", "+MON)],["result and duration of connect, destination of datagrams, sockets open, datagrams and results after foreign datagrams"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
