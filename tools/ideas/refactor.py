# behaviour-preserving edits: every check must stay quiet (expected here: MISSED)
U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"; C="src/packets/core.rs"; E="src/packets/emi.rs"; A="src/packets/addresses.rs"; D="src/dp_types.rs"; T="src/packets/tunneling.rs"
ALLU="ALL"; ALLM="ALL"
ACK="""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }
"""
IDEAS=[
("r-live-helper",ALLU,[(U,"""        let mut connection_data = self.connection_data.lock().await;
        let data = match connection_data.as_mut() {
            Some(data) => data,
            None => whatever!("Disconnected from knx device"),
        };
        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
        debug!("TunnelingRequest {:?}", tunneled_req);
        let req = tunneled_req.packet();""","""        let mut connection_data = self.connection_data.lock().await;
        let Some(data) = connection_data.as_mut() else { whatever!("Disconnected from knx device") };
        let (ch, seq) = (data.communication_channel_id, data.sequence_nr);
        let req = TunnelingRequest::new(ch, seq, req).packet();""")]),
("r-readable",ALLU,[(U,"        let resp = self.inner.recv(buf).await;\n","""        let resp = loop {
            self.inner.readable().await?;
            match self.inner.try_recv(buf) {
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => continue,
                r => break r,
            }
        };
""")]),
("r-select-timeout",ALLU,[(U,"""            match timeout_at(deadline, rx.recv()).await {""","""            let next = tokio::select! {
                biased;
                m = rx.recv() => Ok(m),
                _ = tokio::time::sleep_until(deadline) => Err(()),
            };
            match next {""","all")]),
("r-own-interval",ALLU,[(U,"""                let mut heart_beat = interval(Duration::from_secs(60));
                // prevents many heart beats when connection disconnect and restores
                //
                heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
""","""                let mut next_beat = Instant::now();
"""),(U,"                            _ = heart_beat.tick() => {","                            _ = tokio::time::sleep_until(next_beat) => {\n                                next_beat = Instant::now() + Duration::from_secs(60);")]),
("r-ack-helper",ALLU,[(U,ACK,"""                    send_ack(&socket, req.communication_channel_id, req.sequence_nr).await?;
"""),(U,"pub(crate) async fn handle_recv_from_knx_device(","""async fn send_ack(socket: &MyUdpSocket, ch: u8, seq: u8) -> TransportResult<()> {
    let packet = TunnelingAck::new(ch, seq, 0).packet();
    match socket.send(&packet).await {
        Ok(_) => Ok(()),
        Err(e) => whatever!("Unable to send tunneling ack to knxip target {:?}", e),
    }
}

pub(crate) async fn handle_recv_from_knx_device(""")]),
("r-buffer-reuse",ALLU,[(U,"    loop {\n        let mut data = vec![0; RECV_BUFFER_SIZE];\n","    let mut buffer = vec![0; 4096];\n    loop {\n"),(U,"        let count = socket.recv(&mut data).await","        let count = socket.recv(&mut buffer).await"),(U,"            data.truncate(count);\n","            let data = buffer[..count].to_vec();\n")]),
("r-capacity",ALLM,[(U,"""                    match from_knx_tx.try_send(cemi) {
                        Ok(_) => (),
                        Err(TrySendError::Full(cemi)) => warn!("Too many unread messages, discard {:?}", cemi),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };""","""                    match from_knx_tx.try_reserve() {
                        Ok(permit) => permit.send(cemi),
                        Err(TrySendError::Full(_)) => warn!("Too many unread messages, discard {:?}", cemi),
                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
                    };""")]),
("r-big-queue",ALLM+" C14 C15",[(M,"mpsc::channel(100)","mpsc::channel(1000)"),(U,"mpsc::channel(100)","mpsc::channel(1000)")]),
("r-notify-loop",ALLM,[(M,"""                        on_connection
                            .lock()
                            .await
                            .retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));""","""                        let mut subs = on_connection.lock().await;
                        let mut i = 0;
                        while i < subs.len() {
                            if let Err(TrySendError::Closed(_)) = subs[i].try_send(()) {
                                subs.remove(i);
                            } else {
                                i += 1;
                            }
                        }""")]),
("r-next-while",ALLM,[(M,"        loop {\n            match rx.lock().await.recv().await {","        loop {\n            let received = { let mut guard = rx.lock().await; guard.recv().await };\n            match received {")]),
("r-rwlock",ALLM,[(M,"    connection_data: Arc<Mutex<Option<ConnectionData>>>,","    connection_data: Arc<tokio::sync::RwLock<Option<ConnectionData>>>,"),(M,"        let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));","        let connection_data: Arc<tokio::sync::RwLock<Option<ConnectionData>>> = Arc::new(tokio::sync::RwLock::new(None));"),(M,"connection_data.lock()","connection_data.write()","all")]),
("r-clear-twice",ALLU,[(U,"        .await?;\n        *self.connection_data.lock().await = None;\n        Ok(())","        .await?;\n        let mut data = self.connection_data.lock().await;\n        let _old = data.take();\n        drop(data);\n        Ok(())")]),
("r-try-loop",ALLU,[(U,"""    loop {
        match try_connection(socket.clone()).await {
            Ok(connection) => return connection,
            Err(e) => {
                warn!("Unable to connect with KNXIP device, retry in 10 seconds {:?}", e);
            }
        }
        sleep(Duration::from_secs(10)).await;
    }""","""    let mut first = true;
    loop {
        if !first {
            sleep(Duration::from_secs(10)).await;
        }
        first = false;
        let attempt = try_connection(socket.clone()).await.map_err(|e| format!("{:?}", e));
        if let Err(e) = &attempt {
            warn!("Unable to connect with KNXIP device, retry in 10 seconds {}", e);
            continue;
        }
        if let Ok(connection) = attempt {
            return connection;
        }
    }""")]),
("r-dispatch-match","C03 C12 C20 C01",[(U,"        if response_code == Some(&[0x04, 0x20]) {","        let code = u16::from_be_bytes([resp[2], resp[3]]);\n        if code == 0x0420 {")]),
("r-broadcast-small",ALLU,[(U,"CONTROL_CHANNEL_SIZE: usize = 100","CONTROL_CHANNEL_SIZE: usize = 64")]),
("r-std-instant",ALLU,[(U,"        let deadline = Instant::now() + self.get_write_timeout();","        let deadline = Instant::from_std(std::time::Instant::now() + self.get_write_timeout());")]),
("r-std-elapsed",ALLU,[(U,"        let deadline = Instant::now() + self.get_read_timeout();","        let begun = std::time::Instant::now();"),(U,"match timeout_at(deadline, rx.recv()).await {","match timeout(self.get_read_timeout().saturating_sub(begun.elapsed()), rx.recv()).await {",0)]),
("r-spawn-notify","C23 C25 C16",[(M,"                        info!(\"Created communication channel ID {:?}\", communication_channel_id);\n","                        let id = communication_channel_id; info!(\"Created communication channel ID {:?}\", id);\n")]),
("r-search-vec","C22",[(U,"                _ = &mut deadline => {","                () = deadline.as_mut() => {")]),
("r-search-timeout-at","C22",[(U,"""        let deadline = sleep(timeout);
        tokio::pin!(deadline);
""","""        let end = Instant::now() + timeout;
"""),(U,"                _ = &mut deadline => {","                _ = tokio::time::sleep_until(end) => {")]),
("r-from-cemi-order","C05 C13 C14",[(E,"        let confirm = (control1 & 1) == 0;","        let error = control1 & 1;\n        let confirm = error == 0;")]),
]
IDEAS+=[("r-search-deadline","C22",[("src/transport/udp.rs",'''        let deadline = sleep(timeout);
        tokio::pin!(deadline);
''','''        let end = Instant::now() + timeout;
        let deadline = tokio::time::sleep_until(end);
        tokio::pin!(deadline);
''')]),
]
U_="src/transport/udp.rs"; M_="src/transport/udp_monitor.rs"
IDEAS+=[
# the background task is aborted on drop instead of watching a channel
("r-abort","C26 C27 C17",[(U_,'''        tokio::spawn({
            let socket = socket.clone();''','''        let task = tokio::spawn({
            let socket = socket.clone();'''),
 (U_,'''            let dropped = from_knx_tx.clone();

''',''),(U_,'''            async move {
                tokio::select! {
                    biased;
                    _ = dropped.closed() => debug!("Transport dropped, receive task exited"),
                    _ = receive_task => (),
                }
            }
        });''','''            receive_task
        });'''),
 (U_,'''            rx: Arc::new(Mutex::new(rx)),
            control_tx,
        })''','''            rx: Arc::new(Mutex::new(rx)),
            control_tx,
            task,
        })'''),
 (U_,'''    control_tx: broadcast::Sender<ControlResponse>,
}

impl UdpTransport {''','''    control_tx: broadcast::Sender<ControlResponse>,
    task: tokio::task::JoinHandle<()>,
}

impl Drop for UdpTransport {
    fn drop(&mut self) {
        self.task.abort();
    }
}

impl UdpTransport {''')]),
# one timeout around the whole wait
("r-timeout-block","C14 C15 C16 C25",[(U_,'''        loop {
            match timeout_at(deadline, rx.recv()).await {
                Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                    let data_con = LDataCon::from_cemi(cemi);
                    debug!("Parsed confirmation cEMI {:?}", data_con);
                    match data_con {
                        Ok(data_con) if data_con.l_data.dest != expected_addr => continue,
                        Ok(data_con) if data_con.confirm => return Ok(()),
                        Ok(_) => whatever!("Write request was not confirmed"),
                        Err(e) => warn!("Ignore invalid confirmation {:?}", e),
                    }
                }
                Ok(Some(cemi)) => debug!("Ignore cEMI message code {:?}", cemi.msg_code),
                Ok(None) => whatever!("No more data will be received from client"),
                Err(_) => whatever!("Write request timed out"),
            }
        }''','''        let confirmation = async {
            while let Some(cemi) = rx.recv().await {
                if cemi.msg_code != CEMIMessageCode::LDataCon as u8 {
                    continue;
                }
                match LDataCon::from_cemi(cemi) {
                    Ok(con) if con.l_data.dest == expected_addr => return Some(con.confirm),
                    Ok(_) => (),
                    Err(e) => warn!("Ignore invalid confirmation {:?}", e),
                }
            }
            None
        };
        match timeout_at(deadline, confirmation).await {
            Ok(Some(true)) => Ok(()),
            Ok(Some(false)) => whatever!("Write request was not confirmed"),
            Ok(None) => whatever!("No more data will be received from client"),
            Err(_) => whatever!("Write request timed out"),
        }''')]),
("r-seq-methods","C11 C25 C18",[(U_,'''            control_endpoint: connection.get_data_endpoint(),
        }
    }
''','''            control_endpoint: connection.get_data_endpoint(),
        }
    }

    fn tunneling_request(&self, cemi: Vec<u8>) -> TunnelingRequest {
        TunnelingRequest::new(self.communication_channel_id, self.sequence_nr, cemi)
    }

    fn request_sent(&mut self) {
        self.sequence_nr = ((self.sequence_nr as u16 + 1) % 256) as u8;
    }
'''),(U_,"        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);","        let tunneled_req = data.tunneling_request(req);"),
 (U_,'''        debug!("======================");
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);''','''        debug!("======================");
        self.socket.send(&req).await.with_whatever_context(|e| format!("Unable to send request {:?}", e))?;
        data.request_sent();''')]),
("r-slices","C01 C05 C13 C14",[("src/packets/emi.rs",'''        let mut value = vec![0; length as usize];
        if length > 0 {
            if let Err(e) = reader.read_exact(&mut value) {
                whatever!("Unable to read value of length {}, {:?}", length, e);
            }
        } else {
            let data = (octects_6_7 & 0x3f) as u8;
            value.push(data);
        }''','''        let rest = &reader.get_ref()[reader.position() as usize..];
        let value = match length as usize {
            0 => vec![octects_6_7 as u8 & 0b11_1111],
            n => match rest.get(..n) {
                Some(octets) => octets.to_vec(),
                None => whatever!("Unable to read value of length {}", n),
            },
        };''')]),
# connection data in one guard for the whole heart beat arm, sent outside of it
("r-heart-copy","C19 C18 C11",[(U_,'''                                match connection_data.lock().await.as_ref() {
                                    Some(&ref data) => {
                                        let req = ConnectionstateRequest::new(
                                            data.communication_channel_id,
                                            data.control_endpoint.clone(),
                                        );
                                        if let Err(e) = socket.send(&req.packet()).await {
                                            warn!("Unable to send connection state request {:?}", e);
                                            break;
                                        };
                                    },
                                    None => break,
                                };''','''                                let req = connection_data
                                    .lock()
                                    .await
                                    .as_ref()
                                    .map(|data| ConnectionstateRequest::new(data.communication_channel_id, data.control_endpoint.clone()));
                                let Some(req) = req else { break };
                                if let Err(e) = socket.send(&req.packet()).await {
                                    warn!("Unable to send connection state request {:?}", e);
                                    break;
                                }''')]),
# a lookup first, then connect to all addresses found
("r-lookup","C28",[(M_,'''        if let Err(e) = socket.connect(addr).await {
            whatever!("Unable to connect with target {:?}", e);
        }''','''        let targets: Vec<SocketAddr> = match tokio::net::lookup_host(addr).await {
            Ok(targets) => targets.collect(),
            Err(e) => whatever!("Unable to resolve target {:?}", e),
        };
        if let Err(e) = socket.connect(targets.as_slice()).await {
            whatever!("Unable to connect with target {:?}", e);
        }''')]),
# connect, then bind to nothing else: helper in the other module
("r-connect-loop","C28 C18",[(M_,'''        if let Err(e) = socket.connect(addr).await {
            whatever!("Unable to connect with target {:?}", e);
        }''','''        let mut connected = false;
        for target in tokio::net::lookup_host(addr).await.with_whatever_context(|e| format!("Unable to resolve target {:?}", e))? {
            match socket.connect(target).await {
                Ok(_) => {
                    connected = true;
                    break;
                }
                Err(e) => warn!("Unable to connect with {:?}, {:?}", target, e),
            }
        }
        if !connected {
            whatever!("Unable to connect with target");
        }''')]),
]
