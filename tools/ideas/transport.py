U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"; C="src/packets/core.rs"
SEND="""        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        Ok(())"""
ACK="""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }
"""
DRAIN="        while rx.try_recv().is_ok() {}\n        transport.tunnel_req(req.packet()).await?;\n"
IDEAS=[
("11-count-first","C11",[(U,SEND,"""        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        Ok(())""",0)]),
("11-unlock-before-send","C11",[(U,SEND,"""        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        drop(connection_data);
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        Ok(())""",0)]),
("11-unlock-mon","C11",[(M,SEND,"""        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        drop(connection_data);
        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        Ok(())""",1)]),
("11-wrap-1","C11",[(U,SEND,SEND.replace(".wrapping_add(1)",".checked_add(1).unwrap_or(1)"),0)]),
("11-wrap-1-mon","C11",[(M,SEND,SEND.replace(".wrapping_add(1)",".checked_add(1).unwrap_or(1)"),1)]),
("11-same-channel-keeps","C11",[(U,"""        Ok(Self {
            socket,
            connection_data,""","""        Ok(Self {
            socket,
            connection_data: connection_data.clone(),"""),(U,"                'main: loop {\n","                let mut last: Option<(u8, u8)> = None;\n                'main: loop {\n"),
 (U,"                        *connection_data = Some(ConnectionData::from_connection_response(connection));","""                        let mut data = ConnectionData::from_connection_response(connection);
                        if let Some((ch, seq)) = last { if ch == data.communication_channel_id { data.sequence_nr = seq; } }
                        *connection_data = Some(data);"""),
 (U,"                    *data = None;\n","                    last = data.as_ref().map(|d| (d.communication_channel_id, d.sequence_nr));\n                    *data = None;\n")]),
("12-ack-spawn","C12",[(U,ACK,"""                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
                    let s = socket.clone();
                    tokio::spawn(async move { let _ = s.send(&ack.packet()).await; });
""")]),
("12-dup-skip","C12 C13",[(U,"    loop {\n        let mut data = vec![0; RECV_BUFFER_SIZE];","    let mut last: Option<u8> = None;\n    loop {\n        let mut data = vec![0; RECV_BUFFER_SIZE];"),
 (U,ACK,"                    if last == Some(req.sequence_nr) { continue; }\n                    last = Some(req.sequence_nr);\n"+ACK)]),
("13-dup-drop","C13",[(U,"    loop {\n        let mut data = vec![0; RECV_BUFFER_SIZE];","    let mut last: Option<u8> = None;\n    loop {\n        let mut data = vec![0; RECV_BUFFER_SIZE];"),
 (U,ACK,ACK+"                    if last == Some(req.sequence_nr) { continue; }\n                    last = Some(req.sequence_nr);\n")]),
("12-ack-status-parse","C12",[(U,"TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0)","TunnelingAck::new(req.communication_channel_id, req.sequence_nr, if req.get_cemi().is_empty() { 0x29 } else { 0 })")]),
("12-feature-status","C12",[(U,"""                    let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);
""","""                    if resp.status != 0 { continue; }
                    let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);
""")]),
("12-full-noack","C12 C21",[(U,ACK,"                    if from_knx_tx.capacity() == 0 { continue; }\n"+ACK)]),
("12-ack-fail-continue","C12 C18",[(U,"""                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }

                    let mut""","""                    if let Err(e) = socket.send(&ack.packet()).await {
                        warn!("Unable to send tunneling ack to knxip target {:?}", e);
                        continue;
                    }

                    let mut""")]),
("12-recreate","C12 C13",[(U,"""                    tokio::pin!(recv_from_knx_device);

                    'recv: loop {
                        tokio::select! {
                            resp = &mut recv_from_knx_device""","""                    drop(recv_from_knx_device);

                    'recv: loop {
                        tokio::select! {
                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone())""")]),
("13-next-yield","C13",[(M,"            match rx.lock().await.recv().await {","            let cemi = rx.lock().await.recv().await;\n            tokio::task::yield_now().await;\n            match cemi {")]),
("13-next-lock-after","C13",[(M,"            match rx.lock().await.recv().await {","            let cemi = rx.lock().await.recv().await;\n            let _c = self.transport.connection_data.lock().await;\n            match cemi {")]),
("13-identical","C13",[(M,"        let rx = self.transport.rx.clone();\n        loop {","        let rx = self.transport.rx.clone();\n        let mut prev: Option<Vec<u8>> = None;\n        loop {"),(M,"""                        Err(e) => {
                            warn!("Ignore invalid indication {:?}", e);
                            continue;
                        }
                    };
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    if data_ind""","""                        Err(e) => {
                            warn!("Ignore invalid indication {:?}", e);
                            continue;
                        }
                    };
                    let _ = prev.replace(data_ind.value.clone());
                    debug!("Parsed indication cEMI {:?}", data_ind);
                    if data_ind.l_data.repetition && data_ind.l_data.ack_request { continue; }
                    if data_ind""")]),
("13-src0","C13",[(M,"                    if data_ind.l_data.repetition {","                    if data_ind.l_data.src == 0 { continue; }\n                    if data_ind.l_data.repetition {")]),
("13-dst0","C13",[(M,"                    if data_ind.l_data.repetition {","                    if data_ind.l_data.dest == 0 { continue; }\n                    if data_ind.l_data.repetition {")]),
("13-reads-hidden","C13",[(M,"                    if data_ind.l_data.repetition {","                    if data_ind.value.is_empty() { continue; }\n                    if data_ind.l_data.repetition {")]),
("13-timeout","C13",[(M,"            match rx.lock().await.recv().await {","            match tokio::time::timeout(Duration::from_secs(300), async { rx.lock().await.recv().await }).await.unwrap_or(None) {")]),
("13-trylock","C13 C16",[(M,"            match rx.lock().await.recv().await {","            match rx.try_lock().whatever_context(\"busy\")?.recv().await {")]),
("14-drain-after","C14",[(U,DRAIN,"        transport.tunnel_req(req.packet()).await?;\n        while rx.try_recv().is_ok() {}\n",0)]),
("15-drain-after","C15",[(U,DRAIN,"        transport.tunnel_req(req.packet()).await?;\n        while rx.try_recv().is_ok() {}\n",1)]),
("14-mask15","C14",[(U,"data_ind.l_data.dest == expected_addr && has_value","data_ind.l_data.dest & 0x7fff == expected_addr & 0x7fff && has_value")]),
("14-need-con","C14",[(U,"        loop {\n            match timeout_at(deadline, rx.recv()).await {\n","        let mut confirmed = false;\n        loop {\n            match timeout_at(deadline, rx.recv()).await {\n",0),(U,"""                    debug!("Parsed confirmation cEMI {:?}", data_con);
                }""","""                    confirmed = data_con.is_ok();
                }"""),(U,"expected_addr && has_value","expected_addr && has_value && confirmed")]),
("14-con-other-value","C14",[(U,"                    let data_con = LDataCon::from_cemi(cemi);\n                    debug!(\"Parsed confirmation cEMI {:?}\", data_con);\n                }","                    if let Ok(c) = LDataCon::from_cemi(cemi) { if !c.confirm && c.l_data.dest == expected_addr { whatever!(\"not confirmed\"); } }\n                }")]),
("14-drain-50","C14",[(U,DRAIN,DRAIN.replace("while rx.try_recv().is_ok() {}","for _ in 0..50 { if rx.try_recv().is_err() { break; } }"),0)]),
("15-drain-99","C15",[(U,DRAIN,DRAIN.replace("while rx.try_recv().is_ok() {}","for _ in 0..99 { if rx.try_recv().is_err() { break; } }"),1)]),
("14-drain-con-stop","C14",[(U,DRAIN,DRAIN.replace("while rx.try_recv().is_ok() {}","while matches!(rx.try_recv(), Ok(c) if c.msg_code != CEMIMessageCode::LBusmonInd as u8) {}"),0)]),
("14-empty-value","C14",[(U,"expected_addr && has_value","expected_addr && has_value && !data_ind.value.is_empty()")]),
("14-only-response","C14",[(U,"data_ind.apci == A_GROUP_VALUE_RESPONSE || data_ind.apci == A_GROUP_VALUE_WRITE","data_ind.apci == A_GROUP_VALUE_RESPONSE")]),
("15-neg-other","C15",[(U,"                        Ok(data_con) if data_con.l_data.dest != expected_addr => continue,\n                        Ok(data_con) if data_con.confirm => return Ok(()),","                        Ok(data_con) if data_con.confirm && data_con.l_data.dest == expected_addr => return Ok(()),\n                        Ok(data_con) if data_con.confirm => continue,")]),
("15-neg-continue","C15",[(U,"""                        Ok(_) => whatever!("Write request was not confirmed"),""","""                        Ok(_) => warn!("Write request was not confirmed"),""")]),
("15-bad-con-fails","C15",[(U,"""                        Err(e) => warn!("Ignore invalid confirmation {:?}", e),""","""                        Err(e) => whatever!("invalid confirmation {:?}", e),""")]),
("15-retry","C15",[(U,"        debug!(\"Write request sent to bus\");\n        loop {\n            match timeout_at(deadline, rx.recv()).await {","        debug!(\"Write request sent to bus\");\n        let mut again = Some((Instant::now() + self.get_write_timeout() / 2, req.packet()));\n        loop {\n            if again.as_ref().map_or(false, |a| Instant::now() >= a.0) { transport.tunnel_req(again.take().unwrap().1).await?; }\n            match timeout_at(deadline, rx.recv()).await {")]),
("16-deadline-early-write","C16 C15",[(U,"        let transport = self.transport.lock().await;\n        let deadline = Instant::now() + self.get_write_timeout();\n","        let deadline = Instant::now() + self.get_write_timeout();\n        let transport = self.transport.lock().await;\n")]),
("16-deadline-early-read","C16 C14",[(U,"        let transport = self.transport.lock().await;\n        let deadline = Instant::now() + self.get_read_timeout();\n","        let deadline = Instant::now() + self.get_read_timeout();\n        let transport = self.transport.lock().await;\n")]),
("16-write-extends","C16",[(U,"match timeout_at(deadline, rx.recv()).await {","match timeout(self.timeout.min(deadline - Instant::now() + Duration::from_millis(500)), rx.recv()).await {",1)]),
("16-control-30","C16",[(U,"const CONTROL_TIMEOUT: Duration = Duration::from_secs(10);","const CONTROL_TIMEOUT: Duration = Duration::from_secs(30);")]),
("16-control-per-msg","C16",[(U,"""            match control_rx.recv().await {""","""            match timeout(CONTROL_TIMEOUT, control_rx.recv()).await.unwrap_or(Err(broadcast::error::RecvError::Closed)) {"""),(U,"    match timeout(CONTROL_TIMEOUT, wait).await {","    match timeout(CONTROL_TIMEOUT * 100, wait).await {")]),
("17-no-wait","C17",[(U,"""        wait_control_response(control_rx, |resp| match resp {
            ControlResponse::Disconnect(resp) => Some(resp),
            _ => None,
        })
        .await?;
        *self""","""        drop(control_rx);
        *self""")]),
("17-clear-first","C17 C18",[(U,"            let connection_data = self.connection_data.lock().await;\n            let data = match connection_data.as_ref() {\n                Some(data) => data,\n                None => whatever!(\"Disconnected from knx device\"),\n            };\n            let req = DisconnectRequest","            let mut connection_data = self.connection_data.lock().await;\n            let data = match connection_data.take() {\n                Some(data) => data,\n                None => whatever!(\"Disconnected from knx device\"),\n            };\n            let req = DisconnectRequest")]),
("17-any-control","C17",[(U,"            ControlResponse::Disconnect(resp) => Some(resp),\n            _ => None,","            ControlResponse::Disconnect(_) => Some(()),\n            ControlResponse::Connectionstate(r) if r.status == 0 => Some(()),\n            _ => None,")]),
("17-mon-conn-stays","C17",[(M,"""        *self.connection_data.lock().await = None;
        Ok(resp.status)""","""        Ok(resp.status)""")]),
("17-conn-stays","C17",[(U,"""        .await?;
        *self.connection_data.lock().await = None;
        Ok(())""","""        .await?;
        Ok(())""")]),
("17-sub-after-send","C17",[(U,"""            let control_rx = self.control_tx.subscribe();
            if let Err(e) = self.socket.send(&req).await {
                whatever!("Unable to send request {:?}", e);
            }
            control_rx""","""            if let Err(e) = self.socket.send(&req).await {
                whatever!("Unable to send request {:?}", e);
            }
            self.control_tx.subscribe()""")]),
("24-sub-after-send","C24",[(U,"""            let control_rx = self.control_tx.subscribe();
            if let Err(e) = self.socket.send(&req.packet()).await {
                whatever!("Unable to send connection state request {:?}", e);
            };
            control_rx""","""            if let Err(e) = self.socket.send(&req.packet()).await {
                whatever!("Unable to send connection state request {:?}", e);
            };
            self.control_tx.subscribe()""")]),
("24-early-sub","C24",[(U,"        let control_rx = {\n            let connection_data = self.connection_data.lock().await;\n            let data = match connection_data.as_ref() {\n                Some(data) => data,\n                None => whatever!(\"Disconnected from knx device\"),\n            };\n            let req = ConnectionstateRequest","        let control_rx = self.control_tx.subscribe();\n        let control_rx = {\n            let connection_data = self.connection_data.lock().await;\n            let data = match connection_data.as_ref() {\n                Some(data) => data,\n                None => whatever!(\"Disconnected from knx device\"),\n            };\n            let req = ConnectionstateRequest"),(U,"            let control_rx = self.control_tx.subscribe();\n            if let Err(e) = self.socket.send(&req.packet())","            if let Err(e) = self.socket.send(&req.packet())")]),
("24-error-status","C24",[(U,"        debug!(\"Connectiostate response {:0x?}\", resp);\n","        ensure_whatever!(resp.status != 0x27, \"knx error\");\n")]),
("24-lag-error","C24",[(U,"                Err(broadcast::error::RecvError::Lagged(_)) => continue,","                Err(broadcast::error::RecvError::Lagged(_)) => whatever!(\"lagged\"),"),(U,"CONTROL_CHANNEL_SIZE: usize = 100","CONTROL_CHANNEL_SIZE: usize = 1")]),
("18-five-attempts","C18",[(U,"    loop {\n        match try_connection","    for _ in 0..5 {\n        match try_connection"),(U,"        sleep(Duration::from_secs(10)).await;\n    }\n}","        sleep(Duration::from_secs(10)).await;\n    }\n    std::future::pending().await\n}")]),
("18-backoff","C18",[(U,"    loop {\n        match try_connection","    let mut pause = 10;\n    loop {\n        match try_connection"),(U,"        sleep(Duration::from_secs(10)).await;\n    }\n}","        sleep(Duration::from_secs(pause)).await;\n        pause = (pause + 5).min(60);\n    }\n}")]),
("18-wait-60","C18",[(U,"Instant::now() + Duration::from_secs(30)","Instant::now() + Duration::from_secs(35)")]),
("18-per-datagram-wait","C18",[(U,"match timeout_at(deadline, socket.recv(&mut resp)).await {","match timeout(deadline - Instant::now().min(deadline - Duration::from_secs(1)), socket.recv(&mut resp)).await {")]),
("18-first-datagram","C18",[(U,"        if resp[..count].get(2..4) == Some(&[0x02, 0x06]) {","        if count > 0 {")]),
("18-recv-error-ignored","C18",[(U,"        let count = socket.recv(&mut data).await.map_err(|e| format!(\"UPD Socket was closed {:?}\", e))?;","        let count = match socket.recv(&mut data).await { Ok(c) => c, Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => continue, Err(e) => whatever!(\"UPD Socket was closed {:?}\", e) };")]),
("18-status-21","C18",[(U,"                    if resp.status != 0 {","                    if resp.status == 0x21 || resp.status == 0x26 {")]),
("18-disc-fail","C18",[(U,"""                        warn!("Unable to send disconnect response to knxip target {:?}", e);
                    }""","""                        warn!("Unable to send disconnect response to knxip target {:?}", e);
                        continue;
                    }""")]),
("18-no-pause-refused","C18",[(U,"                warn!(\"Unable to connect with KNXIP device, retry in 10 seconds {:?}\", e);","                if e.to_string().contains(\"error\") { continue; }")]),
("18-refused-deadly","C18",[(U,"            Ok(connection) => return connection,","            Ok(connection) if connection.get_communication_channel_id() != 0 => return connection,\n            Ok(_) => warn!(\"Invalid channel\"),")]),
("18-late-accept","C18",[(U,"        sleep(Duration::from_secs(10)).await;\n    }\n}","        let mut b = vec![0; 100]; let _ = timeout(Duration::from_secs(10), async { loop { if socket.recv(&mut b).await.is_err() { break; } } }).await;\n    }\n}")]),
("19-61","C19",[(M,"interval(Duration::from_secs(60))","interval(Duration::from_secs(61))")]),
("19-trylock","C19",[(U,"                                match connection_data.lock().await.as_ref() {","                                let Ok(connection_data) = connection_data.try_lock() else { continue };\n                                match connection_data.as_ref() {")]),
("19-trylock-mon","C19",[(M,"                                    let guard = connection_data.lock().await;","                                    let Ok(guard) = connection_data.try_lock() else { continue };")]),
("19-only-idle","C19",[(U,"                            _ = heart_beat.tick() => {","                            _ = heart_beat.tick(), if from_knx_tx.capacity() > 0 => {")]),
("19-lock-cached","C19",[(U,"                            _ = heart_beat.tick() => {","                            _ = heart_beat.tick(), if from_knx_tx.capacity() > 90 => {")]),
("19-first-immediate","C19",[(U,"                let mut heart_beat = interval(Duration::from_secs(60));","                let mut heart_beat = tokio::time::interval_at(Instant::now() + Duration::from_secs(60), Duration::from_secs(60));")]),
("21-full-err","C21",[(U,"Err(TrySendError::Full(cemi)) => warn!(\"Too many unread messages, discard {:?}\", cemi),","Err(TrySendError::Full(_)) => whatever!(\"Too many unread messages\"),")]),
("21-block","C21",[(U,"match from_knx_tx.try_send(cemi) {\n                        Ok(_) => (),\n                        Err(TrySendError::Full(cemi)) => warn!(\"Too many unread messages, discard {:?}\", cemi),","match from_knx_tx.send_timeout(cemi, Duration::from_millis(100)).await {\n                        Ok(_) => (),\n                        Err(tokio::sync::mpsc::error::SendTimeoutError::Timeout(cemi)) => warn!(\"Too many unread messages, discard {:?}\", cemi),")]),
("22-dedupe","C22",[(U,"                                    responses.push(resp);","                                    let r: &Vec<SearchResponse> = &responses; if !r.iter().any(|x| x.control_endpoint.address == resp.control_endpoint.address) { responses.push(resp); }")]),
("22-dedupe-serial","C22",[(U,"                                    responses.push(resp);","                                    let r: &Vec<SearchResponse> = &responses; if !r.iter().any(|x| x.device_hardware.serial_number == resp.device_hardware.serial_number) { responses.push(resp); }")]),
("22-limit","C22",[(U,"                                    responses.push(resp);","                                    responses.push(resp); if responses.len() >= 32 { break; }")]),
("22-buffer","C22",[(U,"        let mut buffer = vec![0; RECV_BUFFER_SIZE];\n        let mut responses","        let mut buffer = vec![0; 100];\n        let mut responses")]),
("22-err-continue","C22",[(U,"                            whatever!(\"Unable to get response {:?}\", e);","                            warn!(\"Unable to get response {:?}\", e);")]),
("22-prepend","C22",[(U,"                                    responses.push(resp);","                                    responses.insert(responses.len() / 4 * 4, resp);")]),
("22-late-start","C22",[(U,"        let deadline = sleep(timeout);","        let deadline = sleep(timeout.max(Duration::from_millis(100)));")]),
("22-unbiased","C22",[(U,"                biased;\n                _ = &mut deadline => {","                _ = &mut deadline => {")]),
("23-retain-ok","C23",[(M,"!matches!(tx.try_send(()), Err(TrySendError::Closed(_)))","tx.try_send(()).is_ok()")]),
("23-once","C23",[(M,"!matches!(tx.try_send(()), Err(TrySendError::Closed(_)))","{ let _ = tx.try_send(()); false }")]),
("23-await","C23",[(M,"""                        on_connection
                            .lock()
                            .await
                            .retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));""","""                        for tx in on_connection.lock().await.iter() { let _ = tx.send_timeout((), Duration::from_secs(1)).await; let _ = matches!(tx.try_reserve(), Err(TrySendError::Full(_))); }""")]),
("23-notify-before","C23",[(M,"                        if enable_busmonitor(&socket","                        on_connection.lock().await.retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));\n                        if enable_busmonitor(&socket"),(M,"""                        on_connection
                            .lock()
                            .await
                            .retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));""","")]),
("23-data-before","C23",[(M,"                        if enable_busmonitor(&socket","                        *connection_data.lock().await = Some(ConnectionData { sequence_nr: 0, communication_channel_id, control_endpoint: connection.get_data_endpoint() });\n                        if enable_busmonitor(&socket")]),
("25-send-before-rx","C25",[(U,"""        let transport = self.transport.lock().await;
        let deadline = Instant::now() + self.get_write_timeout();
        let mut rx = transport.rx.lock().await;""","""        let deadline = Instant::now() + self.get_write_timeout();
        let rx = self.transport.lock().await.rx.clone();
        let mut rx = rx.lock().await;
        let transport = self.transport.lock().await;""")]),
("25-status-unlocked","C25 C24 C16",[(U,"        let transport = self.transport.lock().await;\n        transport.get_connectionstate().await","        let Ok(transport) = self.transport.try_lock() else { whatever!(\"Busy\") };\n        transport.get_connectionstate().await")]),
("26-no-drop","C26",[(U,"                    _ = dropped.closed() => debug!(\"Transport dropped, receive task exited\"),","                    _ = async { dropped.closed().await; sleep(Duration::from_secs(5)).await } => debug!(\"Transport dropped, receive task exited\"),")]),
("26-drop-only-mon","C26",[(M,"                    _ = dropped.closed() => debug!(\"Transport dropped, receive task ended\"),","                    _ = async { dropped.closed().await; if connection_data2.lock().await.is_none() { std::future::pending::<()>().await } } => debug!(\"x\"),"),(M,"            let dropped = from_knx_tx.clone();","            let dropped = from_knx_tx.clone();\n            let connection_data2 = connection_data.clone();")]),
("26-unbiased","C26",[(U,"                    biased;\n                    _ = dropped.closed()","                    _ = dropped.closed()")]),
("27-noop-seq","C27",[(U,"        data.sequence_nr = data.sequence_nr.wrapping_add(1);\n        Ok(())","        static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let ch = data.communication_channel_id as usize;\n        if LAST.swap(ch, std::sync::atomic::Ordering::SeqCst) <= ch || true { data.sequence_nr = data.sequence_nr.wrapping_add(1); }\n        Ok(())",0)]),
("27-static-gate","C27",[(U,"    loop {\n        match try_connection","    static GATE: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::new();\n    let _g = GATE.get_or_init(|| Mutex::new(())).lock().await;\n    loop {\n        match try_connection")]),
("27-noop-dedupe","C27",[(U,ACK,ACK+"                    static SEEN: std::sync::Mutex<Vec<(u8, u8)>> = std::sync::Mutex::new(Vec::new());\n                    { let mut s = SEEN.lock().unwrap(); let k = (req.communication_channel_id, req.sequence_nr); if s.last() == Some(&k) && false { continue; } s.clear(); s.push(k); }\n")]),
("27-static-ack","C27",[(U,ACK,"""                    static ACKB: Mutex<Vec<u8>> = Mutex::const_new(Vec::new());
                    *ACKB.lock().await = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0).packet();
                    let pkt = ACKB.lock().await.clone();
                    if let Err(e) = socket.send(&pkt).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                    }
""")]),
]
