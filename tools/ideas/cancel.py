U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"
T=lambda f:(f,'''        let mut connection_data = self.connection_data.lock().await;
        let data = match connection_data.as_mut() {
            Some(data) => data,
            None => whatever!("Disconnected from knx device"),
        };
        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);''','''        let mut data = match self.connection_data.lock().await.take() {
            Some(data) => data,
            None => whatever!("Disconnected from knx device"),
        };
        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);''')
T2=lambda f:(f,'''        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        Ok(())
    }
''','''        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        *self.connection_data.lock().await = Some(data);
        Ok(())
    }
''', 0 if f==U else 1)
IDEAS=[
# taken out while sending, put back afterwards
("k-take-mon","C25 C11 C23",[T(M),T2(M)]),
("k-take","C25 C11 C18",[T(U),T2(U)]),
# the sequence number is counted before the send, given back on failure (not when abandoned)
("k-count-first","C25 C11",[(U,'''        if let Err(e) = self.socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
        data.sequence_nr = data.sequence_nr.wrapping_add(1);''','''        data.sequence_nr = data.sequence_nr.wrapping_add(1);
        if let Err(e) = self.socket.send(&req).await {
            data.sequence_nr = data.sequence_nr.wrapping_sub(1);
            whatever!("Unable to send request {:?}", e);
        }''',0)]),
# search: time overflow, zero
("k-search-add","C22",[(U,"        let deadline = sleep(timeout);","        let deadline = tokio::time::sleep_until(Instant::now() + timeout);")]),
("k-search-zero","C22",[(U,"        let deadline = sleep(timeout);","        let deadline = sleep(timeout.max(Duration::from_millis(1)));")]),
("k-search-secs","C22",[(U,"        let deadline = sleep(timeout);","        let deadline = sleep(Duration::from_millis(timeout.as_millis() as u32 as u64));")]),
# a client's read lock: the receiver is held through the wait for the transport
("k-retain-break","C23",[(M,'''                        on_connection
                            .lock()
                            .await
                            .retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));''','''                        let mut on_connection = on_connection.lock().await;
                        let mut i = 0;
                        while i < on_connection.len() {
                            if let Err(TrySendError::Closed(_)) = on_connection[i].try_send(()) {
                                on_connection.remove(i);
                            }
                            i += 1;
                        }''')]),
("k-swap-remove","C23",[(M,'''                        on_connection
                            .lock()
                            .await
                            .retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));''','''                        let mut on_connection = on_connection.lock().await;
                        for i in (0..on_connection.len()).rev() {
                            if on_connection[i].is_closed() {
                                on_connection.swap_remove(i);
                            } else if on_connection[i].try_send(()).is_err() {
                                on_connection.truncate(i + 1);
                            }
                        }''')]),
# no subscriber twice
("k-same-channel","C23",[(M,"        self.on_connection.lock().await.push(tx);","""        let mut on_connection = self.on_connection.lock().await;
        if !on_connection.iter().any(|o| o.max_capacity() == tx.max_capacity()) {
            on_connection.push(tx);
        }""")]),
("k-sub-notify","C23",[(M,"        self.on_connection.lock().await.push(tx);","""        if self.is_connected().await {
            let _ = tx.try_send(());
        }
        self.on_connection.lock().await.push(tx);""")]),
("k-sub-hold","C23 C16",[(M,"        self.on_connection.lock().await.push(tx);","""        let _data = self.connection_data.lock().await;
        self.on_connection.lock().await.push(tx);""")]),
("k-lock-order","C23 C16",[(M,"        self.on_connection.lock().await.push(tx);","""        let mut on_connection = self.on_connection.lock().await;
        let _data = self.connection_data.lock().await;
        on_connection.push(tx);"""),(M,'''                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
''','''                        let mut data = connection_data.lock().await;
                        *data = Some(ConnectionData::from_connection_response(connection));
''')]),
# status of somebody else's disconnect
("k-disc-status","C17",[(M,'''        *self.connection_data.lock().await = None;
        Ok(resp.status)''','''        if resp.status == 0 {
            *self.connection_data.lock().await = None;
        }
        Ok(resp.status)''')]),
("k-disc-ok-lost","C17 C18",[(U,'''                    whatever!("KNX device requested disconnection");''','''                    if control_tx.receiver_count() > 0 {
                        return Ok("both sides disconnect".into());
                    }
                    whatever!("KNX device requested disconnection");''')]),
("k-disc-req-answers","C17",[(U,'''                    whatever!("KNX device requested disconnection");''','''                    let _ = control_tx.send(ControlResponse::Disconnect(disconnect_resp));
                    whatever!("KNX device requested disconnection");''')]),
("k-state-lost-silent","C24",[(U,'''                    let _ = control_tx.send(ControlResponse::Connectionstate(resp.clone()));
                    if resp.status != 0 {''','''                    if resp.status == 0 || control_tx.receiver_count() > 0 {
                        let _ = control_tx.send(ControlResponse::Connectionstate(resp.clone()));
                    }
                    if resp.status != 0 && control_tx.receiver_count() == 0 {''')]),
]
