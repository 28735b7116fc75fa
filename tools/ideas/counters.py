"""Bugs that need many repetitions of something"""
U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"
IDEAS=[
("n-search-64","C22",[(U,"                                    responses.push(resp);","                                    responses.push(resp);\n                                    if responses.len() == 64 { break; }")]),
("n-search-invalid","C22",[(U,"        let mut responses = Vec::new();","        let mut responses = Vec::new();\n        let mut bad = 0;"),(U,"Err(e) => warn!(\"Ignore invalid search response {:?}\", e),","Err(e) => { warn!(\"Ignore invalid search response {:?}\", e); bad += 1; ensure_whatever!(bad < 40, \"Too many\"); }")]),
("n-acks-200","C12",[(U,"    loop {\n        let mut data = vec![0; RECV_BUFFER_SIZE];","    let mut n = 0u32;\n    loop {\n        n += 1;\n        let mut data = vec![0; RECV_BUFFER_SIZE];"),(U,"TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);","TunnelingAck::new(req.communication_channel_id, if n > 512 { 0 } else { req.sequence_nr }, 0);")]),
("n-heart-20","C19",[(U,"                'main: loop {","                let mut beats = 0;\n                'main: loop {"),(U,"                                info!(\"Send connection heart beat\");\n                                match","                                info!(\"Send connection heart beat\");\n                                beats += 1;\n                                if beats > 20 && beats % 7 == 0 { continue; }\n                                match")]),
("n-reconnect-20","C18",[(U,"    loop {\n        match try_connection(socket.clone()).await {\n            Ok(connection) => return connection,","    let mut n = 0;\n    loop {\n        n += 1;\n        if n > 20 { sleep(Duration::from_secs(600)).await; }\n        match try_connection(socket.clone()).await {\n            Ok(connection) => return connection,")]),
("n-lost-12","C18",[(U,"                'main: loop {","                let mut lost = 0;\n                'main: loop {"),(U,"                    let mut data = connection_data.lock().await;\n                    *data = None;","                    lost += 1;\n                    if lost > 12 { sleep(Duration::from_secs(60)).await; }\n                    let mut data = connection_data.lock().await;\n                    *data = None;")]),
("n-subs-16","C23",[(M,".retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));",".iter().take(8).for_each(|tx| { let _ = tx.try_send(()); });")]),
("n-msgs","C13",[(M,"        loop {\n            match rx.lock().await.recv().await {","        let mut ignored = 0;\n        loop {\n            ignored += 1;\n            if ignored > 32 { whatever!(\"Too many\"); }\n            match rx.lock().await.recv().await {")]),
("n-read-ignored","C14",[(U,"        transport.tunnel_req(req.packet()).await?;\n        loop {\n            match timeout_at(deadline, rx.recv()).await {","        transport.tunnel_req(req.packet()).await?;\n        for _ in 0..32 {\n            match timeout_at(deadline, rx.recv()).await {"),(U,"                Ok(None) => whatever!(\"No more data will be received from client\"),\n                Err(_) => whatever!(\"Request timed out\"),\n            }\n        }\n","                Ok(None) => whatever!(\"No more data will be received from client\"),\n                Err(_) => whatever!(\"Request timed out\"),\n            }\n        }\n        whatever!(\"Too many\")\n")]),
("n-write-ignored","C15",[(U,"        debug!(\"Write request sent to bus\");\n        loop {","        debug!(\"Write request sent to bus\");\n        for _ in 0..32 {"),(U,"                Err(_) => whatever!(\"Write request timed out\"),\n            }\n        }\n","                Err(_) => whatever!(\"Write request timed out\"),\n            }\n        }\n        whatever!(\"Too many\")\n")]),
("n-control-lag","C24",[(U,"Err(broadcast::error::RecvError::Lagged(_)) => continue,","Err(broadcast::error::RecvError::Lagged(_)) => whatever!(\"Lagged\"),")]),
("n-control-other","C24 C17",[(U,"    let wait = async {\n        loop {","    let wait = async {\n        for _ in 0..16 {"),(U,"                Err(broadcast::error::RecvError::Closed) => whatever!(\"Transport is closed\"),\n            }\n        }\n","                Err(broadcast::error::RecvError::Closed) => whatever!(\"Transport is closed\"),\n            }\n        }\n        whatever!(\"Too many\")\n")]),
("n-drain-64","C14 C15",[(U,"        while rx.try_recv().is_ok() {}","        for _ in 0..64 { if rx.try_recv().is_err() { break; } }","all")]),
("n-seq-int","C11",[(U,"        data.sequence_nr = data.sequence_nr.wrapping_add(1);","        data.sequence_nr = data.sequence_nr.checked_add(1).unwrap_or(1);","all")]),
("n-seq-mon","C11",[(M,"        data.sequence_nr = data.sequence_nr.wrapping_add(1);","        data.sequence_nr = data.sequence_nr.checked_add(1).unwrap_or(1);","all")]),
("n-connect-noise","C18 C20",[(U,"    let resp = loop {\n","    let mut n = 0;\n    let resp = loop {\n        n += 1;\n        ensure_whatever!(n < 24, \"Too many\");\n")]),
("n-connect-first","C18 C20",[(U,"    let resp = loop {\n","    let mut n = 0;\n    let resp = loop {\n        n += 1;\n        ensure_whatever!(n < 200, \"Too many\");\n")]),
]
