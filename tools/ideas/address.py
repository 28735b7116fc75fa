U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"
CON='''        if let Err(e) = socket.connect(addr).await {
            whatever!("Unable to connect with target {:?}", e);
        }
'''
IDEAS=[
("28-bind-expect","C28",[(U,'''        let socket = UdpSocket::bind(local_addr)
            .await
            .with_whatever_context(|e| format!("Unable to get local address {:?}", e))?;

        let debug_addr''','''        let socket = UdpSocket::bind(local_addr).await.expect("Unable to get local address");

        let debug_addr''')]),
("28-ignore-connect","C28",[(U,CON,'''        if let Err(e) = socket.connect(addr).await {
            warn!("Unable to connect with target {:?}", e);
        }
''')]),
("28-ignore-connect-mon","C28",[(M,CON,'''        if let Err(e) = socket.connect(addr).await {
            warn!("Unable to connect with target {:?}", e);
        }
''')]),
("28-retry-connect","C28",[(M,CON,'''        while let Err(e) = socket.connect(addr.clone()).await {
            warn!("Unable to connect with target {:?}", e);
            tokio::time::sleep(Duration::from_secs(1)).await;
        }
''')]),
("28-wait-up","C28",[(U,'''        Ok(Self {
            socket,
            connection_data,
            rx: Arc::new(Mutex::new(rx)),
            control_tx,
        })''','''        for _ in 0..20 {
            if connection_data.lock().await.is_some() {
                break;
            }
            sleep(Duration::from_millis(50)).await;
        }
        Ok(Self {
            socket,
            connection_data,
            rx: Arc::new(Mutex::new(rx)),
            control_tx,
        })''')]),
("28-first-address","C28",[(U,CON,'''        let target = match tokio::net::lookup_host(addr).await {
            Ok(mut found) => found.next(),
            Err(e) => whatever!("Unable to resolve target {:?}", e),
        };
        let target = match target {
            Some(target) => target,
            None => whatever!("Unable to resolve target"),
        };
        if let Err(e) = socket.connect(target).await {
            whatever!("Unable to connect with target {:?}", e);
        }
''')]),
("28-static-address","C28 C27",[(M,CON,'''        static TARGET: std::sync::OnceLock<SocketAddr> = std::sync::OnceLock::new();
        if TARGET.get().is_none() {
            if let Ok(mut found) = tokio::net::lookup_host(addr.clone()).await {
                if let Some(target) = found.find(|a| a.is_ipv4()) {
                    let _ = TARGET.set(target);
                }
            }
        }
        let result = match TARGET.get() {
            Some(target) => socket.connect(target).await,
            None => socket.connect(addr).await,
        };
        if let Err(e) = result {
            whatever!("Unable to connect with target {:?}", e);
        }
''')]),
("28-data-endpoint","C28",[(U,'''                        info!("Created communication channel ID {:?}", communication_channel_id);
''','''                        info!("Created communication channel ID {:?}", communication_channel_id);
                        let endpoint = connection.get_data_endpoint().address;
                        if !endpoint.ip().is_unspecified() {
                            let _ = socket.inner.connect(endpoint).await;
                        }
''')]),
("28-unconnected","C28",[(U,CON,'''        let target = match tokio::net::lookup_host(addr).await {
            Ok(found) => found.filter(|a| a.is_ipv4()).next(),
            Err(e) => whatever!("Unable to resolve target {:?}", e),
        };
        let target = match target {
            Some(target) => target,
            None => whatever!("Unable to resolve target"),
        };
'''),(U,"        let socket = Arc::new(MyUdpSocket { inner: socket });","        let socket = Arc::new(MyUdpSocket { inner: socket, target: Some(target) });"),
 (M,"        let socket = Arc::new(MyUdpSocket { inner: socket });","        let socket = Arc::new(MyUdpSocket { inner: socket, target: None });"),
 (U,"    pub inner: UdpSocket,\n","    pub inner: UdpSocket,\n    pub target: Option<SocketAddr>,\n"),
 (U,"        self.inner.send(buf).await\n","        match self.target {\n            Some(target) => self.inner.send_to(buf, target).await,\n            None => self.inner.send(buf).await,\n        }\n")]),
("r-unconnected-filtered","C28 C20",[(U,CON,'''        let target = match tokio::net::lookup_host(addr).await {
            Ok(found) => found.filter(|a| a.is_ipv4()).next(),
            Err(e) => whatever!("Unable to resolve target {:?}", e),
        };
        let target = match target {
            Some(target) => target,
            None => whatever!("Unable to resolve target"),
        };
'''),(U,"        let socket = Arc::new(MyUdpSocket { inner: socket });","        let socket = Arc::new(MyUdpSocket { inner: socket, target: Some(target) });"),
 (U,"        let resp = self.inner.recv(buf).await;","""        let resp = loop {
            break match self.target {
                Some(target) => match self.inner.recv_from(buf).await {
                    Ok((_, from)) if from != target => continue,
                    r => r.map(|x| x.0),
                },
                None => self.inner.recv(buf).await,
            };
        };"""),
 (M,"        let socket = Arc::new(MyUdpSocket { inner: socket });","        let socket = Arc::new(MyUdpSocket { inner: socket, target: None });"),
 (U,"    pub inner: UdpSocket,\n","    pub inner: UdpSocket,\n    pub target: Option<SocketAddr>,\n"),
 (U,"        self.inner.send(buf).await\n","        match self.target {\n            Some(target) => self.inner.send_to(buf, target).await,\n            None => self.inner.send(buf).await,\n        }\n")]),
("22-connect","C22",[(U,'''        if let Err(e) = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
            whatever!("Unable to send request {:?}", e);
        }
''','''        if let Err(e) = socket.connect((SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
            whatever!("Unable to reach multicast address {:?}", e);
        }
        if let Err(e) = socket.send(&req).await {
            whatever!("Unable to send request {:?}", e);
        }
''')]),
]
