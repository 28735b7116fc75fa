U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"
IDEAS=[(f"buf-{n}","C13 C12 C15 C22",[(U,"const RECV_BUFFER_SIZE: usize = 2048;",f"const RECV_BUFFER_SIZE: usize = {n};")]) for n in (64,256,320,512)]
IDEAS+=[(f"sbuf-{n}","C22",[(U,"        let mut buffer = vec![0; RECV_BUFFER_SIZE];",f"        let mut buffer = vec![0; {n}];")]) for n in (100,300,320)]
IDEAS+=[("err-refused","C18 C20",[(U,'''        let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
''','''        let count = match socket.recv(&mut data).await {
            Ok(count) => count,
            Err(e) if e.kind() == std::io::ErrorKind::HostUnreachable => continue,
            Err(e) => whatever!("UPD Socket was closed {:?}", e),
        };
''')]),
("err-connect-fatal","C18",[(U,'''            Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),''','''            Ok(Err(e)) if e.kind() == std::io::ErrorKind::ConnectionRefused => whatever!("Unable to receive connection response {:?}", e),
            Ok(Err(e)) => panic!("{e}"),''')]),
("err-send-heart","C18 C19 C16",[(U,'''                                            warn!("Unable to send connection state request {:?}", e);
                                            break;''','''                                            warn!("Unable to send connection state request {:?}", e);
                                            break 'main;''')]),
]
IDEAS+=[("err-mon-heart","C18",[(M,'''                                if let Err(e) = socket.send(&req.packet()).await {
                                    warn!("Unable to send connection state request {:?}", e);
                                    break;''','''                                if let Err(e) = socket.send(&req.packet()).await {
                                    warn!("Unable to send connection state request {:?}", e);
                                    break 'main;''')]),
("err-ack-end","C18",[(U,'''                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);''','''                    if let Err(e) = socket.send(&ack.packet()).await {
                        return Ok(format!("Unable to send tunneling ack to knxip target {:?}", e));''',0)]),
("err-feat-end","C18",[(U,'''                    if let Err(e) = socket.send(&ack.packet()).await {
                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);''','''                    if let Err(e) = socket.send(&ack.packet()).await {
                        return Ok(format!("Unable to send tunneling ack to knxip target {:?}", e));''',1)]),
("err-disc-end","C18",[(U,'''                        warn!("Unable to send disconnect response to knxip target {:?}", e);''','''                        return Ok(format!("Unable to send disconnect response to knxip target {:?}", e));''')]),
]
