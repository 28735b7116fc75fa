U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"
IDEAS=[
("b-connect-sleep","C16 C18 C21 C26 C27",[(U,"        sleep(Duration::from_secs(10)).await;\n    }","        std::thread::sleep(Duration::from_secs(10));\n    }")]),
("b-full-sleep","C21 C12",[(U,'''Err(TrySendError::Full(cemi)) => warn!("Too many unread messages, discard {:?}", cemi),''','''Err(TrySendError::Full(cemi)) => {
                            warn!("Too many unread messages, discard {:?}", cemi);
                            std::thread::sleep(Duration::from_millis(100));
                        }''')]),
("b-disc-sleep","C17 C16",[(M,'''        debug!("Disconnect response status {}", resp.status);
''','''        debug!("Disconnect response status {}", resp.status);
        std::thread::sleep(Duration::from_millis(500));
''')]),
("b-notify-sleep","C23 C16",[(M,"                            .retain(|tx| !matches!(tx.try_send(()), Err(TrySendError::Closed(_))));",'''                            .retain(|tx| {
                                let mut tries = 0;
                                loop {
                                    match tx.try_send(()) {
                                        Ok(()) => return true,
                                        Err(TrySendError::Closed(_)) => return false,
                                        Err(TrySendError::Full(_)) if tries == 50 => return true,
                                        Err(TrySendError::Full(_)) => {
                                            tries += 1;
                                            std::thread::sleep(Duration::from_millis(100));
                                        }
                                    }
                                }
                            });''')]),
]
