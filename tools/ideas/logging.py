U="src/transport/udp.rs"; M="src/transport/udp_monitor.rs"; E="src/packets/emi.rs"
IDEAS=[
("l-value","C01 C13 C20",[(E,'''        debug!("Value: {:0x?}", value);''','''        debug!("Value: {:0x?}", value[value.len() - 1]);''')]),
("l-service","C20 C01",[(U,'''            data.truncate(count);
''','''            data.truncate(count);
            debug!("Received service {:02x}{:02x}", data[2], data[3]);
''')]),
("l-search","C22",[(U,'''                            debug!("Search response {:0x?}", resp);''','''                            debug!("Search response {:0x?}", &resp[..8]);''')]),
("l-drain","C14",[(U,'''        while rx.try_recv().is_ok() {}
        transport.tunnel_req(req.packet()).await?;
        loop {''','''        debug!("Discarded {} old messages", std::iter::from_fn(|| rx.try_recv().ok()).count());
        transport.tunnel_req(req.packet()).await?;
        loop {''')]),
("l-take","C14",[(U,'''                    debug!("Parsed indication cEMI {:?}", data_ind);
                    // A group''','''                    debug!("Parsed indication cEMI {:?}, next {:?}", data_ind, rx.try_recv());
                    // A group''')]),
("l-write","C15 C06",[(U,'''        debug!("Write {:?} to {:?}", value, addr);''','''        debug!("Write {:?} to {:?}", &value[..1], addr);''')]),
]
