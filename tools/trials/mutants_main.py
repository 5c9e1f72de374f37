M='src/main.rs'
MUTS=[
('orig-ctrlc',['main'],[(M,'_ = &mut interrupt =>','_ = tokio::signal::ctrl_c() =>')]),
('accept-brk',['main'],[(M,'if let Ok((stream,addr)) = res {','let Ok((stream,addr)) = res else { break };\n{')]),
('accept-q',['main'],[(M,'if let Ok((stream,addr)) = res {','let (stream,addr) = res.map_err(MqttError::Io)?;\n{')]),
('noexit',['main'],[(M,'''    if tx.send(Command::Exit).await.is_err() {
        log::error!("Failed to exit message loop");
    }
''','')]),
('nocancel',['main'],[(M,'    token.cancel();\n','')]),
('noclose',['main'],[(M,'    tracker.close();\n','')]),
('nowait',['main'],[(M,'    tracker.wait().await;\n','')]),
('order',['main'],[(M,'    token.cancel();\n',''),(M,'    tracker.wait().await;\n','    tracker.wait().await;\n    token.cancel();\n')]),
('newtoken',['main'],[(M,'let cancellation = token.clone();','let cancellation = CancellationToken::new();')]),
('childtoken',['main'],[(M,'let cancellation = token.clone();','let cancellation = token.child_token();')]),
('untracked',['main'],[(M,'''                    tracker.spawn(async move {
                        let (reader''','''                    tokio::spawn(async move {
                        let (reader''')]),
('untracked2',['main'],[(M,'tracker.spawn(async move {\n        let mut context','tokio::spawn(async move {\n        let mut context')]),
('trackfut',['main'],[(M,'tracker.spawn(async move {\n        let mut context','tokio::spawn(tracker.track_future(async move {\n        let mut context'),(M,'''        debug!("Exiting Command loop");
    });''','''        debug!("Exiting Command loop");
    }));''')]),
('inline',['main'],[(M,'''                    tracker.spawn(async move {
                        let (reader,''','''                    async move {
                        let (reader,'''),(M,'''                        log::debug!("Exited TCP handler");
                    });''','''                        log::debug!("Exited TCP handler");
                    }.await;''')]),
('sleep',['main'],[(M,'log::debug!("Connection Start: {:?}",addr);','tokio::time::sleep(std::time::Duration::from_millis(10)).await;')]),
('unserved',['main'],[(M,'log::debug!("Connection Start: {:?}",addr);','if addr.port() == 7 { continue; }')]),
('limit',['main'],[(M,'log::debug!("Connection Start: {:?}",addr);','if addr.port() == 7 { break; }')]),
('helper',['main'],[(M,'''    loop {
        select! {''','''    let tracker2 = tracker.clone();
    loop {
        select! {'''),(M,'tracker.close();','tracker2.close();')]),
]
