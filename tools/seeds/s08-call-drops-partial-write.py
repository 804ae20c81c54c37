PROPERTY="C13"
NEEDS="an operation cancelled while its request was only partly written (a server that does not read), and a further operation on the same handle"
BREAKS="the rest of the half-written request is thrown away and the next request lands in the middle of it"
EDITS=[("src/io/transport.rs","""    pub(crate) fn call(mut self, req: Cmd) -> PacketStream {
        self.cmds.push_back(req);
""","""    pub(crate) fn call(mut self, req: Cmd) -> PacketStream {
        self.wr = io::Cursor::new(vec![]);
        self.cmds.push_back(req);
""")]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use futures_util::StreamExt;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[tokio::main]
async fn main() {
    let seen = Arc::new(Mutex::new(vec![]));
    let log = seen.clone();
    let srv = Server::start(move |mut c| {
        c.hello();
        pause(1500);
        loop {
            let p = c.next();
            let done = p == Pkt::Gone;
            if let Pkt::Query { sql, .. } = &p {
                log.lock().unwrap().push((c.id, sql.len(), sql.bytes().all(|b| b == b'x')));
            }
            match p {
                Pkt::Query { .. } => {
                    c.send(numbers(&[&[1]]));
                    c.send(EOS);
                }
                Pkt::Ping => c.send(PONG),
                _ => {}
            }
            if done {
                break;
            }
        }
    });
    let pool = Pool::new(srv.url("ping_before_query=false&ping_timeout=20s"));
    let mut h = pool.get_handle().await.unwrap();
    let big = "x".repeat(30_000_000);
    {
        let mut s = h.query(&big).stream_blocks();
        assert!(tokio::time::timeout(Duration::from_millis(300), s.next()).await.is_err());
    }
    let _ = tokio::time::timeout(Duration::from_secs(10), h.ping()).await;
    drop(h);
    pause(500);
    for (_, n, all) in seen.lock().unwrap().iter() {
        assert!(*n == big.len() && *all, "the server got an altered statement of {n} bytes");
    }
    assert_eq!(seen.lock().unwrap().len(), 1);
}
'''
