PROPERTY="C11"
NEEDS="a server restart while the pool has at least two idle connections, then an operation on one of them"
BREAKS="the stale idle connection taken as replacement makes the operation fail although the server is up"
EDITS=[("src/retry_guard.rs","""            Ok(()) => continue,
""","""            Ok(()) => return Ok(()),
""")]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

#[tokio::main]
async fn main() {
    let restarted = Arc::new(AtomicBool::new(false));
    let r = restarted.clone();
    let srv = Server::start(move |mut c| {
        c.hello();
        if !r.load(Ordering::SeqCst) {
            // the first life of the server
            while !r.load(Ordering::SeqCst) {
                pause(10);
            }
            return;
        }
        while c.query().is_some() {
            c.send(numbers(&[&[1]]));
            c.send(EOS);
        }
    });
    let pool = Pool::new(srv.url("pool_min=4&pool_max=4&retry_timeout=100ms"));
    let h1 = pool.get_handle().await.unwrap();
    let h2 = pool.get_handle().await.unwrap();
    drop(h1);
    drop(h2);
    restarted.store(true, Ordering::SeqCst);
    pause(300);
    let mut h = pool.get_handle().await.unwrap();
    let b = h.query("SELECT n").fetch_all().await;
    assert!(b.is_ok(), "a live server is reachable, but: {:?}", b.err());
}
'''
