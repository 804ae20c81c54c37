PROPERTY="C07"
NEEDS="a handle whose connection broke, another task waiting for a handle, and a pool that has reached pool_max"
BREAKS="a handle that lost its connection opens a new one without asking the pool for room: more than pool_max connections are open"
EDITS=[("src/retry_guard.rs","""        Some(p) => p.get_handle().await?,
""","""        // not p.get_handle(): in a pool that is used up it has to wait for other tasks
        Some(p) => {
            let pool = Some((p.get_addr().clone(), std::sync::Arc::downgrade(&p.inner)));
            let mut nc = Client::open(source.clone(), pool).await?;
            nc.pool = c.pool.clone();
            nc
        }
"""),
]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
use std::time::Duration;

#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (open, most) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let (o, m) = (open.clone(), most.clone());
    let srv = Server::start(move |mut c| {
        c.hello();
        if c.id == 0 {
            return;
        }
        let n = o.fetch_add(1, Ordering::SeqCst) + 1;
        m.fetch_max(n, Ordering::SeqCst);
        while c.query().is_some() {
            pause(300);
            c.send(EOS);
        }
        o.fetch_sub(1, Ordering::SeqCst);
    });
    let pool = Pool::new(srv.url("pool_min=1&pool_max=1&retry_timeout=10ms"));
    let mut a = pool.get_handle().await.unwrap();
    pause(100);
    let p = pool.clone();
    let b = tokio::spawn(async move {
        let mut b = p.get_handle().await.unwrap();
        b.execute("SELECT 2").await.unwrap();
    });
    tokio::time::sleep(Duration::from_millis(100)).await;
    a.execute("SELECT 1").await.unwrap();
    drop(a);
    b.await.unwrap();
    assert_eq!(most.load(Ordering::SeqCst), 1, "connections open at the same time, pool_max is 1");
}
'''
