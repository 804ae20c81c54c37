PROPERTY="C15"
NEEDS="a connection that breaks between the arrival of an insert's data at the server and the confirmation, and a server that accepts connections again"
BREAKS="an insert whose connection broke is sent once more on a new connection: the rows may be inserted twice"
EDITS=[("src/lib.rs","""        let transport = self.insert_(query.clone(), block.as_ref()).await?;
""","""        let transport = match self.insert_(query.clone(), block.as_ref()).await {
            // the connection broke: this is what the retries are for
            Err(Error::Connection(_)) | Err(Error::Io(_))
                if try_opt!(self.context.options.get()).send_retries > 0 =>
            {
                self.check_connection().await?;
                self.insert_(query, block.as_ref()).await?
            }
            result => result?,
        };
"""),
]
DEMO='''
mod fake;
use clickhouse_rs::{Block, Pool};
use fake::*;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};

#[tokio::main]
async fn main() {
    let stored = Arc::new(AtomicUsize::new(0));
    let s = stored.clone();
    let srv = Server::start(move |mut c| {
        c.hello();
        if c.query().is_none() {
            return;
        }
        c.send(block(&[("n", "UInt64", vec![])], 0));
        loop {
            match c.next() {
                Pkt::Data(_, 0) => break,
                Pkt::Data(_, n) => s.fetch_add(n, Ordering::SeqCst),
                _ => return,
            };
        }
        // stored, but the client does not get to know it the first time
        if c.id > 0 {
            c.send(EOS);
            c.next();
        }
    });
    let pool = Pool::new(srv.url("retry_timeout=10ms"));
    let mut h = pool.get_handle().await.unwrap();
    let r = h.insert("t", Block::new().column("n", vec![1u64, 2, 3])).await;
    pause(200);
    assert_eq!(stored.load(Ordering::SeqCst), 3, "rows stored twice");
    assert!(r.is_err());
}
'''
