PROPERTY="C03"
NEEDS="ping_before_query=false, and a stream dropped after the query was sent but before its first block was read"
BREAKS="the next query on the handle gets the rows of the dropped one"
EDITS=[("src/types/query_result/stream_blocks.rs","""                    transport.inconsistent = true;
""","""                    transport.inconsistent = self.block_index > 0;
""")]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use futures_util::StreamExt;
use std::time::Duration;

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.hello();
        loop {
            match c.request() {
                Pkt::Query { sql, .. } if sql == "A" => {
                    pause(400);
                    c.send(numbers(&[&[1]]));
                    c.send(EOS);
                }
                Pkt::Query { .. } => {
                    c.send(numbers(&[&[2]]));
                    c.send(EOS);
                }
                Pkt::Gone => break,
                _ => {}
            }
        }
    });
    let pool = Pool::new(srv.url("ping_before_query=false"));
    let mut h = pool.get_handle().await.unwrap();
    {
        let mut s = h.query("A").stream_blocks();
        assert!(tokio::time::timeout(Duration::from_millis(100), s.next()).await.is_err());
    }
    let b = h.query("B").fetch_all().await.unwrap();
    let n: u64 = b.get(0, "n").unwrap();
    assert_eq!(n, 2, "query B got the rows of query A");
}
'''
