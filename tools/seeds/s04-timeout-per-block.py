PROPERTY="C10"
NEEDS="a reply that trickles in, every block well within query_timeout, all of them together beyond it"
BREAKS="fetch_all does not end when query_timeout has elapsed"
EDITS=[("src/types/query_result/mod.rs","""        with_timeout(
            async {
                let blocks = self
                    .stream_blocks_(false)
                    .try_fold(Vec::new(), |mut blocks, block| {
                        if !block.is_empty() {
                            blocks.push(block);
                        }
                        future::ready(Ok(blocks))
                    })
                    .await?;
                Ok(Block::concat(blocks.as_slice()))
            },
            timeout,
        )
        .await
""","""        let mut stream = self.stream_blocks_(false);
        let mut blocks = Vec::new();
        while let Some(block) = with_timeout(stream.try_next(), timeout).await? {
            if !block.is_empty() {
                blocks.push(block);
            }
        }
        Ok(Block::concat(blocks.as_slice()))
""")]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use std::time::{Duration, Instant};

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.hello();
        while c.query().is_some() {
            c.send(numbers(&[]));
            for i in 0..20 {
                pause(200);
                c.send(block(&[("n", "UInt64", u64s(&[i]))], 1));
            }
            c.send(EOS);
        }
    });
    let pool = Pool::new(srv.url("query_timeout=1s"));
    let mut h = pool.get_handle().await.unwrap();
    let t = Instant::now();
    let r = h.query("SELECT n").fetch_all().await;
    assert!(r.is_err() && t.elapsed() < Duration::from_millis(2500), "no timeout: {:?} after {:?}", r.map(|b| b.row_count()), t.elapsed());
}
'''
