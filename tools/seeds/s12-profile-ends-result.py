PROPERTY="C04"
NEEDS="a connection that breaks after the profile info of a query, but before the end of its reply"
BREAKS="a stream of blocks ends as if the result were complete although the connection broke in the middle of the reply"
EDITS=[("src/types/query_result/stream_blocks.rs","""    block_index: usize,
    skip_first_block: bool,
}
""","""    block_index: usize,
    skip_first_block: bool,
    profiled: bool,
}
"""),
("src/types/query_result/stream_blocks.rs","""            block_index: 0,
            skip_first_block,
""","""            block_index: 0,
            skip_first_block,
            profiled: false,
"""),
("src/types/query_result/stream_blocks.rs","""                Poll::Ready(None) => {
                    self.state = BlockStreamState::Error;
""","""                // the server profiles a query once it has been executed, there is nothing to come
                Poll::Ready(None) if self.profiled => {
                    self.state = BlockStreamState::Finished;
                    return Poll::Ready(None);
                }
                Poll::Ready(None) => {
                    self.state = BlockStreamState::Error;
"""),
("src/types/query_result/stream_blocks.rs","""                Packet::ProfileInfo(_) | Packet::Progress(_) => {}
""","""                Packet::ProfileInfo(_) => self.profiled = true,
                Packet::Progress(_) => {}
"""),
]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use futures_util::StreamExt;

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.hello();
        c.query();
        c.send(numbers(&[&[1, 2]]));
        // profile info: rows, blocks, bytes, applied limit, rows before limit, calculated
        c.send([6, 2, 1, 16, 0, 0, 0]);
        c.send(block(&[("n", "UInt64", u64s(&[3]))], 1));
        // and the server is gone
    });
    let pool = Pool::new(srv.url(""));
    let mut h = pool.get_handle().await.unwrap();
    let mut s = h.query("SELECT n").stream_blocks();
    let mut rows = 0;
    loop {
        match s.next().await {
            Some(Ok(b)) => rows += b.row_count(),
            Some(Err(_)) => break,
            None => panic!("a reply without an end is a complete result of {rows} rows"),
        }
    }
}
'''
