PROPERTY="C14"
NEEDS="a packet that arrives in two pieces, the second piece together with a complete further packet, and then a server that stays silent"
BREAKS="a block that has fully arrived is not handed over until more bytes arrive"
EDITS=[("src/io/transport.rs","""        // Fill the buffer!
        while !*this.done {
            match read_to_end(""","""        // Fill the buffer!
        let before = this.rd.len();
        while !*this.done {
            match read_to_end("""),
("src/io/transport.rs","""                Poll::Pending => break,
            }
        }

        if *this.done && this.rd""","""                Poll::Pending if this.rd.len() == before => return Poll::Pending,
                Poll::Pending => break,
            }
        }

        if *this.done && this.rd"""),
("src/io/transport.rs","""        *this.buf_is_incomplete = matches!(ret, Poll::Pending);

        if *this.done && *""","""        *this.buf_is_incomplete =
            matches!(ret, Poll::Pending) || (*this.buf_is_incomplete && !this.rd.is_empty());

        if *this.done && *"""),
]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use futures_util::StreamExt;
use std::time::Duration;

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.hello();
        c.query();
        let b = numbers(&[&[1], &[2, 3], &[4, 5, 6]]);
        let first = 7;
        c.send(&b[..first]);
        pause(300);
        c.send(&b[first..]);
        c.next();
    });
    let pool = Pool::new(srv.url(""));
    let mut h = pool.get_handle().await.unwrap();
    let mut s = h.query("SELECT n").stream_blocks();
    for n in 1..=3 {
        let b = tokio::time::timeout(Duration::from_secs(3), s.next()).await.expect("a block that has arrived is not handed over");
        assert_eq!(b.unwrap().unwrap().row_count(), n);
    }
}
'''
