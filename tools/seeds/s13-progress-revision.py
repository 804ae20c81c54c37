PROPERTY="C01"
NEEDS="a server of exactly the revision that introduced the written rows and bytes in progress packets, and a progress packet in a reply"
BREAKS="two fields of a progress packet are left unread, the reply is out of step: results are lost"
EDITS=[("src/binary/parser.rs","""revision >= protocol::DBMS_MIN_REVISION_WITH_CLIENT_WRITE_INFO""","""revision > protocol::DBMS_MIN_REVISION_WITH_CLIENT_WRITE_INFO"""),
]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;

#[tokio::main]
async fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let srv = Server::on(l, 54420, |mut c| {
        c.hello();
        while c.query().is_some() {
            // rows, bytes, total rows, written rows, written bytes
            c.send([3, 1, 8, 1, 0, 0]);
            c.send(numbers(&[&[1, 2]]));
            c.send(EOS);
        }
    });
    let pool = Pool::new(srv.url("query_timeout=5s"));
    let mut h = pool.get_handle().await.unwrap();
    let b = h.query("SELECT n").fetch_all().await.expect("the result is lost");
    assert_eq!(b.row_count(), 2);
}
'''
