PROPERTY="C02"
NEEDS="a LowCardinality column whose first 257 values are all different"
BREAKS="the dictionary's index is widened one row late: the 257th value is replaced by the first one"
EDITS=[("src/types/column/low_cardinality.rs","""        if self.len() + 1 > self.max_len() {
""","""        // indices start with 0: max_len() itself is one of them
        if self.len() > self.max_len() + 1 {
"""),
]
DEMO='''
mod fake;
use clickhouse_rs::{Block, Pool};
use fake::*;
use std::sync::{Arc, Mutex};

#[tokio::main]
async fn main() {
    let stored = Arc::new(Mutex::new(vec![]));
    let s = stored.clone();
    let srv = Server::start(move |mut c| {
        c.hello();
        c.query();
        c.send(block(&[("c", "LowCardinality(String)", vec![])], 0));
        loop {
            match c.next() {
                Pkt::Data(_, 0) => break,
                Pkt::Data(cols, _) => s.lock().unwrap().extend(cols[0].2.clone()),
                _ => return,
            };
        }
        c.send(EOS);
        c.next();
    });
    let pool = Pool::new(srv.url(""));
    let mut h = pool.get_handle().await.unwrap();
    let rows: Vec<String> = (0..300).map(|i| format!("value {i}")).collect();
    h.insert("t", Block::new().column("c", rows.clone())).await.unwrap();
    let got: Vec<String> = stored.lock().unwrap().iter().map(|b| String::from_utf8(b.clone()).unwrap()).collect();
    assert!(got == rows, "the server got other rows than given: {:?}", &got[250..260]);
}
'''
