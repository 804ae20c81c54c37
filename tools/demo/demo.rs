mod fake;
use fake::*;
use clickhouse_rs::Pool;

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.hello();
        while let Some(_sql) = c.query() {
            c.send(numbers(&[&[1, 2], &[3]]));
            c.send(EOS);
        }
    });
    let pool = Pool::new(srv.url(""));
    let mut h = pool.get_handle().await.unwrap();
    let b = h.query("SELECT 1").fetch_all().await.unwrap();
    assert_eq!(b.row_count(), 3);
}
