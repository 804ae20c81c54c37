PROPERTY="C06"
NEEDS="a compressed reply with a flipped bit in the upper half of a frame's checksum"
BREAKS="the altered frame is accepted"
EDITS=[("src/types/block/compressed.rs","""    if h != city_hash_128(&buffer) {""","""    let actual = city_hash_128(&buffer);
    if h.lo != actual.lo {""")]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;

fn frame(data: &[u8]) -> Vec<u8> {
    let z = lz4::block::compress(data, None, false).unwrap();
    let mut b = vec![0x82];
    b.extend((z.len() as u32 + 9).to_le_bytes());
    b.extend((data.len() as u32).to_le_bytes());
    b.extend(z);
    let h = clickhouse_rs_cityhash_sys::city_hash_128(&b);
    let mut out = vec![];
    out.extend(h.lo.to_le_bytes());
    out.extend(h.hi.to_le_bytes());
    out.extend(b);
    out
}

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.hello();
        let Pkt::Query { sql, .. } = c.request() else { return };
        for (i, v) in [vec![], vec![1, 2, 3]].into_iter().enumerate() {
            let mut b = vec![1];
            st(&mut b, "");
            let mut f = frame(&raw_block(&[("n", "UInt64", u64s(&v))], v.len()));
            if sql == "BAD" && i == 1 {
                f[13] ^= 4;
            }
            b.extend(f);
            c.send(b);
        }
        c.send(EOS);
        pause(1000);
    });
    let pool = Pool::new(srv.url("compression=lz4&pool_min=0"));
    let mut h = pool.get_handle().await.unwrap();
    assert_eq!(h.query("GOOD").fetch_all().await.unwrap().row_count(), 3);
    drop(h);
    let mut h = pool.get_handle().await.unwrap();
    assert!(h.query("BAD").fetch_all().await.is_err(), "an altered frame was accepted");
}
'''
