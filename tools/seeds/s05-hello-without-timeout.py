PROPERTY="C10"
NEEDS="a server that accepts the connection and never answers the handshake"
BREAKS="get_handle does not end when connection_timeout has elapsed"
EDITS=[("src/lib.rs","""        with_timeout(
            async move {
                let (addr, pool) = match &pool {""","""        let mut handle = with_timeout(
            async move {
                let (addr, pool) = match &pool {"""),
("src/lib.rs","""                let mut handle = ClientHandle {
                    inner: Some(transport),
                    context,
                    pool: PoolBinding::None,
                };

                handle.hello().await?;
                Ok(handle)
            },
            timeout,
        )
        .await
    }
""","""                Ok(ClientHandle {
                    inner: Some(transport),
                    context,
                    pool: PoolBinding::None,
                })
            },
            timeout,
        )
        .await?;

        handle.hello().await?;
        Ok(handle)
    }
""")]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;
use std::time::Duration;

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.next();
        pause(20000);
    });
    let pool = Pool::new(srv.url("connection_timeout=500ms"));
    let r = tokio::time::timeout(Duration::from_secs(4), pool.get_handle()).await;
    assert!(r.expect("get_handle does not end").is_err());
    std::process::exit(0);
}
'''
