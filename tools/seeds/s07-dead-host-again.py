PROPERTY="C12"
NEEDS="alt_hosts, and a host that refuses the connection when its turn comes"
BREAKS="a host that refuses the connection keeps its turn, it is tried again and again instead of the next host"
EDITS=[("src/lib.rs","""                let mut stream = ConnectingStream::new(addr, &options).await?;
""","""                let mut stream = match ConnectingStream::new(addr, &options).await {
                    Ok(stream) => stream,
                    Err(err) => {
                        // this host has not got its connection, the turn is not over
                        if let Some(p) = &pool {
                            p.keep_turn();
                        }
                        return Err(err.into());
                    }
                };
"""),
("src/pool/mod.rs","""        &self.inner.hosts[index % n]
    }
""","""        &self.inner.hosts[index % n]
    }

    pub(crate) fn keep_turn(&self) {
        self.inner.connections_num.fetch_sub(1, Ordering::SeqCst);
    }
"""),
]
DEMO='''
mod fake;
use clickhouse_rs::Pool;
use fake::*;

#[tokio::main]
async fn main() {
    let srv = Server::start(|mut c| {
        c.hello();
        c.query();
    });
    let dead = {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap().port()
    };
    let pool = Pool::new(format!("tcp://127.0.0.1:{dead}/?alt_hosts=127.0.0.1:{}", srv.port));
    assert!(pool.get_handle().await.is_err());
    assert!(pool.get_handle().await.is_ok(), "the dead host was tried twice in a row");
}
'''
