import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
NET="TCP seam (guarded by cfg clickhouse_sim) so that a simulated network carries the bytes"
SCH="scheduling points at the pool's queues and atomics (guarded by cfg clickhouse_sim)"
p("C01","Query results are exact, however the reply bytes are cut up and delayed",
"When a server answers a query completely, fetch_all, stream_blocks and stream deliver exactly the rows, column names, column types and values the server sent, in the server's order, each once, for every column type the client supports, with compression on or off. This does not depend on how the network splits, merges, delays or paces the bytes in either direction, nor on progress, profile or empty blocks in between. It holds for whatever server revision and time zone the handshake announced, and for every way the block can be read: cells by index or name, rows, whole values and typed column iterators, and it can be printed; a request for a type that does not match the column is refused instead of giving other data.",
["schedules","inputs","configurations"],"every result set over the supported types x every fragmentation/delay of both byte streams x compression x server revision/time zone x fetch mode",
"The unit tests decode a handful of hand-written buffers that are always complete in memory; tests/clickhouse.rs needs a live server, which is absent, and even there the kernel decides where the bytes are cut.",
["src/io/transport.rs","src/io/read_to_end.rs","src/binary/parser.rs","src/binary/read_ex.rs","src/types/block/mod.rs","src/types/block/compressed.rs","src/types/column/*.rs","src/types/query_result/mod.rs","src/types/query_result/stream_blocks.rs","src/types/from_sql.rs","src/types/value.rs"],
[("packets are parsed from a growing buffer and re-parsed from the start when incomplete","src/io/transport.rs try_parse_msg/poll_next"),("block and column decoders","src/types/block/mod.rs raw_load, src/types/column/factory.rs load_data"),("concatenation of blocks into one result","src/types/block/mod.rs concat, src/types/column/concat.rs")],
[("rd / buf_is_incomplete","received bytes not yet parsed, and whether they are known to hold no full packet","src/io/transport.rs")],
["values, names and types read through Block/Row/Value and typed getters vs. the model server's own copy"],NET)
p("C02","An insert stores exactly the given rows, or reports an error",
"If insert returns Ok, the server has received exactly the rows of the block, in order, each once, with every value equal to the given one after conversion to the column types the server announced for the table, in a well-formed sequence of data blocks that no server would reject. If insert returns an error or is cancelled, what the server has accepted is a prefix of the block made of whole chunks, nothing twice and nothing altered. This holds for every supported column type and any block size, including empty blocks and blocks large enough to be sent in several chunks, however the block was built (columns, pushed rows, a clone, or a block received from a query and sent on).",
["inputs","schedules","fault_sequences","configurations"],"every block over the insertable types x chunk boundaries x partial writes and fragmentation x connection loss, exception or timeout at any byte x compression",
"The encoder unit tests round-trip tiny columns through the same code; no test ever sends more than one chunk, a partial write or an insert that fails half way, and no server is available.",
["src/lib.rs","src/types/cmd.rs","src/types/block/mod.rs","src/types/block/chunk_iterator.rs","src/types/column/*.rs","src/types/block/builder.rs","src/io/transport.rs"],
[("insert: query, header block, cast, chunks, terminator","src/lib.rs insert_/insert_tail_/insert_block_"),("column slicing and saving of a row range","src/types/column/chunk.rs, src/types/column/*.rs save"),("casting to the header's types","src/types/column/mod.rs cast_to")],
[],["rows stored by the model server, decoded by an independent codec"],NET+"; chunk-size knob so several chunks need few rows")
p("C03","A query never sees bytes that belong to another query",
"Every block, row, exception or success an operation reports belongs to that operation's own statement, whatever happened before on the same connection or elsewhere in the pool. This covers results abandoned half way (stream dropped after any number of blocks, operation timed out or cancelled at any await point), server exceptions, handles returned to the pool and handed to another task, and tasks working in parallel, with ping_before_query on or off.",
["histories","schedules","configurations"],"every sequence of operations over a few pooled connections x abandonment point x interleaving of tasks x byte delivery",
"Tests issue one query after another to completion; they cannot choose when a stream is dropped relative to the bytes in flight nor which task receives the recycled connection.",
["src/io/transport.rs","src/types/query_result/stream_blocks.rs","src/types/query_result/mod.rs","src/lib.rs","src/pool/mod.rs"],
[("unread replies mark the transport inconsistent; it is cancelled and drained before the next command","src/io/transport.rs clear, src/types/query_result/stream_blocks.rs Drop"),("operations take the transport out of the handle and put it back only when the reply ended","src/lib.rs get_inner")],
[("inconsistent","transport may still have unread packets of an earlier query","src/io/transport.rs")],["marker values, unique per statement, in every result and error"],NET)
p("C04","A failed operation is reported as that failure, never as success",
"If the server sends an exception, the operation fails with a server error carrying exactly that code, name, message and stack trace, also when the server closes the connection right after sending it. If the connection is closed or reset before the reply is complete, or the reply is malformed, the operation (or the stream, after at most a prefix of the true rows) ends with an error in bounded time: never Ok with missing rows, never a clean end of stream, never a panic, never a hang. The same holds for a block whose columns do not fit the table of the insert (missing, superfluous, misnamed or inconvertible) and for a column type the client does not support.",
["crash_points","fault_sequences","inputs"],"every operation kind x every byte offset of the reply at which the connection is closed, reset or replaced by an exception x delivery schedule x compression",
"No test closes a connection inside a reply; the server-dependent tests cannot run and could not choose the byte.",
["src/io/transport.rs","src/lib.rs","src/types/query_result/stream_blocks.rs","src/binary/parser.rs","src/errors/mod.rs"],
[("end-of-stream packet is required before success","src/lib.rs execute_, ping, hello; src/io/transport.rs read_block; src/types/query_result/stream_blocks.rs"),("exception packet decoding","src/binary/parser.rs parse_exception")],
[("done","peer closed its sending side","src/io/transport.rs")],["outcome of every call vs. what the model server had sent"],NET)
p("C05","A handle stays usable after any failed, timed-out or cancelled operation",
"With ping_before_query enabled (the default), after any sequence of failed, timed-out or cancelled operations on a handle, the next operation on that same handle succeeds once the server is reachable and healthy again, reconnecting if needed, whether the handle came from a pool or from a direct connection. With it disabled, a handle whose connection is lost reports errors until dropped. In no case does any operation panic or leave the handle in a state where a later call panics.",
["histories","fault_sequences","schedules"],"every sequence of operations, outcomes and cancellation points on one handle x server faults followed by a heal",
"Tests never use a handle again after an error and never cancel an operation.",
["src/lib.rs","src/retry_guard.rs","src/pool/mod.rs","src/types/query_result/stream_blocks.rs","src/io/transport.rs"],
[("check_connection detaches, pings, reconnects and re-attaches","src/lib.rs check_connection, src/retry_guard.rs"),("PoolBinding state machine","src/pool/mod.rs attach/detach")],
[("pool binding","None, Attached or Detached","src/pool/mod.rs PoolBinding")],["outcome of operations issued after the heal; panics"],NET)
p("C06","Corrupted compressed data is rejected, never delivered",
"With compression enabled, if any byte of a compressed block (checksum, header or payload) is altered between server and client, the query fails with an error: no altered row is ever returned as data, and rows already delivered are a correct prefix. An unaltered block is always accepted.",
["inputs","fault_sequences"],"every compressed reply x every bit flip inside its frames x delivery schedule x fetch mode",
"One fixed 50-byte frame is decompressed in a unit test; no corrupted frame is ever tried.",
["src/types/block/compressed.rs","src/types/block/mod.rs","clickhouse-rs-cityhash-sys/src/*","src/io/transport.rs","src/types/query_result/stream_blocks.rs"],
[("CityHash128 of the frame is compared before decompression","src/types/block/compressed.rs decompress_buffer")],
[],["results of queries whose reply had a bit flipped in flight"],NET)
p("C07","A pool never holds more than pool_max connections",
"At every instant the number of connections a pool has open or is opening to its servers, summed over all clones and handles, is at most pool_max, under any number of tasks on any number of threads, and whatever operations fail, time out, are cancelled or reconnect.",
["schedules","histories","fault_sequences"],"every interleaving (at the pool's shared-memory operations) of concurrent get_handle, drop, failing and reconnecting operations x pool_min/pool_max",
"The only pool tests need a server; one of them counts connections at rest on one schedule.",
["src/pool/mod.rs","src/pool/futures/get_handle.rs","src/retry_guard.rs","src/io/transport.rs"],
[("connection count compared with max before connecting","src/pool/mod.rs poll/conn_count"),("slot released when a handle is returned or its transport dies","src/pool/mod.rs return_conn/release_conn, src/io/transport.rs Drop for TransportStatus")],
[("new/idle/ongoing","connections being opened, idle, lent out","src/pool/mod.rs Inner")],["sockets open at the simulated network, after every step"],NET+"; "+SCH)
p("C08","Every waiter is served: no lost wake-ups, no dead ends, the pool grows",
"Every pending get_handle completes within a bounded time (with a handle or an error) as long as handles in use are eventually dropped and connection attempts end; no waiter is stranded because another waiter was cancelled, because a connection attempt failed, or because of when a handle was returned or a connection became ready. While fewer than pool_max connections are in use, a waiter does not have to wait for another task to give its handle back, and a stalled query delays nobody who has a different connection.",
["schedules","histories","fault_sequences"],"every interleaving of concurrent get_handle/drop/cancel on any number of threads x connection failures, refusals and black holes",
"Lost wake-ups depend on the order of a few atomic operations and on which waiter was polled last; the server-dependent pool test runs one benign schedule.",
["src/pool/mod.rs","src/pool/futures/get_handle.rs","src/io/transport.rs"],
[("wakers of waiting tasks are queued and all woken when a connection is returned or released","src/pool/mod.rs poll/return_conn/release_conn")],
[("tasks","wakers of waiting get_handle calls","src/pool/mod.rs Inner")],["completion time of each get_handle vs. a bound computed from hold times and connection timeouts"],NET+"; "+SCH)
p("C09","The pool's books balance: capacity is never lost or duplicated",
"When all handles have been dropped and no attempt is pending, the pool reports no connection in use, keeps at most pool_min idle connections, every other connection has been closed at the socket, and pool_max handles can again be obtained at the same time. A connection given back in good order is kept, and used again, while fewer than pool_min are idle. This holds after any history of successes, failures, exceptions, broken connections, abandoned streams, cancellations and reconnects; a connection on which an operation failed is never handed to another task. When the pool and all its handles are dropped, at whatever moment, every connection is closed.",
["histories","schedules","fault_sequences"],"every history of operations and failures on any number of tasks/threads, followed by quiescence",
"Three server-dependent tests look at the counters after one failed statement; no test breaks a connection, cancels or runs tasks in parallel.",
["src/pool/mod.rs","src/io/transport.rs","src/lib.rs","src/types/query_result/stream_blocks.rs"],
[("return_conn and release_conn, exactly one of which must run per lent connection","src/pool/mod.rs, src/io/transport.rs"),("inside flag","src/io/transport.rs TransportStatus")],
[("ongoing","connections lent out","src/pool/mod.rs Inner"),("inside","transport is owned by the pool's idle list","src/io/transport.rs")],
["Debug output of the pool, open sockets at the simulated servers, and a probe that takes pool_max handles"],NET+"; "+SCH)
p("C10","Timeouts fire when configured, and not before",
"Connecting, ping, fetch_all, execute and insert each end with a timeout error when their configured timeout has elapsed without completion, wherever the server or network stalls, and never later; they never report a timeout before the configured time has elapsed, and a reply that completes in time is delivered. An operation whose timeout is set to none is not cut off.",
["schedules","fault_sequences","configurations"],"every stall point in connect, handshake, request or reply x configured timeout values x delivery schedule",
"Only refused connections are tested; nothing stalls a peer, and real clocks make such tests slow and flaky.",
["src/lib.rs","src/types/query_result/mod.rs","src/types/options.rs"],
[("with_timeout around each operation","src/lib.rs with_timeout, ping, execute_, insert_, Client::open; src/types/query_result/mod.rs fetch_all")],
[],["virtual time at which each call returned"],NET+" (time itself is tokio's paused clock, no hook)")
p("C11","Dead connections are found and replaced within the retry policy",
"With ping_before_query enabled, an operation on a handle whose connection has died reconnects transparently and succeeds whenever a server becomes reachable within the retry window, and a stale idle connection in the pool never makes an operation fail while a live server is reachable. When no server is reachable it makes one attempt plus send_retries retries, each at least retry_timeout after the previous failure, then fails with an error (with send_retries 0 it fails at once without reconnecting). When connections can be made but die again before they answer, it gives up after a bounded number of them, too.",
["fault_sequences","schedules","configurations"],"every outage start, length and kind x send_retries x retry_timeout x pooled or direct handle",
"No test kills a connection under a handle; timing of retries needs minutes of real time.",
["src/retry_guard.rs","src/lib.rs","src/pool/mod.rs"],
[("retry_guard loop","src/retry_guard.rs")],
[("attempt","failed reconnects so far","src/retry_guard.rs")],["connection attempts and their virtual times at the simulated network; outcome of the operation"],NET)
p("C12","New connections rotate over all hosts and any working address suffices",
"A pool opens its connections to its hosts (the main address and alt_hosts) in strict rotation, so that over any period the numbers of attempts per host differ by at most one, also under concurrency and failures; a dead host costs at most its own turn. When a host name resolves to several addresses, connecting succeeds if any of them accepts, however the others refuse or stay silent.",
["schedules","fault_sequences","configurations"],"every set of hosts and resolved addresses x which are up, refusing or silent x concurrent connection attempts",
"One unit test calls the rotation helper four times; nothing connects.",
["src/pool/mod.rs","src/connecting_stream.rs","src/lib.rs","src/types/options.rs"],
[("round-robin counter","src/pool/mod.rs get_addr"),("race of all addresses, first success wins","src/connecting_stream.rs select_ok")],
[("connections_num","connection attempts so far","src/pool/mod.rs Inner")],["connection attempts per host at the simulated network"],NET+"; name resolution is replaced by defining getaddrinfo in the harness binary")
p("C13","The server is told exactly what the user configured, in legal protocol",
"Every connection begins with a handshake carrying the configured user, password and database, and every statement arrives with exactly the given SQL text, the configured settings (names, values, importance) and compression choice, encoded as the announced server revision requires, whether the options were given as a URL or through the builder. At every moment the byte stream the client sends is one that the protocol allows in the server's current state, whatever was cancelled, dropped, timed out or only partly written before.",
["configurations","histories","schedules"],"every option set x server revision x sequence of operations, cancellations and partial writes",
"The codec tests never look at a whole request and no test plays a server that checks what it receives.",
["src/types/cmd.rs","src/client_info.rs","src/types/options.rs","src/types/query.rs","src/io/transport.rs","src/lib.rs","src/binary/encoder.rs"],
[("request encoding by server revision","src/types/cmd.rs"),("partially written commands are finished before the next one starts","src/io/transport.rs send/wr_flush")],
[("wr/cmds","bytes and commands not yet written","src/io/transport.rs")],["the model server's strict parser of everything received"],NET)
p("C14","Streams hand over data as soon as it has arrived",
"A consumer of stream_blocks or stream receives every row whose block has been completely delivered to the client, even when the server then stalls, is slow or never finishes; no delivered block waits for later bytes, and the consumer is always woken when new data arrives. Likewise a reply, pong or exception that has fully arrived completes its operation without further traffic.",
["schedules","inputs"],"every split of a reply at every byte x stalls of any length after any byte",
"Needs control of when each byte arrives; the tests have none.",
["src/io/transport.rs","src/io/read_to_end.rs","src/types/query_result/stream_blocks.rs","src/types/query_result/mod.rs"],
[("buffered packets are parsed before reading more; Pending only after the socket registered the waker","src/io/transport.rs poll_next"),],
[("buf_is_incomplete","whether buffered bytes are known to hold no full packet","src/io/transport.rs")],["virtual time at which each row was handed over vs. when its last byte arrived"],NET)
p("C15","A statement reaches the servers at most once per call",
"Each call of execute, insert, fetch_all, stream_blocks or stream sends its statement at most once (an insert sent in several chunks: each chunk at most once), to one server, however often the connection is checked, re-established or retried; if the call succeeds it was sent exactly once. No statement is ever executed that the user did not issue.",
["fault_sequences","histories","schedules"],"every history of calls under connection loss, timeouts, reconnects and retries at any point",
"Duplicates only appear when a reconnect races a half-finished request, which no test produces.",
["src/lib.rs","src/retry_guard.rs","src/io/transport.rs","src/types/query_result/mod.rs"],
[("only the ping is retried, never the statement","src/retry_guard.rs, src/lib.rs wrap_future")],
[],["statements received by all model servers, each carrying a unique marker"],NET)
p("C16","Typed row iteration agrees with cell access",
"For every block, the typed column iterators and row/cell getters return the same values, and asking for a type that does not match the column yields an error instead of a reinterpretation.",
["inputs"],"every block and requested Rust type","A finite sample of types and values is tested.",
["src/types/column/iter/*.rs","src/types/from_sql.rs"],[("typed iterators","src/types/column/iter")])
p("C17","Decimal arithmetic and conversions are exact",
"Construction, comparison, scaling and arithmetic of Decimal values give the mathematically exact result at the stated scale, or fail.",
["inputs"],"every pair of decimals and scales","A finite sample of values is tested.",
["src/types/decimal.rs"],[("Decimal","src/types/decimal.rs")])
p("C18","Malformed option URLs are rejected with the offending parameter named",
"A connection URL with an unparsable value of a known parameter or with an unsupported scheme is rejected with an error that names the parameter and value; a parameter that is not known is kept as a server setting. Nothing is silently ignored.",
["inputs"],"every URL string","A finite sample of URLs is tested.",
["src/types/options.rs"],[("set_params/from_url","src/types/options.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
