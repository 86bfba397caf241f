import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
      **({'observe_at':observe} if observe else {}),hook_needed=hook)))
CS='client/server.go'
p('C01','Client requests are encoded exactly and sent before waiting',
 'For every operation (get, multi-get, set, cas-set, add, replace, delete, increment, decrement, touch, flush, version) in the text, meta and binary protocols, and for every valid key (1-250 bytes, no whitespace or control bytes), value, flags (absent or four bytes), expiration, CAS token and delta, the bytes put on the connection are exactly one well-formed memcached request (for multi-get: the batch) that encodes precisely these arguments, independent of any earlier operation on the connection. Nothing else is sent, and the whole request has been flushed before the client waits for the reply.',
 ['inputs','histories'],'all argument values and all operations previously executed on the same connection (including what they left in recycled header buffers)',
 'The tests send a handful of fixed keys and small values; lengths, flags with the top bit set, CAS tokens left in pooled headers and unusual deltas are never reached.',
 [CS,'client/client.go'],[('request formatting and header encoding','client/server.go: Get/Set/.../EncodeTo'),('binary header fields of an item','client/client.go: marshalBinaryRequestHeader')],
 [('request header pool','recycled header objects, arbitrary old contents','client/server.go: reqHeaderPool')],['bytes written to the connection'])
p('C02','Get returns exactly the item in the server reply',
 'For every well-formed hit reply, Get in the text, meta and binary protocols succeeds and returns an item whose key is the key of the reply, whose value is the exact value bytes (any bytes, any length), whose flags are the 32-bit flags of the reply in big-endian order, and whose CAS token is the one the server sent; the meta protocol also returns the remaining time to live, with "no expiry" represented so that storing the item again does not make it expire. A miss reply yields the item-not-found error and no item.',
 ['inputs'],'all keys, values (including values that look like protocol text), 32-bit flags, 64-bit CAS tokens and TTLs a server can send',
 'Tests use one short ASCII key and value per protocol, flags 0 and small CAS tokens.',
 [CS],[('reply parsing','client/server.go: Get, parseGetResponse, readGetFlagToken, binaryResponseHeader.Read')],None,['returned Item'])
p('C03','Multi-get returns every hit once, in order, and skips misses',
 'For every list of keys and every combination of hits and misses in the reply, a multi-get in the text, meta and binary protocols returns exactly one item per hit, in reply order, each with the key, value, flags and CAS token the server sent for it, and none for misses. The complete batch of replies, up to and including the end marker, is consumed.',
 ['inputs','histories'],'all key lists of any length and all hit/miss patterns',
 'The tests only multi-get two or three keys that all exist; a miss inside the batch is never exercised.',
 [CS],[('multi-get reply loop','client/server.go: GetMulti, parseGetResponse')],None,['returned items','bytes left unread on the connection'])
p('C04','Operation outcomes report what the server said',
 'An operation returns success only if the server replied with the success reply of that operation; item-not-found and item-exists are returned exactly when the server reported that condition (for storage, a failed condition), and the number returned by increment and decrement is the number in the reply. Every other reply - protocol error lines, error statuses, unexpected text - and every connection failure while sending or receiving yields a non-nil error, and never success or a false not-found/exists.',
 ['inputs','fault_sequences'],'all reply lines and statuses a server can send to each operation in each protocol, and a connection failure at any write, flush or read',
 'Tests only see STORED/HD/status 0 and one not-found and one exists case; error lines and connection failures are not injected.',
 [CS,'errors/errors.go'],[('reply classification','client/server.go: every operation after the read of the reply'),('error values','errors/errors.go: ItemNotFound, ItemExists')],None,['returned error'])
p('C05','Each operation consumes exactly its own reply',
 'Whenever a server answers an operation with a complete well-formed reply - success, miss, or any server-reported error, with or without a body - the client consumes exactly the bytes of that reply, so that the next operation on the connection reads its own reply and never bytes of an earlier one.',
 ['inputs','histories'],'all operations, all reply kinds (including binary error statuses with message bodies and misses inside a batch) and all sequences of operations on one connection',
 'Tests close the connection right after provoking an error, so leftover reply bytes are never noticed.',
 [CS],[('body of binary replies','client/server.go: io.ReadFull after resHeader.Read'),('line replies','client/server.go: ReadSlice')],None,['bytes left unread on the connection after each call'])
p('C06','No server reply can make the client panic',
 'Whatever bytes a server sends in reply to any operation of the text, meta or binary client - truncated or overlong lines, missing fields, negative or inconsistent lengths, wrong magic or opcode - and wherever the connection fails, the operation returns to its caller with a result or an error; it never panics.',
 ['inputs','fault_sequences'],'all byte sequences sent by the server, cut off at any point',
 'No test sends malformed replies.',
 [CS],[('bounds of slices and allocations derived from replies','client/server.go: parseGetResponse, incrOrDecr, Get, GetMulti')],None,['panics'])
p('C07','Caller data is never modified and results stay stable',
 'No client operation modifies the item, its value or flags bytes, spare capacity behind those slices, or the key list passed by the caller. Items returned by an operation are unaffected by later operations on the same connection.',
 ['inputs','histories'],'all items, including values and flags that are sub-slices of larger buffers, and all later operations',
 'Tests pass literals with no spare capacity and look at results immediately.',
 [CS,'client/client.go'],[('writing of value and trailer','client/server.go: Set/Add/Replace'),('copying out of the read buffer','client/server.go: Get/GetMulti')],None,['caller-owned memory before and after'])
p('C08','Operations on one connection exclude each other',
 'Every operation that exchanges bytes with the server, and reconnecting, holds exclusive access to the connection from before its first byte of request until after its last byte of reply, in one uninterrupted span, so concurrent operations never interleave requests or read one another\'s replies. On every way out, including errors, the exclusive access is released, and no operation tries to acquire it twice.',
 ['schedules','fault_sequences'],'all interleavings of concurrent operations on one client connection and all error paths',
 'All tests are single-threaded per connection.',
 [CS],[('mutex held over the whole exchange','client/server.go: s.mu.Lock / defer s.mu.Unlock')],[('mu','guards conn, raw','client/server.go: ServerWith*Protocol')],['order of connection reads and writes'])
p('C09','Key placement is a consistent hash of key and server set',
 'For every non-empty set of distinctly named servers, a key is assigned to the server owning the ring point (200 points per server, derived from the server name) with the greatest position not above the hash of the key, or the lowest point when there is none. The assignment depends only on the key and the set of servers, not on the order in which they are listed; adding a server moves keys only to that new server, and looking up a server by name returns the server with that name.',
 ['inputs','configurations'],'all keys, all server sets and listing orders, including exact hits and colliding ring points',
 'The test checks two keys on a four-point ring and a single server.',
 ['client/ring.go'],[('ring construction and sorting','client/ring.go: NewRing'),('binary search','client/ring.go: Pick')],[('nodes','sorted ring points','client/ring.go: Ring')],['Server returned by Pick/Find'])
p('C10','The pool routes every operation to the owning server only',
 'Each single-key operation of the pool performs exactly that operation, with unchanged arguments, once, on the server that owns the key, and returns its result unchanged. A pool multi-get asks each owning server exactly once for exactly the keys it owns and returns all the items obtained, or an error if any server fails. Flush, version and close reach the servers of the pool through one call each, version maps each server name to its version, close reaches every server even when one fails, and a failure is reported.',
 ['inputs','configurations','fault_sequences'],'all keys, key lists, server sets and failing servers',
 'Tests use a pool with a single server.',
 ['client/client.go','client/ring.go'],[('routing','client/client.go: SinglePool methods'),('fan-out','client/ring.go: Each, Close')],None,['calls received by each server'])
p('C11','Replica pool applies writes to primary, then mirrors to secondary',
 'Every write of the replica pool is applied first to the primary owner of the key; if that fails, its error is returned and the secondary is left untouched. Otherwise the same key, value, flags and expiration are stored unconditionally (without the primary\'s CAS token) on the secondary owner - after increment or decrement, the value, flags and remaining expiration read back from the primary - and deletes are applied to both; the secondary\'s failure is reported. Reads (get, multi-get) are served by the primary owners only.',
 ['inputs','fault_sequences'],'all items, keys and failures of either replica',
 'Tests use one primary and one secondary that never fail and no CAS tokens.',
 ['cluster/cluster.go'],[('replicated writes','cluster/cluster.go: Set/Add/Replace/Delete/Increment/Decrement'),('reads','cluster/cluster.go: Get/GetMulti')],None,['calls received by primary and secondary servers'])
p('C12','The server decodes every valid request faithfully',
 'For every valid request of the supported commands in text (get, gets, set, add, replace, delete, incr, decr, touch, flush_all, version), meta (mg, ms, md) and binary (get, getkq, set, add, replace, delete, increment, decrement, touch, noop, version, flush) form, the handler is called exactly once with a request carrying exactly the operation, key or keys, value bytes, 32-bit flags, expiration, delta and CAS token that the bytes encode. Requests arriving back to back on one connection are decoded one after the other without losing or mixing bytes.',
 ['inputs','histories'],'all keys, key lists, values, 32-bit flags, lengths, expirations, deltas, CAS tokens and request sequences',
 'One request per command with small arguments is tested.',
 ['server/server.go'],[('request parsing','server/server.go: readAsciiRequest, readBinaryRequest, detectProtocol')],None,['Request seen by the Handler'])
p('C13','No client can crash the server',
 'Whatever bytes a client sends on its connection - negative or inconsistent lengths, missing or empty fields, short extras, unknown commands, truncated requests - the server process does not panic: the request is handed to the handler, or the connection is closed. A connection that fails or ends is closed and no longer read.',
 ['inputs','fault_sequences'],'all byte sequences sent by a client, cut off at any point',
 'No test sends malformed requests; a panic in a connection goroutine ends the whole process.',
 ['server/server.go'],[('length validation','server/server.go: readAsciiRequest, readBinaryRequest'),('connection loop','server/server.go: serve')],None,['panics in connection goroutines'])
p('C14','The server answers each request with one correct reply',
 'For every handler result the server writes, and flushes before reading on, exactly one reply in the protocol and format of the request: found items with key, flags, exact value and length, a miss as the protocol\'s miss reply, success as the command\'s success reply, and an error result as an error reply (status in binary) - never silence where the client waits and never a success form for an error.',
 ['inputs'],'all requests and all handler results (keys, values, flags, CAS, TTL, errors)',
 'Tests use success results with empty or tiny values; error results are never returned by the test handler.',
 ['server/server.go'],[('response writing','server/server.go: writeAsciiResponse, writeAsciiResponseMetaGet, writeBinaryResponse, writeAsBinaryProtocol')],None,['bytes written to the client connection'])
p('C15','The replica proxy translates requests and results faithfully',
 'A get handled by the replica proxy returns, for each requested key, the key, value, flags, CAS token and remaining time to live that the pool returned; a set stores exactly the key, value, flags, expiration and CAS token of the request, whichever protocol it came in. Not-found and exists errors of the pool are handed back as the error of that response, other pool failures as a failure of the request, and unsupported operations are refused without touching the pool.',
 ['inputs','fault_sequences'],'all requests and all pool results and failures',
 'The proxy package has no tests.',
 ['proxy/replica_pool.go','cluster/cluster.go'],[('request translation','proxy/replica_pool.go: ServeRequest')],None,['calls made on the pool\'s servers','responses returned'])
p('C16','Timeouts, close and reconnect take effect on every operation',
 'When a timeout is configured, every operation sets the read and write deadline of its connection before its first byte is exchanged. After Close, operations return an error without panicking and the heartbeat stops; a successful Reconnect, also after Close or an earlier failed Reconnect, leaves a client that talks only to the new connection with no bytes of the old one, and the heartbeat keeps probing at its interval, reconnecting or closing on failure as configured.',
 ['inputs','histories','fault_sequences'],'all timeouts, all sequences of operations, close, reconnect and dial failures',
 'The tests reconnect once after a restart, never after Close or a failed dial, and never run the heartbeat.',
 [CS],[('deadlines','client/server.go: SetWriteDeadline/SetReadDeadline'),('lifecycle','client/server.go: Close, Reconnect, heartbeat')],None,['deadline calls','connection used after reconnect','heartbeat probes'])
p('C17','Operations terminate within the configured timeout',
 'With a timeout configured, every client operation returns within a bounded time after that timeout, whatever the server does.',
 ['schedules','fault_sequences'],'all server delays and stalls',
 'Tests have no slow servers.',
 [CS],[('deadlines','client/server.go: SetWriteDeadline/SetReadDeadline')],None,['wall-clock duration of calls'])
p('C18','Close may race with operations without data races',
 'Calling Close concurrently with operations, reconnects, another Close or the heartbeat on the same client causes no data race and no panic; nor do operations and reconnects running concurrently with each other.',
 ['schedules'],'all interleavings of Close with other calls, and of operations and reconnects with each other',
 'Tests are single-threaded per connection.',
 [CS],[('Close','client/server.go: Close')],None,['race detector, panics'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
