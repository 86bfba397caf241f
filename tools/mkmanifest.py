"""writes /verif/MANIFEST.json"""
import json
import re
import sys
sys.path.insert(0, '/verif/govc')
TECH = 'contract-based deductive verification: contracts on the exported functions, obligations generated from the go/ssa form of the current source by symbolic execution with inductive loop rules, discharged by z3'
NOTE = {
 'C01': 'proof for all keys, values, flags, expirations, CAS tokens and deltas of every operation of the three clients; multi-get for batches of 1..3 keys (labelled bounded; 1..5 thorough), flush and exclusive prefix for every batch size. Trusts the library contracts listed in the evidence.',
 'C02': 'proof for every hit and miss reply of Get (any value bytes and length, any flags, any CAS). Trusts the library contracts listed in the evidence.',
 'C03': 'proof for every value, flags and CAS and every hit/miss combination of batches of 1..3 keys (labelled bounded; 1..5 thorough).',
 'C04': 'proof over every reply line or status of the exact behaviours and, in the adversarial behaviours, every byte string and every failure point. One known finding (meta delete of a missing key).',
 'C05': 'proof: after the operation, exactly the reply has been consumed, for every complete well-formed reply; multi-get for batches of 1..3 keys (labelled bounded).',
 'C06': 'proof over arbitrary reply bytes, any length, end of stream and I/O failure anywhere, multi-get with any number of keys (inductive loop rule).',
 'C07': 'proof of the frame: no reachable path of any operation stores into memory of the caller (including spare capacity), no result aliases memory the client keeps.',
 'C09': 'proof: Pick on every sorted ring of any length and every key (inductive loop rule over the binary search); NewRing (points, order, frame) and Find for 1..3 servers with arbitrary names (bounded in the number of servers), consequences (order independence, minimal movement) as z3 lemmas over those contracts. Assumes sha1, crc32 and sort as in the library contracts; hash collisions of names are not assumed away.',
 'C10': 'proof for every key, item, argument and every combination of server answers against the contracts of Ring.Pick and Find (modular) for single-key operations; multi-get for 0..3 keys, and flush, version, close for 1..3 servers (bounded).',
 'C11': 'proof for every key, item, argument and every combination of server answers against the contracts of Ring.Pick and Find (modular); multi-get for 0..3 keys (bounded).',
 'C12': 'proof for all keys, values, flags, expirations, deltas and CAS tokens of every supported command of the three protocols, each followed by a second request on the same connection; text get and gets for 1..3 keys (bounded), ms with every order of up to its flags (quick: a few orders). Excluded: noreply, binary flush with extras, ms flags q and M, text cas.',
 'C13': 'proof over arbitrary bytes of any length from the client, any chunking, end of stream and failure anywhere, any answer of the handler, any number of requests (inductive: the states at the handler boundary and at every loop head are generalised and shown to be closed).',
 'C14': 'proof for all contents of the request and of the answer of the handler (item, miss, success, errors of every status, unexpected error, refusal) in the three protocols; text get and gets with 0..3 answered items (bounded).',
 'C15': 'proof for all contents of the request and of the answers of the pool, against the contracts of the replica pool (modular); multi-get answers of 0..2 items (bounded), any number of keys.',
 'C16': 'proof: deadlines for every operation, any timeout; every operation after seven closed and after five reconnect histories (with left-over bytes and write errors of the old connection), with the contracts of C01-C06 for the operation that follows; heartbeat: inductive over ticks where the state is closed, otherwise 6 ticks (bounded), with Close interleaved at the waits and during the probe. Close concurrent with an operation: C18 (no race, no panic).',
 'C17': 'proof over arbitrary bytes of any length from the server, end of stream and failure anywhere, any number of keys: every read and write happens under a deadline of at most the timeout that was set in this operation; every loop has a decreasing measure; no loop whose number of rounds the peer decides on sets a new deadline, sleeps or dials; the lock is released. That a read or write returns when its deadline passes, and that a decreasing measure means bounded time, is the contract of net and of the processor (trusted). Reconnect and the dialing of a constructor are not operations under the timeout.',
 'C08': 'proof by ghost obligations on every exchange with the connection, on every path: lock held, one span, released on every way out, connection read under the lock. Races on the fields of the client: C18.',
 'C18': 'proof, lockset discipline: every access of every operation, Close, Reconnect, Name and the heartbeat to memory reachable from the client is recorded with the locks held, on every path (any reply bytes, any failure, any number of keys); one obligation per memory location: for every two accesses that may run concurrently, one of them a write, a common lock is held (or both are atomic). No-panic obligations with a whole Close taking place at every synchronisation point of every operation (adequate for lock-disciplined programs: between synchronisation points the methods do not see each other). A refuted obligation is replayed under the race detector. Locations initialised in the constructor before the client is shared are exempt. net.Conn and sync.Pool are trusted to be safe for concurrent use.',
}
NA = {}


def main(claimed):
    props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': './check --setup',
         'checks': [{'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --thorough' % p,
                     'technique': TECH, 'level': 'proof', 'level_note': NOTE[p]} for p in props if p in claimed],
         'not_applicable': [{'property': p, 'reason': NA.get(p, 'not yet claimed')} for p in props if p not in claimed],
         'notes': 'See DESIGN.md. No hooks in /repo: contracts live in /verif/contracts and are keyed by exported function.'}
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)


main(sys.argv[1].split(',') if len(sys.argv) > 1 else sorted(NOTE))
