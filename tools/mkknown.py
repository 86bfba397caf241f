"""writes /verif/known_findings.txt (run by hand)"""
import subprocess
P = {
 'd4bc714': ('C07', 'Set/Add/Replace wrote CRLF into the spare capacity behind item.Value'),
 '8a5b4b7': ('C04', 'text delete and touch returned success on unexpected replies'),
 'cb14624': ('C04', 'text add/replace reported every unexpected reply as exists / not found'),
 '35e4b30': ('C04', 'text cas on a missing key was an unclassified error'),
 '472e450': ('C04', 'error replies to version were returned as success'),
 '2c47e84': ('C06', 'text get: panics on short or negative VALUE lines, CAS token dropped (C02), replies confused with values (C03)'),
 '567229f': ('C06', 'panics on reply lines without a carriage return'),
 'cef127c': ('C06', 'meta get: panics on short or inconsistent replies; flags decoded wrongly (C02)'),
 '48a0aec': ('C03', 'meta multi-get stopped at the first miss and left replies unread (C05)'),
 'a4c1b36': ('C01', 'meta touch sent md with invalid flags, marking the item stale'),
 '4f7cd24': ('C06', 'meta set panicked on flags that are not four bytes'),
 '926c91c': ('C06', 'binary storage commands panicked on short flags'),
 '222fe21': ('C01', 'binary incr/decr kept CAS and opaque of an earlier request of the pooled header'),
 'c871997': ('C04', 'meta misses carrying the key were not recognised'),
 'bd1be3c': ('C06', 'binary: inconsistent lengths of a response panicked'),
 'e430a67': ('C05', 'binary: bodies of error responses were left unread, statuses ignored (C04)'),
 '2b37b21': ('C03', 'binary multi-get lost CAS tokens and left replies unread (C05)'),
 '41881ac': ('C04', 'binary not-found/exists statuses were unclassified errors'),
 'd81b384': ('C16', 'reconnect failed when the old connection was already closed'),
 'c426b30': ('C16', 'text client could not be closed again after a reconnect'),
 '649bb76': ('C16', 'Close of meta and binary clients did not stop the heartbeat'),
 '61cb787': ('C16', 'the heartbeat stopped probing after the first probe'),
 'b98e79a': ('C16', 'the heartbeat reconnected a client that was closed during a probe'),
 '4bab67e': ('C18', 'Close raced with operations, Reconnect and another Close (nil dereference, double close of the channel)'),
 '4e067ae': ('C09', 'ring: hash equal to a point was assigned to its predecessor; ties depended on the order of servers'),
 '384a8b0': ('C10', 'Close of the pool stopped at the first failing server'),
 '5bded3b': ('C11', 'the CAS token of the primary was sent to the secondary'),
 'c822d78': ('C13', 'server: negative lengths and empty flags of text/meta requests panicked'),
 'de88734': ('C13', 'server: inconsistent lengths of binary requests panicked'),
 'ed562bf': ('C12', 'server: flags above 2^31-1 were rejected'),
 'c91f57f': ('C12', 'server: 64-bit deltas and the expiration of touch were decoded wrongly'),
 '08aaa68': ('C12', 'server: CAS tokens of binary storage requests were dropped'),
 '7040621': ('C12', 'server: get with several keys used one key with spaces; gets replied without CAS (C14)'),
 'b5f0213': ('C14', 'server: meta get replies were malformed'),
 '121551e': ('C13', 'server: flags of a response that are not four bytes panicked'),
 '454f062': ('C14', 'server: misses and errors were unanswered or answered as success in text and meta'),
 'fa06140': ('C14', 'server: misses and errors were unanswered or malformed in binary'),
 '0748bae': ('C15', 'proxy: only the first key was answered; flags, CAS token and TTL were dropped'),
 'f9189d1': ('C15', 'proxy: flags of meta sets were dropped'),
}
out = ["""# Genuine defects of f110/go-memcached found by the checks.
# 'known:' lines suppress exactly the named obligation of the named unit and are printed as KNOWN-FINDING;
# 'fixed:' lines suppress nothing.
known: property=C04 unit=ServerWithMetaProtocol.Delete/not_found obligation="C04.ensures err == ItemNotFound" :: meta Delete of a missing key (reply NF) returns nil instead of the item-not-found error (the existing test TestReplicaPool_Add pins this)
"""]
for h, (p, t) in P.items():
    full = subprocess.run(['git', '-C', '/repo', 'rev-parse', h], stdout=subprocess.PIPE).stdout.decode().strip()
    out.append('fixed: property=%s %s %s\n' % (p, full[:12], t))
open('/verif/known_findings.txt', 'w').write(''.join(out))
