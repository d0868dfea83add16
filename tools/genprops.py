#!/usr/bin/env python3
# Source of properties.jsonl (kept as python only because it is easier to edit).
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=st,
      quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state,
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=obs,hook_needed=hook)))
S,C,I,H,CF,F="schedules","crash_points","inputs","histories","configurations","fault_sequences"
p("C01","Key commands are linearizable across connections and protocols",
 "Every reply to a key command (GET, SET, DEL, EXISTS, MGET per key, TOUCH, TTL, and their memcache, HTTP and Postgres forms) is the reply of one sequential key-value map in which each command takes effect atomically at one instant between the client sending it and receiving its reply, and commands of one connection take effect in the order sent. A read returns byte for byte the value and the flags of the latest write in that order, whichever protocol wrote it, and without expiry, eviction, flush or delete a stored key never disappears.",
 [S,H,CF],"all interleavings of server threads and connections, all operation histories, any number of event threads and shards, resizing maps",
 "The stable tests drive one HTTP request at a time; no two commands ever overlap, so an unlocked path, a lost wakeup or a wrong bucket move under concurrency is never observed.",
 ["src/pogocache.c","src/cmds.c","src/net.c","src/conn.c"],
 [("per-shard spinlock taken for the whole operation","pogocache.c ACQUIRE_FOR_KEY_AND_EXECUTE, lock()"),("robin-hood map insert/delete/resize","pogocache.c map_insert, delbkt, resize"),("one event thread owns a connection","net.c qthread")],
 [dict(name="shard->map",meaning="key to entry table",where="pogocache.c struct shard")],
 ["replies on client connections","pogocache_load/store/delete results"])
p("C02","Read-modify-write commands are atomic: no lost or duplicated update",
 "INCR/DECR/INCRBY/DECRBY (signed and unsigned), APPEND/PREPEND, SET NX/XX/GET, add and replace each read and update their key in one indivisible step, so concurrent increments sum up exactly, concurrent appends all appear exactly once, and exactly one of several concurrent SET NX (add) wins. Each reply is the value or outcome of that step, a rejected command (overflow, not a number, failed condition) changes nothing, and flags and expiry of the key survive increment and append.",
 [S,H],"all interleavings of conflicting read-modify-write commands over any protocols",
 "Atomicity only breaks when another thread runs between the read and the write; the tests run one client.",
 ["src/cmds.c","src/pogocache.c"],
 [("batch holds the shard lock over load+store","cmds.c execINCRDECR, cmdAPPEND; pogocache_begin/end"),("put-back of the old entry on failed conditions","pogocache.c storeop put_back")],
 [],["command replies","values read afterwards"])
p("C03","Compare-and-swap succeeds exactly when the entry is unchanged",
 "With CAS enabled, a CAS store succeeds if and only if the entry still exists and was not modified since its token was handed out; otherwise it reports the conflict or absence and changes nothing. Every modification (store, append, increment, delete and re-insert, expiry change) gives the entry a token different from every token it had before, while reads never change it; with CAS disabled a CAS store on an existing key never succeeds.",
 [S,H,CF],"all interleavings of gets/cas with other writers, CAS on and off",
 "A stale token accepted once needs a second writer between gets and cas; no stable test issues either.",
 ["src/pogocache.c","src/cmds.c","src/memcache.c"],
 [("per-shard cas counter","pogocache.c storeop/loadop shard->cas++"),("CAS test and put back","pogocache.c storeop casop")],
 [],["MGETS/gets replies","SET ... CAS / cas replies"])
p("C04","Expiry: never visible after its deadline, never lost before",
 "A key given a time to live (SET EX/PX/EXAT/PXAT, SETEX, EXPIRE, memcache exptime and touch, HTTP ttl) is visible to every command until its deadline and to none after it, whether or not background or requested sweeps run and whatever the wall clock does to relative deadlines. TTL/PTTL report the remaining time, KEEPTTL, increment and append keep the deadline, a plain SET removes it, and a sweep removes only expired keys.",
 [S,H,F],"all interleavings of access, sweep and clock advance around the deadline, wall-clock jumps, all expiry forms",
 "Tests never let simulated hours pass nor hit the instant of the deadline while a sweep or an overwrite is in flight.",
 ["src/pogocache.c","src/cmds.c","src/main.c","src/memcache.c","src/http.c"],
 [("alive test against the operation time","pogocache.c entry_alive_exp"),("sweep and autosweep","pogocache.c sweepop, main.c autosweepticker")],
 [dict(name="entry expires",meaning="absolute boot-clock deadline in ns, 0 = none",where="pogocache.c struct entry")],
 ["replies with the simulated clock"])
p("C05","SAVE then LOAD restores every entry exactly",
 "A successful SAVE (fast or not) writes a snapshot in which every key stored throughout the save appears once with a value, flags and remaining time to live it held at some instant during the save, and no key absent throughout appears. A successful LOAD or start-up load of it yields exactly those entries (minus those whose deadline, which keeps running in wall-clock time, passed), never alive past that deadline, and saving never disturbs the live data.",
 [S,H,CF],"all interleavings of SAVE/LOAD with writers, any number of threads, shards, entry sizes and down-times",
 "No stable test saves or loads at all, let alone while writers run.",
 ["src/save.c","src/cmds.c","src/pogocache.c","src/main.c"],
 [("per-shard iteration under the shard lock","save.c thsave"),("block queue with worker threads","save.c load, thload, load_block")],
 [],["snapshot file contents","reads after LOAD/restart"])
p("C06","A snapshot is replaced atomically or not at all",
 "Whatever instant the process is killed or the machine loses power, and whatever write, open or rename fails (disk full, I/O error, short write), the snapshot path afterwards holds either the complete previous snapshot or the complete new one. SAVE reports success only when the new one is in place, reports failure otherwise, leaves no work file behind after a failed or finished save, leftovers of a crash are removed at the next start, and the server keeps serving unharmed.",
 [C,F],"every crash point during a save, every sequence of I/O faults, concurrent saves",
 "Tests inject no I/O faults and no crashes.",
 ["src/save.c","src/main.c"],
 [("write to a work file then rename","save.c save"),("cleanwork at start-up","save.c cleanwork")],
 [],["durable file-system state after the crash","SAVE reply"])
p("C07","A damaged snapshot is refused, never loaded as wrong data",
 "If any byte of a snapshot is altered, or it is cut inside a block, or reading it fails, LOAD reports failure (and a server starting from it refuses to start) instead of reporting success. In no case does the server crash, hang or make visible an entry whose key, value or flags differ from one that was saved.",
 [I,F],"all byte positions and kinds of damage, all read errors and short reads, any number of loader threads",
 "No stable test loads a snapshot.",
 ["src/save.c","src/lz4.c","src/util.c"],
 [("block magic, lengths and CRC","save.c load"),("bounds-checked entry decoding","save.c load_block")],
 [],["LOAD reply","exit status at start-up","keys visible afterwards"])
p("C08","Graceful shutdown persists everything acknowledged",
 "When a server with a persistence path receives SIGTERM or SIGINT at any moment, it exits successfully within a bounded time and every write acknowledged before the signal (and not superseded or expired) is there after restart. If that final save fails the exit status says so and the previous snapshot is intact; a signal before start-up loading finished never overwrites the snapshot with partial data.",
 [S,C,F],"every instant of signal delivery relative to loading, writes, SAVE and connection activity; I/O faults in the final save",
 "The stable tests kill the server with SIGKILL and never restart it.",
 ["src/main.c","src/save.c"],
 [("sigterm flag and ticker thread","main.c sigterm, sigtermticker"),("loaded flag","main.c listening")],
 [],["exit status","state after restart"])
p("C09","Replies depend on the bytes sent, not on how they are segmented",
 "For every protocol, a connection's reply stream is determined by the request byte stream: splitting or coalescing the requests at any byte, pipelining them, delivering replies through short writes, or running a command in the background yields exactly one complete reply per command (none where the protocol asks for none), in request order, and no other bytes. Keys and values pass through unchanged whatever bytes they contain.",
 [S,I,F],"all segmentations of all pipelined command sequences, short reads and writes, background commands in the pipeline",
 "Tests send one whole request per packet on an idle loopback.",
 ["src/conn.c","src/parse.c","src/resp.c","src/memcache.c","src/http.c","src/postgres.c","src/net.c"],
 [("leftover packet buffering","conn.c evdata"),("output buffer flush","net.c flush_conn"),("bgwork detach/attach","net.c net_conn_bgwork, qattach")],
 [],["bytes received by clients"])
p("C10","Misbehaving clients harm only themselves",
 "Malformed input, an abrupt reset or half-close at any point, idle or oversized requests, or hitting the connection limit never crash the server, never corrupt or block another connection's data, and never leave anything behind: after the clients are gone the connection count returns to zero, every descriptor is closed and memory does not keep growing from one identical round to the next. Connections beyond the configured maximum are refused, those within it are served, and the totals of current, accepted and rejected connections are exact.",
 [S,F,I],"all instants of reset/close relative to request processing, all malformed byte strings, accept failures and descriptor exhaustion",
 "Tests use well-behaved clients only.",
 ["src/net.c","src/conn.c","src/parse.c","src/resp.c","src/memcache.c","src/http.c","src/postgres.c"],
 [("qaccept/qclose accounting","net.c nconns, tconns, rconns"),("closed flag checks","conn.c evdata")],
 [dict(name="nconns",meaning="open connections",where="net.c")],
 ["other connections' replies","STATS","simulated descriptor table","allocation balance"])
p("C11","No command runs on a connection that has not authenticated",
 "With an auth password configured, no command other than a correct authentication has any effect or reveals any data on a connection (RESP, memcache, Postgres) or request (HTTP) that has not presented exactly that password, regardless of segmentation, pipelining, protocol, failed attempts or what other connections did. After a correct authentication that connection stays authorised until it closes, and no other connection, including one reusing its descriptor, gains anything.",
 [S,H,I],"all sequences of attempts and commands on any number of interleaved connections and protocols",
 "No stable test configures a password.",
 ["src/cmds.c","src/conn.c","src/http.c","src/postgres.c"],
 [("gate in front of command dispatch","cmds.c evcommand"),("HTTP token check","http.c"),("Postgres password message","postgres.c")],
 [dict(name="conn->auth",meaning="connection is authorised",where="conn.c")],
 ["replies to unauthenticated connections","effects seen by an authenticated one"])
p("C12","Memory pressure evicts when allowed, refuses when not, and stops after",
 "While memory use is above the configured limit and eviction is enabled, inserts succeed, each new key is readable at once, and the number of stored entries no longer grows; with eviction disabled, stores are refused with an out-of-memory error and no existing entry is lost or changed. Below the limit nothing is ever evicted or refused, and within a few seconds of crossing the limit in either direction the behaviour follows.",
 [S,F,CF],"all timings of the memory sampler relative to stores, all limit and eviction settings",
 "Tests never reach the memory limit.",
 ["src/main.c","src/pogocache.c","src/cmds.c"],
 [("low-memory flag from the memory ticker","main.c memticker"),("auto_evict_entry and nomem path","pogocache.c storeop")],
 [dict(name="lowmem",meaning="memory limit exceeded",where="main.c")],
 ["replies, key counts under simulated memory use"])
p("C13","An allocation failure leaves the embedded cache intact",
 "If any allocation inside an engine call fails, the call either completes normally or reports out-of-memory and leaves every entry, count and size exactly as before; it never crashes, loses or duplicates an entry, calls back for a change that did not happen, or leaks. Later calls work normally, and creating a cache that cannot be allocated returns nothing and leaks nothing.",
 [F,H],"every allocation failing, in every operation, in any sequence, with other threads running",
 "The allocator never fails in the tests.",
 ["src/pogocache.c"],
 [("nomem paths","pogocache.c storeop, loadop, map_insert, resize, clearop, pogocache_new")],
 [],["embedding API results","allocation ledger"])
p("C14","A batch is isolated, and never deadlocks with itself",
 "Between begin and end of a batch the caller sees only its own changes to the keys it has touched, and no other thread can observe or change those keys until end; batches commit in an order consistent with some sequential execution when they touch the same keys. Every engine operation, including multi-shard scans, counts, sweeps and clears, may be used on a batch without self-deadlock or corruption, and after end all locks are free again. (Batches of several threads that take the same keys in different orders may wait for each other; a single batch, or batches that take them in one order, always finish.)",
 [S,H],"all interleavings of batches and single operations over shared shards",
 "No test uses batches from several threads.",
 ["src/pogocache.c"],
 [("batch-owned shard locks","pogocache.c lock, pogocache_begin, pogocache_end")],
 [dict(name="shard->lock",meaning="0, a batch or 1",where="pogocache.c")],
 ["embedding API results under a controlled scheduler"])
p("C15","Notifications account for every change exactly once",
 "The notify and evicted callbacks replay to the cache: applying every notification in order to an empty map gives exactly the live contents at all times, each insert, replace, delete, expiry, low-memory eviction and clear is reported once with the right key, values and reason, and an operation that changes nothing reports nothing. Both entries handed to notify carry the right key, and may be retained.",
 [S,H,F],"all operation histories from several threads, with allocation failures",
 "No test installs callbacks.",
 ["src/pogocache.c"],
 [("notify()","pogocache.c notify, evict_entry, auto_evict_entry, clearop")],
 [],["callback stream versus contents"])
p("C16","Enumeration shows each key once, misses none, invents none",
 "KEYS and engine iteration list every key that exists (and matches the pattern) for the whole duration, never list a key that did not exist at any time during it, and never list a key twice; a full SCAN or cursor walk never returns a key that was never stored or that does not match, always terminates, and with no concurrent changes lists each key exactly once for any COUNT. Deleting entries or meeting expired ones during iteration does not skip or repeat others, and a cursor of any value is harmless. In a pattern `*` stands for any run of characters, `?` for any one, and a backslash makes the next character literal.",
 [S,H,I],"all interleavings of enumeration with inserts, deletes, expiry and map resizes; all cursors and counts",
 "No stable test enumerates.",
 ["src/pogocache.c","src/cmds.c"],
 [("iterop, entryiter","pogocache.c"),("KEYS in the background, SCAN in the foreground","cmds.c")],
 [],["KEYS/SCAN replies","iteration callbacks"])
p("C17","Flush removes everything before it, and nothing after it",
 "When FLUSHALL/FLUSHDB/flush_all replies (SYNC, FAST or not), every key stored before it began is gone, and every key stored after the reply stays; ASYNC and delayed flushes are carried out once, not before their delay and within a bounded time after. A flush never removes keys stored after it finished, and concurrent flushes, sweeps, saves and writers leave the cache consistent.",
 [S,H,F],"all interleavings of flush variants with writers, thread-creation failures",
 "No stable test flushes.",
 ["src/cmds.c","src/pogocache.c"],
 [("clearop per shard","pogocache.c"),("flush threads","cmds.c flush_work, flushfast, thflush0")],
 [],["reads after the reply"])
p("C18","Counts, sizes and statistics are exact when at rest",
 "With no command in flight, DBSIZE and curr_items equal the number of stored entries, the size accounting equals the sum over the stored entries (and zero when empty), and total_items and the hit, miss, command, touch, delete, increment and auth counters equal what the acknowledged commands add up to. No history of updates, deletes, expirations, evictions, iterations or flushes makes them drift.",
 [S,H],"all histories and interleavings, then quiescence",
 "No stable test reads a counter after concurrent work.",
 ["src/pogocache.c","src/stats.c","src/net.c","src/cmds.c"],
 [("map->entsize, map->count, map->total","pogocache.c"),("per-thread counter aggregation","net.c sumstats")],
 [],["STATS, DBSIZE, pogocache_count/size/total"])
p("C19","The server makes progress once faults stop",
 "Once injected faults stop, every connected client that keeps reading gets each of its replies within a bounded time, new connections are accepted, and background commands finish: no lock, lost wakeup, failed thread creation, failed accept, stalled peer or abandoned background job blocks the service or another client forever. While some peer stalls, resets or half-closes, the server's threads keep serving clients of other event threads. No value, however large, and no pattern makes the work of a request grow out of proportion to the data it concerns.",
 [S,F],"all schedules and fault sequences that eventually stop, with stalled peers and failed thread creation",
 "Tests run without faults, so nothing ever has to recover.",
 ["src/net.c","src/cmds.c","src/save.c","src/pogocache.c"],
 [("level-triggered event loop","net.c qthread"),("fallbacks when threads cannot be created","cmds.c flushfast/sweepfast, save.c, net.c net_conn_bgwork")],
 [],["completion of every outstanding request in simulated time"])
p("C20","Entries are reclaimed exactly once, and never while in use",
 "A retained entry keeps its key and value readable and unchanged until released, whatever concurrent deletes, overwrites, expiry, eviction, flush or iteration do; after the last release it is freed exactly once. Destroying a cache, or emptying it, returns every byte it allocated for entries, and no operation reads or writes freed memory.",
 [S,H,F],"all interleavings of retain/release with removal, all histories, with allocation failures",
 "Memory lifetime bugs need a removal between lookup and use, from another thread.",
 ["src/pogocache.c"],
 [("atomic reference count","pogocache.c pogocache_entry_retain/release, entry_free"),("deferred free in clear","pogocache.c clearop")],
 [dict(name="entry rc",meaning="references beyond the map's",where="pogocache.c struct entry")],
 ["address sanitizer under the controlled scheduler","allocation ledger"])
p("C21","MONITOR delivers every executed command, whole and in order",
 "While a MONITOR connection is open it receives one line for every command executed (other than AUTH and unknown ones), with its arguments escaped losslessly and the issuing address, commands of one connection in their order, and no torn or foreign bytes; it never slows to a stop or crashes the other clients. Opening, closing or resetting monitors at any time neither loses commands for other monitors nor affects ordinary connections.",
 [S,F,H],"all interleavings of monitors starting, stopping, resetting with running commands",
 "No stable test opens a monitor.",
 ["src/monitor.c","src/cmds.c","src/net.c"],
 [("monitor list under a lock","monitor.c"),("blocking reader thread","cmds.c monitor_work")],
 [],["bytes received by monitor connections"])
p("C22","TLS and io_uring transports carry the same behaviour",
 "Every other property holds unchanged when the connection is encrypted (TLS port) or the event loop uses io_uring.",
 [S,CF],"all schedules on the TLS and io_uring builds",
 "The build under test contains neither.",
 ["src/tls.c","src/uring.c","src/net.c"],
 [("tls_read/tls_write","tls.c"),("uring batches","net.c qread/qwrite")],
 [],["client replies"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch); assert len(x["title"])<=80,x["title"]
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
