#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe)))
MC='internal/queue/cache/memory_cache.go'; RC='internal/queue/cache/redis_cache.go'; RS='internal/queue/cache/redis_cache_scripts.go'
MS='internal/queue/storage/memory_storage.go'; MG='internal/queue/storage/mongo_storage.go'
Q='internal/queue/queue.go'; HK='internal/queue/queue_housekeeper.go'; SV='internal/service/deckard_service.go'
SC='internal/queue/score/score.go'; CF='internal/config/viper_config.go'; AU='internal/audit/audit.go'
MN='internal/cmd/deckard/main.go'; SH='internal/shutdown/shutdown.go'; QC='internal/queue/queue_configuration_service.go'
MSG='internal/queue/message/message.go'; DT='internal/dtime/deckard_time.go'

p('C01','A pulled message is delivered to one consumer at a time',
 'Once a pull has returned a message, no other pull returns that message until it was acked or nacked (and, if locked, its lock has elapsed), its ack deadline has passed, or it was removed and added again, as long as the cache keeps its data. This holds for every sequence of client calls and background tasks on every cache engine, and when pulls run concurrently.',
 ['histories','schedules'],'All call sequences up to a depth and all interleavings of concurrent pulls (bounded preemptions).',
 'The suites pull from hand-made queues a few times; double delivery needs a particular sequence of pulls, acks, re-adds, timeouts and unlocks, or a particular interleaving.',
 [MC,RC,RS,Q],[('pull moves entries from the available set to the processing set in one critical section / script',MC+':PullMessages, '+RS+':pullElementsScript'),('insert skips ids present in any pool',MC+':Insert, '+RS+':addElementsScript')],
 ['Pull responses'])
p('C02','A message is in one delivery state; ack and nack act exactly once',
 'A queued message is always in exactly one of the states available, being processed, locked after ack, locked after nack. An ack or nack reports success exactly when the message is being processed and then moves it once; a duplicate, late or unknown ack or nack reports failure and does not change when or whether any message is delivered.',
 ['histories'],'All sequences of add, pull, ack, nack, lock, unlock, timeout and remove up to a depth, over all cache engines.',
 'Tests check single transitions; a message left in two pools or lost between them needs a sequence of several transitions and shows up only later.',
 [MC,RC,RS,Q],[('move between pools only when removed from the processing pool',MC+':MakeAvailable,LockMessage, '+RS+':moveElementScript,lockElementScript')],
 ['Ack/Nack responses','Pull responses','pool membership reported by the cache'])
p('C03','Unacknowledged messages return after their ack deadline, not before',
 'A pulled message that is neither acked nor nacked becomes available again at the first timeout sweep after its ack deadline (the requested number of milliseconds, 300000 if none was requested), with the highest priority, and never before that deadline. One sweep returns every overdue message of every queue (up to its batch limit) and touches no other message.',
 ['histories','inputs'],'All sequences of pulls with different deadlines, clock advances around every deadline, and sweeps, up to a depth.',
 'Deadlines are exercised with one or two messages and real sleeps of about a second; boundaries, several overdue messages and mixed deadlines are not sampled.',
 [MC,RC,RS,Q,HK],[('deadline stored with the processing entry',MC+':PullMessages, '+RC+':PullMessages'),('sweep',MC+':TimeoutMessages, '+RS+':moveFilteredElementsScript, '+HK+':ProcessTimeoutMessages')],
 ['Pull responses after sweeps','ids returned by the sweep'])
p('C04','Pull returns the lowest-score available messages within the filter',
 'A pull returns exactly the requested number of available messages (default 1, at most 1000), or all that match if fewer do, choosing those with the lowest scores within the inclusive minimum and maximum score given, returns them in ascending score order, and leaves every other message available with its score unchanged. The deprecated relative filter means a maximum score of now minus its value and applies only when no maximum score is given.',
 ['inputs','histories'],'All small queues over a score alphabet with ties and bounds, all amounts, all filter combinations, and all sequences up to a depth.',
 'Tests use a few fixed score sets and filters; wrong results need a particular mix of filtered-out entries, ties, amount and earlier pulls.',
 [MC,RC,RS,SV,SC,Q],[('ordered set and range selection',MC+':insertEntry,PullMessages, '+RS+':pullElementsScript'),('request normalisation',SV+':Pull, '+SC)],
 ['Pull responses'])
p('C05','Locked messages stay hidden for their lock time, then return as requested',
 'A message acked or nacked with a lock time is not delivered before that time has elapsed; the first unlock sweep after it makes it available with the requested score, or, if none was requested, with the current timestamp after an ack and the minimum score after a nack. A sweep releases every elapsed lock of the queues and lock kind it was asked for and no other lock, and reports each released message under its own queue.',
 ['histories','inputs'],'All sequences of pull, ack/nack with lock and score choices, clock advances around every lock end, and sweeps, over several queues, up to a depth.',
 'Tests lock one or two messages of one queue and sleep; several locks due together, two queues, re-lock after unlock and stale lock scores are not covered.',
 [MC,RC,RS,HK,SV],[('lock pools with release time and score',MC+':LockMessage,UnlockMessages, '+RS+':lockElementScript,unlockElementsScript')],
 ['Pull responses after sweeps','ids returned by the unlock sweep','audit signals'])
p('C06','Scores are normalised as documented for every request value',
 'Scores given on add, ack and nack are honoured, with negative values becoming 0 and values above 9007199254740992 becoming that maximum; a zero score means the current timestamp in milliseconds on add and ack (less the deprecated subtract value, clamped) and 0 on nack. Every score Deckard stores in the queue or reports to clients lies between 0 and 9007199254740992, and pull filters are clamped to the same range.',
 ['inputs'],'Every combination of call kind, lock/no lock and a boundary lattice of score and subtract values.',
 'Unit tests check a handful of values on the helper functions and mostly mock the layers below.',
 [SC,SV,Q],[('normalisation helpers',SC),('ack/nack score choice',SV+':Ack,Nack')],
 ['Pull and GetById responses','order of later pulls'])
p('C07','Add is a faithful upsert on every storage engine',
 'Adding messages stores each exactly once per queue and id and reports how many were created and how many already existed; what a client provided (payload, string payload, metadata, description) is what pull and get-by-id return. Adding an existing message replaces its content and expiry but keeps its score, diagnostics, breakpoint and delivery state, and an invalid message in a request leaves nothing of that request stored.',
 ['histories','inputs'],'All add/pull/ack histories up to a depth over content, score and batch alphabets, including duplicates inside one request and empty ids or queues.',
 'Tests insert then read once; interactions of re-add with processing, locked and acked messages and with mixed valid/invalid batches are combinatorial.',
 [MS,MG,Q,SV,MC,RS],[('upsert with set-on-insert',MS+':Insert, '+MG+':Insert'),('cache insert skips known ids',MC+':Insert, '+RS+':addElementsScript')],
 ['Add counts','Pull and GetById responses'])
p('C08','Queues and message ids never interfere with each other',
 'Operations on one queue and id never create, change, hide, deliver, time out, unlock, count or remove a message of another queue or another id, whatever characters the names contain. This includes names containing the separators, suffixes and pattern characters the storage and cache engines use internally.',
 ['inputs','histories'],'All pairs of (queue, id) from an adversarial name alphabet and all operations on one of them, on all engines.',
 'Tests use a few benign queue names, never pairs built so that composed keys collide.',
 [MS,MG,MC,RC,SV],[('document key of queue and id',MS+':getKey'),('redis key layout with hash tag',RC+':activePool,processingPool,lockPool'),('brace rejection',RC+':validateQueueName')],
 ['responses for the other queue/id before and after'])
p('C09','Diagnostics and breakpoint follow the history of acks and nacks',
 'The diagnostics delivered with a message are exactly the total acks, total nacks, acks since the last nack and nacks since the last ack of that message, where every ack or nack request made while the message was stored counts (late and duplicate ones, too), whatever happens in between (re-adds, locks, timeouts, recovery of the cache). The breakpoint delivered is the one of the latest ack.',
 ['histories'],'All sequences of add, pull, ack, nack, lock and timeout up to a depth, on both storage engines.',
 'Tests ack or nack once or twice on one engine; resets and interplay with re-adds need longer histories.',
 [MS,MG,SV],[('counters',MS+':Ack,Nack, '+MG+':Ack,Nack'),('mapping to the response',SV+':getMessageDiagnostic')],
 ['Pull and GetById responses'])
p('C10','A removed message is gone and never delivered again',
 'After a successful remove, or an ack or nack asking for removal, the message is not stored, not counted and never returned again, whatever state it was in (available, processing, locked) and whatever sweeps run later; other messages stay as they were. The reported counts are the number of stored messages and of cached messages removed (on Redis, a locked message with a requested score may count twice in the latter), and a message added again later starts afresh.',
 ['histories'],'All sequences of adds, pulls, locks, sweeps, removes with id lists (present, absent, repeated) and re-adds up to a depth.',
 'Tests remove from each state once; residues (a lock score, a second pool entry) show only after later re-adds and sweeps.',
 [MS,MG,MC,RC,RS,Q,SV],[('remove from storage then from every pool',Q+':Remove, '+MC+':Remove, '+RS+':removeElementScript')],
 ['Remove responses','Pull, Count and GetById afterwards'])
p('C11','Expired messages are removed, unexpired and timeless ones never are',
 'A TTL sweep at time T removes from storage and cache exactly the messages whose expiry is at or before T (up to its batch limit), in whatever delivery state they are; messages not yet expired and messages added as timeless survive. Re-adding a message moves its expiry, and no sweep removes anything while a cache recovery is running.',
 ['histories','inputs'],'All sequences of adds with ttl choices, re-adds, pulls, clock advances around every expiry and sweeps, up to a depth.',
 'Tests sweep once over fixed data; boundaries, re-adds and processing/locked messages are not combined.',
 [MS,MG,HK,SV],[('expiry computation',SV+':Add'),('sweep',HK+':RemoveTTLMessages')],
 ['Count, GetById and Pull after the sweep'])
p('C12','Max-elements trimming removes exactly the excess, soonest-expiring first',
 'After a max-elements sweep a queue with limit N holds at most N messages and has lost exactly the excess: those closest to expiry, and among equal expiry the oldest. Queues without a positive limit and other queues lose nothing, and no trimming happens while a cache recovery is running.',
 ['histories','inputs'],'All small queues over expiry and age orders, all limits, all edit sequences, up to a bound.',
 'Tests trim one queue with one expiry order; ties, expired leftovers, prefix-sharing queues and repeated edits are not explored.',
 [HK,MS,MG,QC],[('count, ordered find, remove',HK+':removeExceedingMessagesFromQueue'),('ordering',MS+':Find, '+MG+':getMongoSort')],
 ['Count, GetById and Pull after the sweep'])
p('C13','The latest queue configuration edit wins and is what gets enforced',
 'A successful edit with a non-zero limit is stored (negative meaning unlimited) and, once local caches have had ten minutes, every instance reports and enforces it; a zero limit or missing configuration changes nothing. This holds for every order of edits and reads on one or two instances and for concurrent edits and reads.',
 ['histories','schedules'],'All sequences of edits and reads on two instances up to a depth, and all interleavings of concurrent edits and reads.',
 'Tests use one instance with mocked storage; stale local copies need a cross-instance or interleaved history.',
 [QC,MS,MG,SV],[('local copy invalidated on edit',QC+':EditQueueConfiguration,GetQueueConfiguration'),('storage write',MS+':EditQueueConfiguration, '+MG+':EditQueueConfiguration')],
 ['GetQueue responses','stored configurations','trimming'])
p('C14','Losing the cache loses no message: recovery restores every stored one',
 'If the cache is emptied at any moment, including during an earlier recovery, then repeated recovery runs make every stored, unexpired message deliverable again exactly once, with its stored score clamped to the valid range, and then stop. Recovery never moves a message that is already in the cache, and works for any number of messages relative to its batch size.',
 ['crash_points','histories'],'Every cache-loss point in bounded histories and in the recovery itself, every storage/cache fault during recovery, and message counts around the batch size.',
 'Tests run recovery on fixed data without loss or failure in between.',
 [HK,Q,MS,MG,RC,MC],[('breakpoint-driven batches',HK+':RecoveryMessagesPool,tryToStartRecovery')],
 ['Pull responses after recovery','recovery keys'])
p('C15','Failures of storage or cache never lose or corrupt messages',
 'If any single storage or cache operation fails, before or after taking effect, or the process stops at any point of a call, then after retrying, running the background tasks and recovering the cache every message whose add was acknowledged and which was not removed is deliverable with its content, and no message whose removal was acknowledged is delivered. The failing call reports an error instead of success.',
 ['fault_sequences','crash_points'],'Every call kind in every reachable small state, with a fault at every storage/cache operation it performs (failing before or after effect) and a crash between any two.',
 'Mock tests inject a few errors and check the returned error, never the state after retry and recovery.',
 [Q,SV,HK],[('storage first, then cache',Q+':Remove,Ack,Nack, '+SV+':Add'),('inconsistent ids dropped from the cache',Q+':Pull')],
 ['responses, and Pull/GetById after recovery'])
p('C16','The in-memory engines are safe under concurrent calls',
 'Any number of concurrent client calls and background tasks on the in-memory cache and storage behave as if executed one at a time, without data races, deadlocks, panics or lost updates. Values returned to a caller are not changed by later calls.',
 ['schedules'],'All interleavings with a bounded number of preemptions of 2-3 concurrent calls over colliding keys, for all call pairs.',
 'The tests call the engines from one goroutine (the race job covers only what they happen to do).',
 [MC,MS,QC,Q],[('one mutex per engine',MC+':lock, '+MS+':lock')],
 ['responses compared with a sequential order','race detector'])
p('C17','Background tasks and client calls interleave without losing messages',
 'However client calls and background sweeps (timeout, unlock, ttl, trimming, recovery) interleave at their storage and cache steps, a stored message stays deliverable or becomes so through later sweeps, a message is never delivered to two consumers at once, and a removed message is not delivered after the removal completed.',
 ['schedules','histories'],'All interleavings, at storage/cache operation granularity, of pairs and triples of client calls and sweeps from small start states.',
 'Tests never overlap a sweep with a call at a chosen point.',
 [Q,HK,SV],[('operation order storage/cache',Q+', '+HK)],
 ['Pull/GetById/Count after quiescence'])
p('C18','Deckard stays inside its Redis namespace and works on any cluster layout',
 'Deckard only ever reads or writes Redis keys under its configured prefix, so two deployments whose prefixes differ (and neither of which extends the other by a colon), or another application, sharing a Redis never see, change or delete each other\'s data, whatever characters the prefix contains (except braces). On Redis Cluster every multi-key operation touches one slot, queue listing covers every shard, and messages for queue names that would break this are refused before anything is stored or queued under them.',
 ['configurations','inputs'],'All operations over an adversarial alphabet of queue names and prefixes, on single-node and on multi-shard layouts.',
 'Cluster tests need a real cluster and use a few names; foreign keys and odd prefixes are not present.',
 [RC,RS],[('key layout',RC+':activePool,poolPrefix,generalCacheKey'),('scan and delete by pattern',RC+':Flush,ListQueues')],
 ['commands and keys seen by the Redis server','foreign keys before/after'])
p('C19','Flush discards everything on an in-memory instance and nothing otherwise',
 'A flush request succeeds only when both storage and cache are in memory, and then no message, delivery state or queue configuration survives it. On any other engine combination it reports failure and changes nothing.',
 ['configurations','histories'],'All engine combinations and all states reachable within a bounded history before the flush, and bounded histories after it.',
 'Tests flush an (almost) empty service on one combination.',
 [SV,Q,MN,MC,MS],[('memory-instance guard',SV+':Flush, '+MN+':isMemoryInstance')],
 ['Flush response, and all reads afterwards'])
p('C20','Every delivery-state change is audited exactly once, correctly attributed',
 'For every history, each message inserted into the cache, acked, nacked, timed out, unlocked, removed or found missing from storage produces exactly one audit entry with that message\'s id, queue and signal, and nothing else produces entries (except that an ack, nack or remove request that changed nothing may be recorded once, too).',
 ['histories'],'All bounded histories over two queues, including sweeps that move several messages.',
 'Tests check single audited operations against mocks.',
 [Q,HK,AU],[('auditor calls after each transition',Q+', '+HK)],
 ['audit entries compared with the reference model'])
p('C21','Accepted audit entries reach Elasticsearch, also at shutdown',
 'Every audit entry stored before shutdown completes is sent to Elasticsearch exactly once and in order, in batches of at most 200, once 200 are waiting and at the latest once no entry has been added for the idle period; storing an entry never panics or blocks forever, also while the sender is stopping. With auditing disabled nothing is sent and nothing blocks.',
 ['schedules'],'All interleavings of stores, batch sends, the idle timer and cancellation within a bounded number of deviations from the default schedule, and entry counts around the batch size.',
 'Tests send a few entries and do not overlap store with shutdown.',
 [AU,MN],[('channel, batch and timer loop',AU+':StartSender,Store'),('the sender is waited for',MN+':main')],
 ['bulk requests received by the Elasticsearch stand-in'])
p('C22','Graceful shutdown finishes running work and starts none',
 'On shutdown the server stops accepting calls and completes the running ones, running background tasks complete, the recovery task completes before the shared context is cancelled, no task starts after shutdown was announced as finished, and shutdown always terminates once running calls and tasks do. Recovery, trimming and ttl removal never overlap each other.',
 ['schedules'],'All interleavings of program start, task start/finish, timers and shutdown within a bounded number of deviations from the default schedule; every call interrupted at every one of its engine operations.',
 'Tests perform one shutdown with idle tasks.',
 [SH,MN],[('wait groups and task lock',SH+':PerformShutdown, '+MN+':scheduleTask')],
 ['order of task, server and context events'])
p('C23','Configuration values follow main key, then aliases, then default',
 'For every setting the effective value is the one given through the environment for its main name, else the first given through an alias, else the documented default; values that cannot be parsed as a duration fall back instead of becoming zero. Setting a value programmatically takes effect under the main name and every alias.',
 ['configurations'],'Every setting times every combination of main/alias presence and value class (valid, default-valued, empty, unparsable), for every getter.',
 'Tests cover a few keys and combinations.',
 ['internal/config/config.go',CF,'internal/config/storage.go','internal/config/cache.go','internal/config/service.go','internal/config/housekeeper.go'],
 [('fallback getter',CF+':getWithFallback')],
 ['values returned by the getters'])
p('C24','The server enforces exactly the configured TLS client authentication',
 'With server certificates configured, a client can call the service exactly if the configured client authentication mode admits its certificate (none, untrusted, trusted, expired), and plaintext clients never can; with neither certificates nor keys configured the server speaks plaintext. With certificates or keys configured, invalid modes and missing, unreadable, mismatched or miscounted certificate settings make startup fail instead of weakening the mode.',
 ['configurations'],'Every authentication mode times every client certificate kind times every certificate configuration variant.',
 'Tests exercise a few combinations.',
 [SV],[('credentials from configuration',SV+':loadTLSCredentials,getClientAuthType,loadClientCertPool')],
 ['outcome of real client connections'])
p('C25','Queue metrics report the truth, and zero for queues that vanished',
 'After each metrics computation the reported totals per queue prefix equal the stored messages and the oldest-message age is that of the least recently used message, and every prefix reported earlier that has no message left is reported as zero. The exposed samples carry the configured labels exactly once each.',
 ['histories'],'All bounded histories of adds, removes, acks and metric computations over queues sharing prefixes.',
 'Tests compute metrics once over fixed data.',
 [HK,'internal/metrics/metrics_map.go','internal/metrics/registry.go',MS,MG],[('merge keeping vanished keys',('internal/metrics/metrics_map.go')+':mergeData'),('computation',HK+':ComputeMetrics')],
 ['observed gauge values'])
p('C26','A lagging storage replica never makes a pull drop a message',
 'If a pulled message is not yet visible on the replica that normal reads use, it is still delivered by reading the primary; a message is discarded from the queue only when the primary does not have it either. This holds for every subset of pulled messages that is missing on the replica, and reads never return a message of another queue.',
 ['inputs','fault_sequences'],'Every subset of up to four pulled messages missing on the replica times every subset missing on the primary, and faults on either read.',
 'Tests mock one missing message; a real lagging replica is never present.',
 [Q,MG],[('retry with primary preference',Q+':Pull,getFromStorage, '+MG+':Find')],
 ['Pull responses, and cache contents afterwards'])
p('C27','Queue names split at the first double colon, everywhere alike',
 'For every queue name the prefix is the part before its first double colon and the suffix everything after it, or the whole name and nothing if there is none, so that prefix and suffix always recompose the name. The same split is used for stored messages, metrics labels and audit records.',
 ['inputs'],'Every name over a small alphabet of colons and letters up to a length.',
 'Tests check one name with and one without separator.',
 [MSG,SV,AU,Q],[('split',MSG+':GetQueueParts')],
 ['split results','prefix listing','metric labels','audit entries'])
p('C28','Storage queries mean the same on every engine',
 'Finding, counting, listing and removing messages by queue, prefix, ids, insertion breakpoints and expiry, with ordering and limit, return exactly the messages the filter describes in the requested order, on the in-memory and on the MongoDB engine alike.',
 ['inputs','histories'],'All filters, orders and limits over a small alphabet against all small stores.',
 'Tests query each engine with a few filters.',
 [MS,MG],[('filter, sort and limit',MS+':matchesInternalFilter,Find, '+MG+':getMongoMessage,getMongoSort')],
 ['query results compared with a reference evaluation'])
p('C29','Timestamps convert between time and milliseconds without loss',
 'Converting milliseconds to a time and back yields the same number, truncating a time to milliseconds never moves it by a millisecond or more, conversion preserves order, and the clock that decides scores, deadlines and expiry is the same everywhere. Replacing and restoring the clock takes effect immediately.',
 ['inputs'],'A lattice of times around second, millisecond and sign boundaries, all pairs.',
 'Tests check a few values.',
 [DT],[('conversion',DT+':TimeToMs,MsToTime,MsPrecision')],
 ['conversion results'])
p('C30','Startup connects within the configured retries or fails',
 'Connecting to the cache or storage succeeds exactly if the server answers within the configured number of attempts (one if retrying is disabled), waits the configured delay between attempts and not after the last, stops when cancelled, and otherwise reports an error and leaves no connection behind; a missing or malformed address or an unknown engine type is an error, and no setting, also no attempt count, ever yields a silently unconnected instance.',
 ['configurations','fault_sequences'],'Every combination of engine, retry setting, attempt count and number of initial connection failures up to a bound.',
 'Tests cover an unreachable server and a reachable one.',
 [RC,MG],[('retry loops',RC+':waitForSingleNodeClient,waitForClusterClient, '+MG+':waitForClient')],
 ['result of creating the engine and number of connection attempts seen by the server'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
print(len(P))
