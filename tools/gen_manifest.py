#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
SEQ = ('explicit-state model checking of the real code against a reference model: exhaustive breadth-first enumeration of operation sequences',
       'Every operation sequence over the listed alphabets up to the stated depth is executed on the real code (service, queue, housekeeper, cache, storage; Redis and MongoDB behind protocol-level fakes) and compared step by step with a reference model, with a final drain at each new state. Nothing is sampled. Assumes the fakes behave like Redis/MongoDB (the repository\'s own integration suites pass on them), sequential calls (unless stated below) and a clock that only moves between calls; beyond the depth and alphabet nothing is claimed.')
TOGETHER = ('; stateless exploration of all orders of the steps of two concurrent calls or tasks under a controlled scheduler',
            ' Concurrent calls: every pair from the listed situations, steps ending at mutex acquisitions of the in-memory engines or at Redis/MongoDB commands, up to a preemption bound (quick 2, MongoDB 1; thorough 4, MongoDB 3).')
PROGRAM = ('; the same histories through the whole running program under virtual time',
           ' Whole-program jobs run the real main with gRPC server and housekeeping tasks on four engine combinations over a product of histories; its task schedule there is the default one.')
CHECKS = {}
for c in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C19 C20 C26'.split():
    CHECKS[c] = SEQ
CHECKS['C15'] = ('exhaustive fault and process-stop injection at every storage/cache operation and engine command of every bounded history of the real code',
       'All histories over the alphabet up to the depth, times every injection point, times every mode (fails before, fails after, process stops, fails with everything after it in the call or on its engine, connection to Redis breaks before or after), times the client\'s reaction. One fault or outage per history; Redis and MongoDB are fakes; a command is the finest grain.')
CHECKS['C16'] = ('stateless model checking of the real code under a controlled scheduler (all mutex-acquisition orders) with the race detector and a linearizability oracle',
       'Every order of mutex acquisitions of every pair, pair with a two-call thread (thorough: triple) of engine operations, and of every pair of service calls and background tasks up to a preemption bound; races are those the detector finds on these executions using only the code\'s own synchronization. go-cache\'s own mutex is not a scheduling point.')
CHECKS['C17'] = ('stateless model checking of the real code: depth-first search over all interleavings of client calls and background tasks at storage/cache operations and engine commands',
       'Every pair (thorough: triple) of call sequences and tasks from every listed starting situation, every order of their steps up to the preemption bound (quick 2 for operations, 1 for commands; thorough unbounded for pairs in memory). The clock stands still while threads run; a command is the finest grain; Redis and MongoDB are fakes.')
CHECKS['C18'] = ('explicit-state exploration of the real code over a shared key space: every bounded operation sequence of two deployments and foreign keys, single node and cluster layouts',
       'Every operation sequence up to the depth, for each pair of prefixes and each cluster layout; every key every command and script touches is judged. The Redis and Redis Cluster stand-ins are fakes that enforce slots and per-node script caches; prefixes with braces and prefixes nested by a colon are outside the property.')
CHECKS['C21'] = ('stateless model checking of the real audit sender and of the whole program under a controlled scheduler owning channels, selects, timers, mutexes, wait groups and atomics (delay-bounded), with the race detector on part of the schedules; exhaustive enumeration of batch contents',
       'Every schedule with at most 2 (1 for the larger cases; thorough one more) deviations from the default one, a stop at every point; entry counts 0-3 and around one and two batches. Time is virtual. The Elasticsearch server is an in-process stand-in behind the real client.')
CHECKS['C22'] = ('stateless model checking of the real program (main, scheduler, shutdown, queue) under a controlled scheduler owning channels, selects, timers, mutexes, wait groups and atomics (delay-bounded), with the race detector on part of the schedules; exhaustive enumeration of interruption points of calls on the real gRPC server',
       'Every schedule with at most 2 deviations from the default one for each single task, 1 for start-up, pairs and triples (thorough: 2), a stop signal at every point; every call stopped before and after each of its engine operations by a real signal. Time is virtual; engines are the in-memory ones; gRPC itself is not under the scheduler.')
CHECKS['C25'] = (SEQ[0]+'; exhaustive failure injection into the metrics computation; enumeration of all label configurations',
       'Every history of adds, removals, acks and metrics computations up to the depth, gathered through the real registry and collector; the OpenTelemetry SDK and exporter are stubs that keep its callback and label behaviour.')
CHECKS['C28'] = ('exhaustive enumeration of storage queries over histories on the real engines, compared with a reference evaluation',
       'Every combination of the listed filter values, orders and limits over each population, on the in-memory engine and on the real MongoDB client code over a protocol-level fake (stand-alone and replica set).')
CHECKS['C23'] = ('explicit-state model checking of the real configuration package: all reachable states of environment, programmatic values and reloads, for every setting',
       'Complete for the listed value classes; integers and booleans that cannot be parsed and durations without unit are outside the property.')
CHECKS['C24'] = ('exhaustive enumeration of all server certificate, authority and mode configurations times all client kinds against the real server',
       'Complete for the listed configurations and client kinds; clients are the Go TLS implementation over loopback.')
CHECKS['C27'] = ('exhaustive enumeration of all names up to a length over alphabets of colons and other characters, and of a full message life for each shorter name on the real code',
       'Complete up to the stated lengths; audit records pass through the real auditor to an in-process Elasticsearch stand-in, metrics through a stub of OpenTelemetry.')
CHECKS['C29'] = ('exhaustive enumeration of a lattice of times and of all bounded sequences of clock operations, against a model of the clock',
       'Complete for the lattice (bases around powers of two and ten, offsets around every boundary, years 1-9999) and for all sequences of clock operations up to the depth.')
CHECKS['C30'] = ('exhaustive enumeration of retry settings and ping failure patterns up to a bound, with fault injection in the servers, on the real connection code',
       'Every engine layout, retry setting, attempt count and failure pattern up to the bound with the real drivers against in-process servers; cancellation during an unanswered ping is not covered.')
for group, (t, n) in (('C01 C02 C03 C05 C07 C09 C10 C13', TOGETHER), ('C03 C05 C11 C12 C14 C19 C25', PROGRAM)):
    for c in group.split():
        CHECKS[c] = (CHECKS[c][0] + t, CHECKS[c][1] + n)
LEVEL = {}
NA = {}
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
                                evidence_file=f'evidence/{i}.json', technique=t, level=LEVEL.get(i, 'model_checking'), level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
