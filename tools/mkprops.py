#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing this file or props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
D = "src/disruptor/include/disruptor/"
L = []


def P(id, title, statement, over, text, why, files, mech, na=None, note=None):
    assert len(title) <= 80, title
    L.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), na, note))


P("D01", "Ring buffer delivers every event once, in order, complete",
  "Every event published to the ring buffer, by one or several concurrent producers and with single, batch, try- or out-of-order publication, is delivered to every attached consumer (event processor or poller) exactly once, in the order of the claimed sequences, and never before its producer has finished writing and publishing it. A consumer never sees a mixture of two events, an event nobody published, or a gap.",
  ["schedules", "configurations", "histories"], "all interleavings of producers and consumers, all wait strategies, claim strategies, ring sizes, start sequences and batch sizes",
  "the unit tests run two or three threads on the host scheduler with large rings and one producer style; a reordered publication, a stale cached minimum or a wrong availability flag needs a particular preemption at a wrap-around",
  [D + "RingBuffer.hpp", D + "ClaimStrategy.hpp", D + "BatchEventProcessor.hpp", D + "ProcessingSequenceBarrier.hpp", D + "Sequence.hpp"],
  [("claim and publish", D + "ClaimStrategy.hpp"), ("barrier waiting for the highest contiguous published sequence", D + "ProcessingSequenceBarrier.hpp waitFor"), ("batch loop", D + "BatchEventProcessor.hpp"), ("poller", D + "RingBuffer.hpp EventPoller::poll")])
P("D02", "Producers never overtake consumers; capacity answers are truthful",
  "A producer is never given a slot whose previous event has not been released by every gating consumer, and no sequence is given to two producers. Non-blocking claims are refused only when there is not enough free space and otherwise succeed, reported capacity is never above what is free nor below what was already free before the query, and a blocked producer continues once consumers have released enough.",
  ["schedules", "configurations", "histories"], "all interleavings of producers and slow, stalled and resuming consumers at every wrap-around",
  "tests fill a ring from one thread and query it while nothing else runs; the cached gating minimum and the claim loop only matter under concurrent claims and releases",
  [D + "ClaimStrategy.hpp", D + "RingBuffer.hpp", D + "Sequence.hpp"],
  [("wrap-point check and cached minimum", D + "ClaimStrategy.hpp next/tryNext/hasAvailableCapacity"), ("minimum over gating sequences", D + "Sequence.hpp getMinimumSequence")])
P("D03", "Dependent handlers run strictly after the handlers they depend on",
  "In a handler graph built with the disruptor front end (handleEventsWith, then, after, and), a handler sees an event only after every handler it was declared to depend on has completed that event, and sees what they wrote into it; every handler of the graph sees every event exactly once in order, and a producer waits for the last stage.",
  ["schedules", "configurations", "programs"], "random handler graphs, all interleavings of all stages",
  "tests build two or three fixed graphs and observe final counters; order between stages is only violated for some preemptions between publication of two sequences",
  [D + "Disruptor.hpp", D + "EventHandlerGroup.hpp", D + "ConsumerRepository.hpp", D + "ProcessingSequenceBarrier.hpp"],
  [("barriers on dependent sequences", D + "Disruptor.hpp createEventProcessors"), ("end-of-chain bookkeeping for gating", D + "ConsumerRepository.hpp")])
P("D04", "No consumer sleeps through a publication (wait strategies)",
  "With every wait strategy a consumer that waits for an event which has been published resumes and processes it in bounded time once the system runs fairly, whatever the interleaving of publication, dependency progress and going to sleep; time-out capable strategies report time-outs only when the awaited event is not there. An alert (halt) also ends every wait.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of wait, signal, alert, spurious wake-ups and stalls for each wait strategy",
  "a lost wake-up needs the signal between the check and the sleep; tests sleep generously and would only hang rarely",
  [D + "WaitStrategy.hpp", D + "ProcessingSequenceBarrier.hpp", "src/core/include/SpinWait.hpp"],
  [("waitFor/signalAllWhenBlocking", D + "WaitStrategy.hpp"), ("alert", D + "ProcessingSequenceBarrier.hpp")])
P("D05", "Worker pools process every event exactly once",
  "Each event published to a ring with a worker pool is processed by exactly one worker of that pool, regardless of the number of workers, of concurrent claims, of workers being stopped by drain-and-halt and of handlers that throw; the slot is not reused before that worker has finished and drain-and-halt returns only when everything published before was processed.",
  ["schedules", "configurations", "histories"], "all interleavings of workers and producers, several pools and mixed topologies",
  "tests count totals with two idle workers; double claims or skipped sequences need two workers racing on the same sequence",
  [D + "WorkProcessor.hpp", D + "WorkerPool.hpp"], [("work sequence claim", D + "WorkProcessor.hpp run"), ("drainAndHalt", D + "WorkerPool.hpp")])
P("D06", "Halting, restarting and shutting down loses and repeats nothing",
  "An event processor that is halted at any moment stops in bounded time, and when it is run again continues with the first event it had not completed: nothing is lost and nothing repeated. Shutting the disruptor down waits until the backlog known at that time has been processed (or reports the time-out) and afterwards all processor threads end; start and stop notifications of handlers come in pairs.",
  ["schedules", "crash_points", "histories"], "halt and shutdown requests at arbitrary moments of arbitrary runs",
  "tests halt idle processors; the window between an alert and the re-entry of the wait is not reachable reliably",
  [D + "BatchEventProcessor.hpp", D + "Disruptor.hpp", D + "ProcessingSequenceBarrier.hpp"], [("halt/run state", D + "BatchEventProcessor.hpp"), ("shutdown with backlog check", D + "Disruptor.hpp")])
P("D07", "A throwing handler neither blocks the ring nor loses later events",
  "When an event handler, translator or poller callback throws, the exception is reported exactly once to the configured exception handler together with the sequence and the event concerned (translator and poller exceptions reach the caller or are swallowed as documented), the failing sequence is still released, and all other events are still delivered exactly once in order; producers are never blocked by it.",
  ["schedules", "fault_sequences", "histories"], "exceptions at arbitrary events of arbitrary stages under all interleavings",
  "tests throw in one handler on one event with no concurrency",
  [D + "BatchEventProcessor.hpp", D + "WorkProcessor.hpp", D + "RingBuffer.hpp", D + "ExceptionHandlerWrapper.hpp"], [("exception path of the batch loop", D + "BatchEventProcessor.hpp processEvents"), ("publication in all exits", D + "RingBuffer.hpp publishEvent/translateAndPublish")])
P("D08", "Consumers can join and leave a running ring safely",
  "A consumer that attaches to a ring while producers are publishing sees a gap-free, in-order suffix of the stream starting at a sequence that was current during its attachment, and from then on its unread events are never overwritten. Detaching a consumer never blocks producers nor disturbs the remaining consumers, and attaching and detaching concurrently never corrupts memory or loses another consumer's protection.",
  ["schedules", "histories"], "attach and detach calls at arbitrary moments of running producers and consumers",
  "tests add gating sequences before the first publication",
  [D + "RingBuffer.hpp", D + "Sequence.hpp", D + "ClaimStrategy.hpp"], [("copy-on-write gating list", D + "Sequence.hpp addSequences/removeSequence"), ("poller/processor creation on a live ring", D + "RingBuffer.hpp newPoller")])
P("D09", "Blocking queue and task schedulers hand over every item exactly once",
  "Items pushed into the blocking queue are each popped by exactly one consumer, in push order per producer, and no consumer waits while an item is available; timed pops give up only after the time-out. The schedulers run every submitted task exactly once on one of their threads, and stop without losing tasks submitted before or hanging.",
  ["schedules", "histories"], "all interleavings of pushes, pops, submissions and stop requests, with spurious wake-ups",
  "there are no concurrency tests of these classes",
  [D + "BlockingQueue.hpp", D + "RoundRobinThreadAffinedTaskScheduler.hpp", D + "BasicExecutor.hpp"], [("mutex and condition variable hand-over", D + "BlockingQueue.hpp")])
P("C01", "Thread pool runs every submitted task exactly once",
  "Every task submitted to the thread pool before its shutdown is run exactly once, by a pool thread, and its future receives the returned value or the thrown exception exactly once; this holds for tasks submitted concurrently from several threads and from inside running tasks, and no task stays queued while a worker is idle. Destroying a task's future never cancels or repeats it.",
  ["schedules", "histories", "configurations"], "all interleavings of submitters, workers starting and expiring, idle time-outs and spurious wake-ups",
  "tests submit from one thread and sleep; a missed notification or a task taken twice needs a preemption between the queue check and the wait",
  ["src/core/include/ThreadPool.hpp"], [("task queue and worker loop", "src/core/include/ThreadPool.hpp worker/getOrWaitForTask"), ("worker wake-up", "src/core/include/ThreadPool.hpp execute")])
P("C02", "Thread pool respects task priorities and its minimum size",
  "A queued task is never overtaken by a queued task of lower priority, and tasks of equal priority start in submission order; the pool keeps at least its minimum number of workers, lets workers above it end after the keep-alive time, and reports worker and queue counts that match reality when idle.",
  ["schedules", "configurations", "histories"], "all interleavings of submissions with priorities and worker expiry",
  "tests look at one queue order with one blocked worker",
  ["src/core/include/ThreadPool.hpp"], [("priority insertion", "src/core/include/ThreadPool.hpp TaskQueue::push"), ("keep-alive expiry", "src/core/include/ThreadPool.hpp worker")])
P("C03", "Thread pool shutdown always terminates and joins every worker",
  "Requesting shutdown or destroying the pool ends in bounded time whatever the workers are doing (idle, just starting, just expiring, running a task), lets running tasks finish, and leaves no thread or running task behind. A task that was accepted before either runs exactly once or is discarded entirely, in which case its future reports that it was abandoned; no task starts afterwards.",
  ["schedules", "crash_points"], "shutdown requests at arbitrary moments",
  "tests destroy idle pools",
  ["src/core/include/ThreadPool.hpp"], [("requestShutdown and destructor", "src/core/include/ThreadPool.hpp")])
P("C04", "Reader/writer lock keeps readers and writers apart and never sticks",
  "At no time is the lock held by a reader and a writer together, while holders of the same kind share it; non-blocking attempts never wait and never succeed against the other kind, and scoped guards release exactly what they acquired. Every acquisition succeeds in bounded time once the holders of the other kind have released, and the reported count equals the number of holders (positive for readers, negative for writers).",
  ["schedules", "histories"], "all interleavings of readers and writers, nested readers, slow holders",
  "tests call lock and unlock from one or two threads without contention in the critical window",
  ["src/core/include/ReaderWriterLock.hpp"], [("compare-exchange state", "src/core/include/ReaderWriterLock.hpp")])
P("C05", "Spin wait and spin mutex: exclusion, correct time-outs, no lost progress",
  "The spinning mutex admits one holder at a time, makes what the previous holder wrote visible to the next, and every waiter eventually gets it. Waiting with a spinner for a condition returns success as soon as the condition holds, reports failure only after the requested time-out has really elapsed, and without time-out never gives up.",
  ["schedules", "configurations"], "all interleavings, contention levels, stalls and time-out values",
  "tests spin with a condition that is already true or never becomes true",
  ["src/core/include/SpinWait.hpp"], [("spinUntil", "src/core/include/SpinWait.hpp"), ("AtomicMutex", "src/core/include/SpinWait.hpp")])
P("S01", "Settings are read complete and current, without blocking real-time code",
  "A reader of a setting shared between threads always gets one complete value that was current at some moment during the read, never an older one than it or a completed replacement established before, and never a torn one; concurrent read-modify-write operations lose no update. The single real-time thread reads and replaces the setting without ever waiting for the other threads, and nobody touches freed memory.",
  ["schedules", "histories"], "all interleavings of real-time and non-real-time readers, writers and modifiers, and stalls of any of them",
  "tests replace and read in turn from one thread",
  ["src/disruptor/include/BasicSetting.hpp"], [("real-time mutate and non-real-time access", "src/disruptor/include/BasicSetting.hpp")])
P("S02", "Committed settings: no lost updates, linear history, isolated staging",
  "Commits and modifications of a transactional setting by any number of threads take effect one at a time: each becomes the current value exactly once, reads never go back in time, and no modification is lost. A staged value is invisible until its transaction is committed, is committed at most once and can be withdrawn; readers keep a consistent value while others commit.",
  ["schedules", "histories"], "all interleavings of stage, commit, modify, retire, read and history access",
  "tests execute one operation after another",
  ["src/disruptor/include/Transactions.hpp"], [("transaction list", "src/disruptor/include/Transactions.hpp stage/commit"), ("ring of versions", "src/disruptor/include/Transactions.hpp")])
P("S03", "Setting history is bounded, ordered and expires only what is unused",
  "The history of a setting always holds the current value followed by its predecessors in order without gaps or duplicates, never more than the configured number; with a time-out configured, versions and staged transactions older than the time-out disappear, while those used or written within it, and everything when expiry is disabled, remain. Looking up a past point in time returns the value that was in force then.",
  ["schedules", "histories", "configurations"], "all interleavings with clock progress, history wrap-around and expiry calls",
  "tests commit a few values with real sleeps",
  ["src/disruptor/include/Transactions.hpp"], [("retireExpired", "src/disruptor/include/Transactions.hpp"), ("history get", "src/disruptor/include/Transactions.hpp get/getPendingTransactions")])
P("S04", "Context settings: contexts do not disturb each other, fallback is exact",
  "A value set for one timing context is returned for exactly that context and for more specific ones that have no closer value of their own, and never for others; without any match the default is returned. Setting, staging or retiring a context never changes what other contexts read, also under concurrency, and results already handed out stay valid and unchanged.",
  ["schedules", "histories", "inputs"], "all interleavings of set, stage, commit, retire, expire and read over contexts of all depths",
  "tests set two contexts from one thread",
  ["src/disruptor/include/Transactions.hpp", "src/core/include/TimingCtx.hpp"], [("context look-up with fallback", "src/disruptor/include/Transactions.hpp CtxSetting::get"), ("copy-on-write maps", "src/disruptor/include/Transactions.hpp CtxSetting::commit/retire")])

NA_PURE = "a pure function of its input: no concurrency, time, I/O or party for a schedule or fault to act on; deterministic simulation has nothing to vary"
P("N01", "Serialised data reads back as the value that was written",
  "Any object of a reflected type written with the binary, CMW-light, JSON or YAML serialiser and read back by the same protocol yields the same value; damaged input is rejected without undefined behaviour.",
  ["inputs"], "all reflected types and values, all damaged inputs", "tests cover a fixed set of values",
  ["src/serialiser/include/IoSerialiser.hpp"], [("field-wise serialisation", "src/serialiser/include/")], na=NA_PURE)
P("N02", "URIs and topics round-trip and compare consistently",
  "Parsing and rebuilding a URI or topic yields an equivalent one, equal topics have equal hashes, and malformed input is rejected with an error.",
  ["inputs"], "all strings", "tests cover a fixed list",
  ["src/core/include/URI.hpp", "src/core/include/Topic.hpp"], [("parser", "src/core/include/URI.hpp")], na=NA_PURE)
P("N03", "Subscription filters and MIME/RBAC parsing follow their rules for all inputs",
  "Matching a notification against a subscription filter, choosing a MIME type and parsing a role token give the documented answer for every input.",
  ["inputs"], "all inputs", "tests cover a fixed list",
  ["src/majordomo/include/majordomo/SubscriptionMatcher.hpp", "src/core/include/MIME.hpp", "src/majordomo/include/majordomo/Rbac.hpp"], [("matchers", "src/majordomo/include/majordomo/SubscriptionMatcher.hpp")], na=NA_PURE)
P("N04", "HTTP/3 and encrypted HTTP/2 clients receive every reply and update",
  "A REST client connected over HTTP/3, or over HTTP/2 with TLS, gets exactly one reply per request and every long-poll update in order, whatever the timing of the connection.",
  ["schedules", "fault_sequences"], "all network timings and faults", "tests use a loopback server",
  ["src/majordomo/include/majordomo/RestServer.hpp", "src/client/include/RestClientNative.hpp"], [("session state machines", "src/majordomo/include/majordomo/RestServer.hpp")],
  na="this part is built directly on nghttp3, ngtcp2 and OpenSSL >= 3.5, none of which is installed; the state these properties depend on (QUIC connections, TLS handshakes, acknowledgements) lives in those libraries, so a stand-in would be simulating my own code instead of theirs; the same guarantees over plain HTTP/2 are R01 to R03")

exec(open(os.path.join(V, "tools", "mkprops_zmq.py")).read()) if os.path.exists(os.path.join(V, "tools", "mkprops_zmq.py")) else None

with open(V + "/properties.jsonl", "w") as f:
    for p, na, note in L:
        f.write(json.dumps(p) + "\n")
checks, nas = [], []
for p, na, note in L:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py run %s quick" % i, thorough_cmd="python3 check.py run %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique="deterministic simulation with fault injection (seeded schedule and fault search, scenarios: %s)" % ", ".join(s[1] for s in q["scenarios"]),
                           level=q.get("level", "exploration"),
                           level_note=note or q.get("note", "Seeded search: the real code runs under a simulated scheduler, clock and allocator; every run is repeatable from its seed and checked against a reference model. It shows the property on the schedules explored, not on all; memory is sequentially consistent.")))
    else:
        assert na, i
        nas.append(dict(property=i, reason=na))
m = dict(version=1, setup_cmd="python3 check.py setup",
         hooks=dict(guard="OPENCMW_SIM", enable="the checks compile with -DOPENCMW_SIM; no hook in /repo is needed so far: all seams are the C and C++ runtime interfaces (pthread, atomics via -fsanitize=thread call-outs, clocks, malloc)", source_commits=[]),
         checks=checks, not_applicable=nas,
         notes="Replay a violation with: python3 check.py replay <file> [-v]. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nas), "not applicable")
