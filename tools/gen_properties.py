#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
Q = "include/cler_spsc-queue.hpp"; F = "include/cler.hpp"; D = "include/task_policies/cler_desktop_tpolicy.hpp"
V = "include/virtual_memory/cler_vmem_posix.hpp"; PL = "include/cler_platform.hpp"

p("C01", "A channel delivers its stream exactly once, in order",
  "For one producer and one consumer thread, the elements a consumer takes out of a channel are exactly the elements the producer put in, in the same order, with no loss, duplication or alteration. This holds for every mix of the element-wise, bulk, two-segment peek/commit and contiguous-window operations on either side, for stack-allocated and heap-allocated channels of every capacity (including 1) and every supported element type, non-trivially-copyable ones included.",
  ["schedules", "inputs", "histories"], "every interleaving of one producer and one consumer, every operation sequence and chunk size on either side, every capacity and element type",
  "The queue tests run mostly single-threaded sequences and a few free-running two-thread loops with one operation kind per side: they meet a handful of interleavings and almost no mixed operation histories, especially around wrap-around with stale index caches.",
  [Q, F], [("release store / acquire load of the two indices, cached opposite index", Q + " push/pop/try_push/try_pop/writeN/readN/peek_*/commit_*/read_dbf/write_dbf")],
  [("write index / read index", "stream positions modulo the slot count", Q)], ["values returned by the consumer-side operations"])
p("C02", "A channel slot is never touched by both sides at once",
  "An element becomes visible to the consumer only after all of its bytes have been written, and a slot is handed back to the producer only after the consumer has finished with it, on every architecture the C++ memory model admits (not just x86). No sequence of legal channel operations by one producer and one consumer contains a data race, including while the occupancy queries are called from either side or from a third thread.",
  ["schedules"], "every interleaving and every weak-memory outcome that the C++ memory model allows",
  "Tests run natively on x86, whose strong ordering hides missing release/acquire pairs, and no test runs under a race detector.",
  [Q], [("memory_order_release on publish, memory_order_acquire on observe", Q)], [], ["element bytes seen by the consumer"])
p("C03", "Channel occupancy answers are never over-promises, calls make progress",
  "Space reported to the producer can always be filled and elements reported to the consumer can always be taken, without blocking and in full; a non-blocking or bulk call moves less than asked only if the channel really was that full or empty at some moment during the call, and a blocking call returns once the other side has acted. Occupancy stays between zero and the capacity, occupancy plus space equals the capacity when nobody is writing or reading, and the capacity is never below what was asked for.",
  ["schedules", "histories", "inputs"], "every interleaving, every operation history, every capacity",
  "Tests compare size() and space() in single-threaded sequences only; whether a query made during concurrent progress is a safe bound, or a blocking call always wakes, depends on the schedule.",
  [Q], [("size/space computed from the two indices", Q), ("refresh of the cached opposite index on apparent full/empty", Q)], [], ["size(), space(), capacity, return values"])
p("C04", "Contiguous channel windows equal the logical stream across the wrap",
  "When a heap channel offers contiguous access, the window handed to the consumer holds exactly the elements currently readable, in stream order, and the window handed to the producer covers exactly the writable slots, even when the window spans the end of the ring. This holds for every element size, capacity and page or huge-page configuration of the machine; the two windows never overlap and lie inside memory the channel owns.",
  ["inputs", "configurations", "histories", "schedules"], "every element size, capacity, offset of the ring at the time of the call, system page size and huge-page setting",
  "The doubly-mapped tests use element sizes that divide the page and buffers far below the huge-page size; page geometry of the host is fixed during a test run.",
  [Q, V, PL], [("double mapping of one memory object", V + " create"), ("capacity rounding to the page", Q + " AdaptiveHeapBuffer")], [], ["read_dbf()/write_dbf() windows"])
p("C05", "Channel memory set-up survives every system-call failure without leaks",
  "Whatever system call or allocation fails while a channel is being created or probed, the result is either a usable channel with at least the requested capacity or an exception, never a channel that corrupts data; where only huge pages are refused (or none fit), a large channel still offers its contiguous windows. Nothing stays behind afterwards: no file descriptor, memory mapping, named shared memory object or heap block survives a failed creation or the destruction of a channel, and no descriptor or mapping the channel does not own is ever closed or unmapped, including when several threads create channels at the same time.",
  ["fault_sequences", "schedules", "configurations"], "every subset of failing calls in the set-up sequence, and every interleaving of concurrent creations",
  "No test can make memfd_create, ftruncate, mmap or shm_open fail at a chosen point, and none creates channels concurrently.",
  [V, PL, Q], [("clean-up on every early return", V + " create/cleanup"), ("fall-back to plain heap storage", Q + " AdaptiveHeapBuffer"), ("one-time capability probe", PL + " supports_doubly_mapped_buffers")], [], ["open descriptors, mappings, heap blocks after destruction"])
p("C06", "A block is never run by two workers at once",
  "While a flowgraph runs, each block's processing function is executed by at most one thread at a time, and everything a block wrote in one call is visible to its next call. This holds for every scheduler choice, worker count, block count and batch size, so blocks need no locking of their own.",
  ["schedules", "configurations"], "every interleaving, scheduler type, worker count from 2 upwards and block count",
  "Flowgraph tests run one configuration with blocks whose private state is too simple to reveal overlapping calls; overlap needs a particular interleaving of workers.",
  [F, D], [("static partition of blocks over workers", F + " FixedThreadPoolScheduler::initialize"), ("one task per block", F + " launch_tasks_impl")], [("worker block lists", "which worker runs which block", F)], ["entry and exit of processing functions"])
p("C07", "Every block keeps being scheduled; no block starves another",
  "While a flowgraph runs, every block is called again within a bounded number of scheduling rounds, whatever the other blocks return (success, lack of input or space, soft errors) and however their batches and sleeps are configured. As long as sources produce and sinks consume, data keeps moving through the graph; no combination of scheduler, worker count, block count or batch limit leaves a block unscheduled, except a batch limit of zero.",
  ["schedules", "configurations", "histories"], "every worker/block ratio, per-call outcome pattern, batch limit, adaptive-sleep setting and schedule",
  "Tests check that a short pipeline eventually moves some samples; starvation depends on the partition arithmetic for particular worker/block counts and on long-running outcome patterns.",
  [F], [("ceil-division partition and round-robin inside a worker", F + " FixedThreadPoolScheduler"), ("batch limit", F + " max_calls_per_tick")], [], ["per-block call counts over simulated time"])
p("C08", "Library blocks conserve their sample streams inside a running graph",
  "Connected through channels in a running flowgraph, the library's processing blocks (gain, sum, fan-out, complex demux, frequency shift, noise, throughput meter, null sink, low-pass filter, resampler and FM demodulator as far as sample count and order go) emit the result for every input sample exactly once and in order. Input is consumed only together with the output it produces, for every chunking of the input and every pattern of full or empty neighbours; outputs never differ between schedules.",
  ["schedules", "inputs", "histories"], "every chunking, every back-pressure pattern on any of the inputs and outputs, every scheduler configuration",
  "Block tests push one or two fixed buffers through a block in one thread with outputs that never fill up.",
  ["desktop_blocks/math", "desktop_blocks/utils", "desktop_blocks/noise", "desktop_blocks/sinks/sink_null.hpp", "desktop_blocks/filters/kaiser_lpf.hpp", "desktop_blocks/resamplers/multistage_resampler.hpp", "desktop_blocks/fm/fm_demod.hpp"],
  [("transfer size = min(readable, writable, temp buffer)", "desktop_blocks/*/procedure")], [], ["output streams compared with a sequential reference"])
p("C09", "Stopping a flowgraph is complete, bounded, repeatable and restartable",
  "When a stop request or the destructor of a flowgraph returns, no block is running and none will run again until the next start, and all side effects of the blocks are visible to the caller. Stopping returns after each block has finished at most the call it was in, may be repeated, and works when nothing was started or when starting failed part-way; a stopped flowgraph can be started again and continues with the channel contents it had.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of the stop request with the workers, every start/stop history, thread-creation failure at every position",
  "Tests stop once, from one thread, at one point; a worker that outlives stop or a lost stop request needs a particular interleaving, and thread-creation failure cannot be provoked.",
  [F, D], [("stop flag plus join of the created tasks", F + " stop/run"), ("destructor calls stop", F)], [("stop flag", "request to leave the worker loop", F), ("active task count", "tasks to join", F)], ["processing-function calls after stop() returned"])
p("C10", "A fatal block error stops the whole graph, a soft error never does",
  "When any block returns a fatal error the flowgraph reports itself stopped, every other block stops being called after at most the batch it is in, and the registered termination callback is called with its registered context; the failing block is not called again. Non-fatal errors never stop the graph or any block, nor trigger the callback.",
  ["schedules", "histories", "configurations"], "every choice of failing block, failure time, scheduler configuration and interleaving with other blocks and with a stop request",
  "Tests cover no error propagation between threads; the effect depends on where other workers are when the error occurs.",
  [F], [("fatal classification", F + " is_fatal"), ("stop flag set by the failing worker, callback invocation", F + " run_block_at_index_thread_per_block, execute_block_at_index_helper")], [], ["is_stopped(), callback invocations, calls after the error"])
p("C11", "A timed run lasts the requested time, whatever the clocks do",
  "A run for a given duration keeps the flowgraph running for at least that duration of elapsed time and returns within a bounded overshoot after it, leaving the graph stopped. Adjustments of the wall clock during the run (forward, backward, any size) do not shorten, lengthen or hang it.",
  ["schedules", "fault_sequences", "inputs"], "every duration, every sleep overshoot, every sequence of wall-clock jumps",
  "Tests use one short duration on a machine whose clock does not jump.",
  [F], [("elapsed time loop", F + " run_for")], [], ["simulated time between call and return"])
p("C12", "Adaptive sleeping stays within its configured limits and backs off correctly",
  "With adaptive sleeping enabled a block only starts sleeping after more consecutive starved calls than the configured threshold, never sleeps longer than the configured maximum per call, and returns to shorter sleeps after successful calls; with it disabled no back-off sleep is ever requested. Each block backs off on its own account: one block's starvation never lengthens another block's sleep and one run's never another run's, and a starved block whose input arrives processes it within the maximum sleep.",
  ["schedules", "histories", "configurations"], "every success/failure history, every threshold, multiplier and maximum, every scheduler",
  "No test observes requested sleep times; they depend on long failure histories per block.",
  [F], [("per-block failure counter and sleep value", F + " handle_adaptive_sleep")], [("consecutive failures, current sleep", "back-off state of a block", F)], ["requested sleep durations per block"])
p("C13", "Execution statistics match what actually happened",
  "With detailed statistics on, after the graph has stopped each block's counts of successful and failed calls equal the number of calls that succeeded and failed during that run, for every block including the one that ended the run with a fatal error, under either scheduler and on repeated runs. Reported run times are non-negative, cover the time the block was scheduled, dead time never exceeds run time beyond clock resolution, and wall-clock adjustments do not affect them. The printed execution report gives these figures, and a throughput meter in the graph reports the samples that passed it and the time that elapsed, whatever happens to the wall clock.",
  ["schedules", "histories", "configurations", "fault_sequences"], "every call-outcome history, scheduler, stop moment, rerun and clock adjustment",
  "Tests check only that counters are positive for a clean run; the counts at the moment of termination or across reruns depend on the schedule.",
  [F, "include/cler_desktop_utils.hpp", "desktop_blocks/utils/throughput.hpp"], [("per-thread counters published at loop exit, per-call counters in pool mode", F)], [], ["stats() after stop compared with a call log"])
p("C14", "Embedded task back-ends run, join and release tasks safely",
  "On each supported embedded kernel (FreeRTOS, ThreadX, Zephyr) every created task runs its function exactly once, joining it returns only after the function has finished, and kernel objects and memory of a task are neither used after release nor leaked, whatever the kernel's scheduling order. If the kernel refuses to create a semaphore or thread, nothing leaks and joining does not hang, and a graph of blocks at equal priority makes progress under a purely cooperative kernel. A requested sleep lasts the requested time to within two kernel ticks, whatever the tick rate, and a timed run its duration.",
  ["schedules", "fault_sequences", "configurations"], "every order in which the kernel runs ready tasks, every creation failure, cooperative and preemptive scheduling",
  "The repository only compiles its embedded examples against header mocks that run no tasks; no test executes these back-ends.",
  ["include/task_policies/cler_freertos_tpolicy.hpp", "include/task_policies/cler_threadx_tpolicy.hpp", "include/task_policies/cler_zephyr_tpolicy.hpp", "include/task_policies/cler_task_policy_base.hpp"],
  [("completion semaphore hand-shake, clean-up on creation failure", "include/task_policies/cler_*_tpolicy.hpp create_task/join_task")], [], ["kernel object life cycle, task executions"])
p("C15", "A throttle passes every sample, never above its rate, and recovers",
  "A throttle passes its input stream through unchanged and never lets more samples through in any time span than the configured rate allows for that span (plus two, one at either end). It catches up to its rate after stalls without bursting, timer lateness of less than a sample interval does not add up, and neither wall-clock adjustments nor starvation or back-pressure makes it lose samples, exceed its rate or stop for longer than a sample interval beyond what its neighbours impose.",
  ["schedules", "fault_sequences", "inputs"], "every arrival pattern, back-pressure pattern, stall and wall-clock jump, every rate",
  "The throttle test measures one average rate in real time with steady input and a steady clock.",
  ["desktop_blocks/utils/throttle.hpp"], [("next-tick schedule with catch-up", "desktop_blocks/utils/throttle.hpp procedure")], [("next tick", "earliest time of the next sample", "desktop_blocks/utils/throttle.hpp")], ["simulated time stamps of output samples"])
p("C16", "File sink and file source keep file and stream identical under I/O faults",
  "At every moment, including a crash at any point, the file written by a file sink is an exact prefix of the sample stream fed to it, and after an orderly shutdown it is the whole consumed stream; on a write error or full disk the graph is told of a fatal I/O error and samples not written stay unconsumed, so that no sample is written twice or silently dropped. A file source delivers exactly the file's whole samples in order, from the start again on repeat and otherwise ending with the end-of-file notification exactly once, after all of them, whatever read sizes or interruptions the system imposes; a read error ends the graph with a fatal error and is not reported as the end of the file.",
  ["fault_sequences", "crash_points", "schedules", "inputs"], "every sequence of short, failed and interrupted reads and writes, crash points, file lengths and buffer sizes",
  "Tests write and read one small file on a healthy disk.",
  ["desktop_blocks/sinks/sink_file.hpp", "desktop_blocks/sources/source_file.hpp"], [("write-then-commit, fatal error on a short write", "desktop_blocks/sinks/sink_file.hpp"), ("whole-sample accounting of read bytes", "desktop_blocks/sources/source_file.hpp")], [], ["bytes on the simulated disk, samples delivered"])
p("C17", "Datagram blocks deliver what the network delivered, once, whole and in order",
  "A datagram source emits, in arrival order and with exact content, each received datagram of acceptable size (not empty, not larger than a packet or element) that its validator accepted, exactly once, and never emits one that was rejected, truncated, empty or failed (a datagram shorter than a fixed-size element fills its first bytes); receive interruptions, timeouts and errors on one datagram never discard, corrupt or hold back another, and never keep the graph from stopping. A datagram sink sends each element it takes from its input as exactly one datagram in order until a send fails, reports a failing socket as a fatal I/O error, and both release their sockets and socket files exactly once.",
  ["fault_sequences", "schedules", "histories"], "every sequence of datagram sizes, loss, duplication, reordering, errors and interruptions per system call, every validator verdict pattern, every back-pressure pattern",
  "There is no test for these blocks; even a loop-back test could not produce chosen error sequences.",
  ["desktop_blocks/udp/source_udp.hpp", "desktop_blocks/udp/sink_udp.hpp", "desktop_blocks/udp/shared.cpp"], [("receive loop with error classification", "desktop_blocks/udp/source_udp.hpp"), ("send loop", "desktop_blocks/udp/sink_udp.hpp"), ("socket ownership", "desktop_blocks/udp/shared.cpp")], [], ["elements on the output channel versus datagrams on the simulated network"])
p("C18", "Pooled packet buffers are never shared, corrupted or lost",
  "At any time each slot of a packet-buffer pool is either free or owned by exactly one packet in flight; two live packets never share memory and a packet's bytes do not change while its consumer holds it. After every packet has been released all slots are available again, for every interleaving of the thread that takes slots with the thread that releases them, and every error path in between.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of taking and releasing threads, every receive error and validator verdict",
  "No test uses the pool from two threads or drives the receive error paths.",
  ["desktop_blocks/blob.cpp", "desktop_blocks/blob.hpp", "desktop_blocks/udp/source_udp.hpp", "desktop_blocks/udp/sink_udp.hpp"], [("free list of slot indices", "desktop_blocks/blob.cpp")], [("free slots", "slots not owned by a packet", "desktop_blocks/blob.hpp")], ["slot ownership log, free-slot count"])
p("C19", "Radio and audio device blocks account for every sample under device faults",
  "A device source (HackRF, SoapySDR, CaribouLite, USRP) hands on exactly the samples its driver delivered, in order; only the HackRF source, whose driver cannot wait, drops samples, and only while its ring is full, counting every one. A device sink (HackRF, SoapySDR, audio, USRP) gives the driver exactly the samples of its input stream, in order, across short transfers, timeouts, underflows, errors, stops and re-runs; the HackRF sink sends all that is waiting, fills the rest of a transfer with silence and counts each transfer it could not fill. All channels of a USRP move in step. Driver callbacks and control calls may come at any moment while the graph runs. Device errors are reported as errors (fatal ones except for CaribouLite), timeouts and overflows are not, and the counters a block offers agree with what the driver reported. A failed construction or a destruction leaves the device closed exactly once and the driver library released, with no callback afterwards.",
  ["schedules", "fault_sequences"], "every interleaving of driver callbacks and control calls with the graph, every transfer size and driver status sequence",
  "These blocks need hardware and are not even compiled by the tests.",
  ["desktop_blocks/sources/source_hackrf.hpp", "desktop_blocks/sinks/sink_hackrf.hpp", "desktop_blocks/sources/source_soapysdr.hpp", "desktop_blocks/sinks/sink_soapysdr.hpp", "desktop_blocks/sources/source_cariboulite.hpp", "desktop_blocks/sinks/sink_audio.hpp", "desktop_blocks/sources/source_uhd.hpp", "desktop_blocks/sinks/sink_uhd.hpp"],
  [("hand-over channel between driver callback and graph", "desktop_blocks/sources/source_hackrf.hpp, desktop_blocks/sinks/sink_hackrf.hpp"), ("overflow / underrun counters", "same"), ("one streamer call for all channels", "desktop_blocks/sources/source_uhd.hpp, desktop_blocks/sinks/sink_uhd.hpp")], [], ["sample streams at the driver stand-ins"])
p("C20", "The logger keeps whole lines, in order per thread, with bounded backups",
  "Each message logged while the log file is open and writable appears in the current log file or one of its backups as exactly one intact line, in the order each thread logged them, however many threads log and while files are switched, closed, reopened or rotated concurrently. A file is rotated once it has reached the configured size, and never before; rotation keeps at most the configured number of backups and discards only the oldest; I/O errors and lack of memory lose or cut only the messages they hit and never crash, block or stop the program; when the file cannot be reopened after a rotation it counts as closed.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of logging and control calls, every I/O error sequence, every rotation setting",
  "There are no logger tests.",
  ["desktop_logger/desktop_logger.cpp", "desktop_logger/zf_log"], [("single lock around file operations", "desktop_logger/desktop_logger.cpp"), ("rename chain", "desktop_logger/desktop_logger.cpp rotate_log_files")], [("log file handle", "current output file", "desktop_logger/desktop_logger.cpp")], ["contents of the simulated log files"])
p("C21", "Display blocks hand data to the GUI thread without tearing or racing",
  "A plot or aircraft-display block may be drawn by the GUI thread at any moment while the flowgraph feeds it: what is drawn is always a consistent snapshot of the stream (contiguous, in order, never mixing freed or half-written data), and drawing never makes the graph lose its place, block forever or crash. Pausing, resizing or reconfiguring from the GUI thread is equally safe. What is known of an aircraft at any moment is exactly what its messages so far have said, its position included, also after minutes without reception.",
  ["schedules"], "every interleaving of the drawing thread with the processing thread",
  "The GUI blocks are not built or run by any test.",
  ["desktop_blocks/plots/plot_timeseries.cpp", "desktop_blocks/plots/plot_cspectrum.cpp", "desktop_blocks/plots/plot_cspectrogram.cpp", "desktop_blocks/adsb/adsb_aggregate.hpp"],
  [("snapshot mutex and buffers", "desktop_blocks/plots/*.cpp")], [], ["data handed to the drawing library"])
p("C22", "An ADS-B or GMSK receive chain decodes the same packets for any chunking",
  "The packet-producing receive blocks (ADS-B decoder, GMSK demodulator) emit the same messages in the same order for a given sample stream, however the stream is cut into calls and however full the output is; no message is lost, repeated or altered because it straddled a chunk boundary or met a full output.",
  ["schedules", "inputs", "histories"], "every chunking of the input, every back-pressure pattern on the output",
  "There are no tests for these blocks, and a fixed recording processed in one chunking cannot settle it.",
  ["desktop_blocks/adsb/adsb_decoder.hpp", "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"], [("sample carry-over between calls", "desktop_blocks/adsb/adsb_decoder.hpp")], [], ["message stream at the output channel"])
# --- pure functions: listed, not claimed
p("C23", "An audio file source plays every sample of its file once, in order",
  "The audio file source hands on every sample of the file's audio stream, converted to the output rate, exactly once and in order, from the start again on repeat and otherwise followed by the end-of-file notification exactly once and nothing more. This holds for every division of the file into packets and frames, for every delay of the decoder and the resampler, and however much room the output has in each call. Failures of reading, decoding, converting or rewinding end the graph with a fatal error after everything decoded before has been handed on; a constructor that fails and the destructor release everything, and stopping the graph never waits for the file.",
  ["fault_sequences", "schedules", "inputs", "histories"], "every division of the stream into packets, frames and calls, every delay and back-pressure pattern, every failing library call, stop at any point",
  "There is no test for this block; the losses depend on the room the output happens to have when a frame arrives.",
  ["desktop_blocks/sources/source_audio_file.hpp"], [("decode, convert, hand on what fits, keep the rest", "desktop_blocks/sources/source_audio_file.hpp procedure")], [("converted samples not handed on yet", "rest of a frame the output had no room for", "desktop_blocks/sources/source_audio_file.hpp")], ["samples on the output channel, end-of-file notifications, objects of the library left open"])
p("C24", "A coastline map loads exactly up to where its file is sound",
  "Loading a map file yields exactly the polylines of the file's complete and consistent records up to the first damaged or unreadable one, in order, and reports whether there is any. It never crashes, hangs or takes memory beyond what the file justifies, whatever the file contains, wherever it ends, whatever reads come back short or fail, and even if the file is rewritten meanwhile; the file is closed in every case.",
  ["fault_sequences", "inputs", "schedules"], "every map, every place the file ends or is damaged, every short or failing read, every rewriting meanwhile",
  "There is no test for the loader; its counts and offsets come from the file, and what it does depends on where reading stops.",
  ["desktop_blocks/adsb/adsb_coastline_loader.hpp"], [("record loop and polyline decoding", "desktop_blocks/adsb/adsb_coastline_loader.hpp load_from_shapefile")], [], ["loaded polylines against the file's, heap, open files"])
p("C25", "A window comes up complete or not at all, and each frame is shown once",
  "The window manager either comes up complete, with the requested size and title, or reports by an exception which leaves nothing behind, whichever of the window system, the window or the GUI backends refuses; a later attempt starts from scratch and can succeed. Each frame looks at the user's events, opens and renders exactly one GUI frame, and draws it into a cleared picture of the current size which is shown once, no faster than the display refreshes. The user's wish to close is seen, nobody else's is, and destruction releases everything in an order the libraries allow.",
  ["fault_sequences", "histories"], "every library call that refuses, every sequence of windows, every resize and every moment the user closes the window",
  "No test opens a window; the repository's build does not even compile this part without a display library.",
  ["desktop_blocks/gui/gui_manager.cpp", "desktop_blocks/gui/gui_manager.hpp"], [("construction, frame and destruction sequences", "desktop_blocks/gui/gui_manager.cpp")], [], ["calls made to the window system, OpenGL and GUI libraries, their live objects"])
p("C26", "The diagram tool draws each flowgraph whole or says that it did not",
  "For each source file it is given the diagram tool writes a diagram with exactly the blocks that are in the flowgraph, named and typed, and each of its connections once, whichever files were processed before, whatever an earlier diagram of that name contained, and however its reads and writes are divided. It reports a diagram as generated only when it is on disk whole. A source that is missing, cannot be read to its end or has no valid flowgraph, and a diagram that cannot be written whole, are reported and make the exit status non-zero, and never keep the other files from being drawn; files without a flowgraph are skipped without an error.",
  ["fault_sequences", "histories", "inputs"], "every sequence of files and runs, every failing or short read and write, full disks, every flowgraph of the generated forms",
  "There is no test for the tool; what it claims matters where reading or writing stops.",
  ["tools/mermaid/src"], [("read, parse, render, report", "tools/mermaid/src/main.cpp main"), ("file output", "tools/mermaid/src/mermaid_renderer.cpp render_to_file")], [], ["diagrams on disk against the model of the source, claimed files, exit status"])
p("C27", "The live preview ends up showing what was saved last",
  "Opening the preview of a C++ file shows that file's diagram, made from the text that was saved when it was asked for or from a later one, never part of a diagram and never another file's. From then on, while automatic updates are on, the preview shows the version saved last within bounded time, whatever was saved, changed or opened while the diagram tool was running; the preview asked for last is the one shown. A tool that is missing, fails, hangs or crashes, and a disk that refuses, are reported when a preview is asked for, leave a diagram already shown as it was, and do not keep later updates from succeeding. File names are only ever arguments of the tool, whatever characters they contain. The tool is run only on a file whose preview is shown or being opened, and with automatic updates off not for a change; changes are waited out for the configured delay; nothing runs after the extension is switched off.",
  ["schedules", "fault_sequences", "histories"], "every order of saves, changes, requests, tool runs and editor answers; every tool failure, hang and crash, disk error; every set of files",
  "There is no test for the extension; races between saving, opening and the tool's runs decide what is shown.",
  ["tools/mermaid/vscode-extension/src"], [("commands, watchers, delay", "tools/mermaid/vscode-extension/src/extension.ts"), ("runs of the tool, what is shown", "tools/mermaid/vscode-extension/src/previewProvider.ts PreviewPanel")], [], ["diagram opened in the preview and its file afterwards against the saved versions, messages, tool runs and their arguments"])
p("C28", "In a loop of one's own no block waits for another",
  "Called in turn from one thread without a flowgraph (streamlined mode), in whatever order and however often, every library block returns from each call having done what its room and samples allowed; it never waits inside the call for room or samples that only the same thread could provide, never reports a fatal error for a full output or an empty input, and at every moment holds back no sample beyond what its computation needs. The whole stream passes, with the same samples in the same order as in a flowgraph.",
  ["schedules", "inputs", "fault_sequences"], "every order of calls, amount of room and samples before each call, ring size; file, datagram and timer faults that blocks absorb",
  "Tests of blocks use flowgraphs or single calls with room to spare; whether a call waits depends on the room and samples that the history of calls left.",
  ["desktop_blocks", "README.md (streamlined architecture)"], [("each block's procedure", "desktop_blocks"), ("runner: block and outputs", "include/cler.hpp BlockRunner")], [], ["samples in, between and out after every call", "result of every call", "output compared with the reference stream", "steps without movement"])
p("C29", "The shipped example programs do what they show",
  "Each desktop or embedded example, run as shipped, shows, plays, transmits, records, sends or prints what its signal chain computes: plots carry exactly the samples that flowed, at the rate the program sets; spectra peak at the frequencies it generates or receives; devices are set to the frequencies, rates and gains it was asked for; recordings are the received samples; every packet and datagram printed is one that was sent, in order. It keeps running until it is told to stop: then it ends promptly, with success, its devices closed, its window gone and its threads joined. Wrong arguments are refused with a failure status. The embedded ones keep running on a preemptive as on a purely cooperative kernel after the task that started them has ended. Whatever the user does with window and controls meanwhile, no data is shared between threads without synchronisation.",
  ["schedules", "histories", "fault_sequences"], "every schedule, pace of the machine and of the devices, moment of closing or interrupting, use of the controls; late wake-ups, stalls, lost and repeated datagrams",
  "No test runs an example; only a whole program shows whether blocks, policy, GUI thread and devices fit together.",
  ["desktop_examples", "embedded_examples"], [("programs", "desktop_examples"), ("embedded programs", "embedded_examples"), ("GUI thread and block threads together", "desktop_blocks/plots, desktop_blocks/gui/gui_manager.cpp")], [], ["everything drawn, printed, transmitted, recorded or heard against the signal the program computes", "settings of the devices", "exit status, time and leftovers"])
p("C30", "Small value types behave for every input",
  "The result type carries exactly the value or error it was built from, and the fixed-capacity string truncates safely at its capacity and always stays terminated, for every content and length.",
  ["inputs"], "every value and string length", "Tests sample a few values.", ["include/cler_result.hpp", "include/cler_embeddable_string.hpp", "include/cler_utils.hpp"], [("tagged storage; bounded copy", "include/cler_result.hpp")])
p("C31", "Socket address strings parse exactly or are rejected",
  "Every well-formed address and port string yields that address and port, and every malformed or out-of-range one is rejected with an exception.",
  ["inputs"], "every string", "No test.", ["desktop_blocks/udp/shared.cpp"], [("parse", "desktop_blocks/udp/shared.cpp parse_address_string")])
p("C32", "Signal-processing results are numerically right",
  "Oscillators, windows, filters, resamplers, modulators and position decoding produce the mathematically specified values within floating-point tolerance for every parameter in range.",
  ["inputs"], "every parameter and signal", "Tests sample a few parameters.", ["desktop_blocks"], [("DSP arithmetic", "desktop_blocks")])
p("C33", "The diagram tool understands every way of writing a flowgraph",
  "Every C++ construct that declares a block or a connection is recognised by the diagram generator.",
  ["inputs"], "every source file", "No test.", ["tools/mermaid"], [("source scanner", "tools/mermaid/src")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
