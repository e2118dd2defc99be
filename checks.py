# What each check runs.  use: [(harness, [scenarios])]
COMMON_ASSUMPTIONS = [
    "The code under test is compiled by clang -O1 with ThreadSanitizer instrumentation; a defect that only another compiler or optimisation level introduces is not seen.",
    "Weak-memory behaviour is modelled by letting atomic loads return older stores permitted by happens-before and coherence, and by reporting every data race; out-of-thin-air and load-buffering outcomes are not generated.",
    "Seeded search: a clean batch is evidence over the runs made, not a proof.",
]
HARNESS = {
    "spsc": {"parts": 8}, "vmem": {},
    "fg": {},
    "blocks": {"flags": ["-isystem", "/usr/include/liquid"], "libs": ["-lliquid"] + ["-Wl,--wrap=" + f for f in
        ("firfilt_rrrf_execute_block", "firfilt_crcf_execute_block", "freqdem_demodulate_block", "firpfbch_crcf_analyzer_execute", "msresamp_rrrf_execute", "msresamp_crcf_execute")]},
    "flow": {},
    "udp": {"src": ["$REPO/desktop_blocks/blob.cpp", "$REPO/desktop_blocks/udp/shared.cpp"]},
    "logger": {"inc": ["$REPO/desktop_logger", "$REPO/desktop_logger/zf_log"], "src": ["$REPO/desktop_logger/desktop_logger.cpp", "$REPO/desktop_logger/zf_log/zf_log.c"], "libs": ["-Wl,--wrap=atexit"]},
    "rtos": {"inc": ["$HERE/harness/rtos", "$REPO"]},
    "dev": {"inc": ["$HERE/harness/dev"]},
    "gui": {"inc": ["$HERE/harness/gui", "$REPO/desktop_blocks/plots", "$REPO/desktop_blocks/adsb"], "flags": ["-isystem", "/usr/include/liquid"], "libs": ["-lliquid"],
            "src": ["$REPO/desktop_blocks/plots/plot_timeseries.cpp", "$REPO/desktop_blocks/plots/plot_cspectrum.cpp", "$REPO/desktop_blocks/plots/plot_cspectrogram.cpp", "$REPO/desktop_blocks/adsb/cpr.c"]},
}
HARNESS["rx"] = {"inc": ["$HERE/harness/rx", "$REPO/desktop_blocks/adsb", "$REPO/desktop_blocks/ezgmsk"], "flags": ["-isystem", "/usr/include/liquid"], "libs": ["-lliquid"],
    "src": ["$REPO/desktop_blocks/adsb/modes.c", "$REPO/desktop_blocks/adsb/modes_2400.c", "$REPO/desktop_blocks/ezgmsk/_ezgmsk_demod.c", "$REPO/desktop_blocks/ezgmsk/_ezgmsk_mod.c", "$REPO/desktop_blocks/blob.cpp"]}
HARNESS["coast"] = {}
HARNESS["diagram"] = {"inc": ["$HERE/harness/ts", "$REPO/tools/mermaid/src"], "src": ["$REPO/tools/mermaid/src/cpp_parser.cpp", "$REPO/tools/mermaid/src/mermaid_renderer.cpp", "$REPO/tools/mermaid/src/flowgraph.cpp"]}
HARNESS["win"] = {"inc": ["$HERE/harness/win", "$REPO/desktop_blocks/gui"], "src": ["$REPO/desktop_blocks/gui/gui_manager.cpp"]}
HARNESS["examples"] = {"inc": ["$HERE/harness/ex", "$HERE/harness/dev", "$HERE/harness/win", "$HERE/harness/rx", "$REPO/desktop_blocks/plots", "$REPO/desktop_blocks/adsb", "$REPO/desktop_blocks/gui", "$REPO/desktop_blocks/ezgmsk"], "flags": ["-isystem", "/usr/include/liquid", "-w", "-fno-strict-return"], "libs": ["-lliquid"],
    "src": ["$REPO/desktop_blocks/gui/gui_manager.cpp", "$REPO/desktop_blocks/blob.cpp", "$REPO/desktop_blocks/udp/shared.cpp"] + ["$REPO/desktop_blocks/plots/plot_%s.cpp" % k for k in ("timeseries", "cspectrum", "cspectrogram")] + ["$REPO/desktop_blocks/adsb/%s.c" % k for k in ("cpr", "modes", "modes_2400")] + ["$REPO/desktop_blocks/ezgmsk/_ezgmsk_demod.c", "$REPO/desktop_blocks/ezgmsk/_ezgmsk_mod.c"]}
HARNESS["preview"] = {"js": "$REPO/tools/mermaid/vscode-extension/src"}
HARNESS["afile"] = {"inc": ["$HERE/harness/av", "$HERE/harness/dev"], "flags": ["-fno-strict-return"]}
RT = "libstdc++ (compiled parts) is real; scheduling, clocks, heap, pthread, file, socket and mmap calls are the simulator's"
PROPS = {}

def P(id, **kw):
    kw.setdefault("stub", [RT]); PROPS[id] = kw

P("C01", use=[("spsc", ["stack", "heap", "dbf", "obj"])],
  nontrivial="more elements passed through the channel than it has slots (the ring wrapped at least once).",
  real=["include/cler_spsc-queue.hpp", "include/cler.hpp Channel", "include/virtual_memory/cler_vmem_posix.hpp", "include/cler_platform.hpp"])
P("C02", use=[("spsc", ["stack", "heap", "dbf", "obj"])],
  nontrivial="more elements passed through the channel than it has slots (every slot changed hands).",
  real=["include/cler_spsc-queue.hpp", "include/cler.hpp Channel"])
P("C03", use=[("spsc", ["stack_exact", "heap_exact", "dbf_exact"])],
  nontrivial="more elements passed through the channel than it has slots.",
  real=["include/cler_spsc-queue.hpp", "include/cler.hpp Channel"])
P("C04", use=[("spsc", ["geom", "dbf", "dbf_exact"])],
  nontrivial="more elements passed through the channel than it has slots, or (geom) both ring indices were moved across the end of the ring.",
  real=["include/cler_spsc-queue.hpp", "include/cler.hpp Channel", "include/virtual_memory/cler_vmem_posix.hpp", "include/cler_platform.hpp"])
P("C05", use=[("vmem", ["create", "create_fault"])],
  nontrivial="several threads created channels at once, or a system call or allocation failed during a creation.",
  real=["include/cler_spsc-queue.hpp", "include/cler.hpp Channel", "include/virtual_memory/cler_vmem_posix.hpp", "include/cler_platform.hpp"])
FG = ["include/cler.hpp FlowGraph, FixedThreadPoolScheduler", "include/task_policies/cler_desktop_tpolicy.hpp", "include/cler_spsc-queue.hpp"]
FGS = [RT, "blocks are scripted test blocks of the harness"]
def F(id, scen, nt): P(id, use=[("fg", scen)], nontrivial=nt, real=FG, stub=FGS)
F("C06", ["excl"], "at least two blocks ran.")
F("C07", ["starve", "flow"], "every block was called the demanded number of times / the demanded number of elements went through.")
F("C09", ["life", "life_fault"], "at least one block was called before the stop.")
F("C10", ["fatal", "soft"], "a block failed fatally, or all blocks kept running through soft errors.")
F("C11", ["runfor"], "the wall clock jumped during the run, or the duration exceeds the 100 ms at which the waiting strategy changes.")
F("C12", ["sleep", "wake"], "some block backed off at least twice, or a sleeping chain was woken.")
F("C13", ["stats", "meter", "report"], "statistics of at least one called block were compared, the report of a graph without them was read, or a buffer of samples passed the meter, or the wall clock jumped.")
PROPS["C13"]["real"] = FG + ["include/cler_desktop_utils.hpp", "desktop_blocks/utils/throughput.hpp"]

P("C08", use=[("blocks", ["map", "multi", "resample", "gen", "null", "chain"])],
  nontrivial="the whole stream (more samples than any ring holds) went through the block.",
  real=["desktop_blocks/math", "desktop_blocks/utils/fanout.hpp, throughput.hpp", "desktop_blocks/noise", "desktop_blocks/filters", "desktop_blocks/fm", "desktop_blocks/resamplers", "desktop_blocks/channelizers", "desktop_blocks/sinks/sink_null.hpp", "desktop_blocks/sources/source_cw.hpp, source_chirp.hpp"] + FG,
  stub=[RT, "liquid-dsp is the real library, uninstrumented: link-time wrappers report what it reads and writes in channel windows"])
P("C15", use=[("flow", ["throttle", "pace"])],
  nontrivial="all samples went through the throttle (with pauses of its neighbours, stalls or clock jumps chosen per run).",
  real=["desktop_blocks/utils/throttle.hpp"] + FG)
P("C16", use=[("flow", ["fsink", "fsource"])],
  nontrivial="more than one stdio buffer was written, a write failed, or at least one sample was read back.",
  real=["desktop_blocks/sinks/sink_file.hpp", "desktop_blocks/sources/source_file.hpp", "libc stdio and libstdc++ filebuf above the simulated file descriptors"] + FG)
P("C19", use=[("dev", ["hackrf_rx", "hackrf_tx", "soapy_rx", "soapy_tx", "caribou", "audio", "uhd_rx", "uhd_tx"])],
  nontrivial="the driver made more than two transfers.",
  real=["desktop_blocks/sources/source_hackrf.hpp, source_soapysdr.hpp, source_cariboulite.hpp, source_uhd.hpp", "desktop_blocks/sinks/sink_hackrf.hpp, sink_soapysdr.hpp, sink_audio.hpp, sink_uhd.hpp"] + FG,
  stub=[RT, "libhackrf, SoapySDR, CaribouLite, PortAudio and UHD are stand-ins (harness/dev) that follow the libraries' documented contracts"])
P("C20", use=[("logger", ["log", "start"])],
  nontrivial="a file was rotated, files were switched or closed while threads logged, or a write failed.",
  real=["desktop_logger/desktop_logger.cpp", "desktop_logger/zf_log/zf_log.c", "libc stdio above the simulated files"])
P("C17", use=[("udp", ["usrc", "trickle", "usnk", "relay"])],
  nontrivial="more than three datagrams went through, or a constructor was refused or a socket failed.",
  real=["desktop_blocks/udp", "desktop_blocks/blob.cpp"] + FG,
  stub=[RT, "the sockets and the network are simulated at the system-call boundary"])
P("C18", use=[("udp", ["slab", "usnk", "relay"])],
  nontrivial="more packets were in flight over the run than the pool has slots, or a constructor was refused.",
  real=["desktop_blocks/blob.cpp, blob.hpp", "desktop_blocks/udp"] + FG,
  stub=[RT, "the sockets and the network are simulated at the system-call boundary"])
P("C21", use=[("gui", ["timeseries", "spectrum", "spectrogram", "aircraft"])],
  nontrivial="the stream is longer than the picture, or the picture moved on while it was drawn, or several aircraft sent more than 200 messages.",
  real=["desktop_blocks/plots", "desktop_blocks/adsb/adsb_aggregate.hpp, cpr.c", "liquid-dsp FFT"] + FG,
  stub=[RT, "Dear ImGui and ImPlot are stand-ins (harness/gui) that look at what they are handed"])
P("C22", use=[("rx", ["adsb2", "adsb24", "gmsk"])],
  nontrivial="more than three messages came from a stream cut into more than three pieces, or at least two packets were received.",
  real=["desktop_blocks/adsb/adsb_decoder.hpp, modes.c, modes_2400.c", "desktop_blocks/ezgmsk", "desktop_blocks/blob.cpp", "liquid-dsp (uninstrumented)"] + FG,
  stub=[RT, "the air: Mode S and GMSK signals are made by the harness (Mode S) or the real modulator block (GMSK)"])
P("C23", use=[("afile", ["afile"])],
  nontrivial="more samples were handed on than the ring holds, or the whole file was, or a constructor was refused.",
  real=["desktop_blocks/sources/source_audio_file.hpp"] + FG,
  stub=[RT, "FFmpeg's demuxer, decoder and resampler are stand-ins (harness/av) that follow the libraries' documented contracts"])
P("C24", use=[("coast", ["coast"])],
  nontrivial="the map has more than three polylines and could be opened.",
  real=["desktop_blocks/adsb/adsb_coastline_loader.hpp", "libstdc++ file streams"])
P("C25", use=[("win", ["window"])],
  nontrivial="a window was refused, or more than one frame was shown.",
  real=["desktop_blocks/gui/gui_manager.cpp"],
  stub=[RT, "GLFW, OpenGL, Dear ImGui and its backends, and ImPlot are stand-ins (harness/win) that enforce the libraries' calling rules"])
P("C26", use=[("diagram", ["diagram"])],
  nontrivial="at least one diagram was claimed and compared with its source.",
  real=["tools/mermaid/src", "libstdc++ file streams"],
  stub=[RT, "tree-sitter is a stand-in (harness/ts) with tree-sitter-cpp's node types for the constructs the generated sources use"])
P("C27", use=[("preview", ["preview"])],
  nontrivial="a preview was shown and compared with the version of its file that was saved last.",
  real=["tools/mermaid/vscode-extension/src (translated by TypeScript, as its own build does)"],
  stub=["the editor's API, the diagram tool's processes, the shell, the file system, timers and the clock are simulated (harness/js); Node's promises are real"])
P("C28", use=[("blocks", ["loop"]), ("flow", ["floop"]), ("udp", ["uloop"])],
  nontrivial="the whole stream went through the blocks, called by hand from one thread.",
  real=["desktop_blocks/math, utils, noise, filters, fm, resamplers, channelizers, udp", "desktop_blocks/sinks/sink_null.hpp, sink_file.hpp", "desktop_blocks/sources/source_cw.hpp, source_chirp.hpp, source_file.hpp", "include/cler_spsc-queue.hpp, include/cler.hpp BlockRunner"],
  stub=[RT, "liquid-dsp is the real library, uninstrumented"])
P("C29", use=[("examples", ["hello", "freq", "plots", "msd", "poly", "flowgraph", "streamlined", "selectable", "udpex", "gmskex", "giq", "cw", "hspec", "cspec", "crec", "soapyex", "fm", "adsb", "uhd"]), ("rtos", ["ex_freertos", "ex_threadx", "ex_zephyr", "ex_baremetal"]), ("afile", ["play"])], time={"examples": 10.0, "rtos": 2.0, "afile": 1.0},
  nontrivial="the program drew more than two frames, delivered output, or refused its arguments.",
  real=["desktop_examples (main() of 20 programs, whole)", "embedded_examples (all four programs, whole)", "every library block and header they use", "desktop_blocks/gui/gui_manager.cpp, plots, adsb, ezgmsk, blob, udp", "include/"],
  stub=[RT, "window system, OpenGL, ImGui and ImPlot (harness/ex): checks of their calling rules, what is drawn is recorded", "HackRF, CaribouLite, SoapySDR and PortAudio: simulated devices", "liquid-dsp is the real library, uninstrumented", "FreeRTOS, ThreadX and Zephyr: simulated kernels (harness/rtos)", "the user: closes the window, presses Ctrl+C, moves controls"])
P("C14", use=[("rtos", ["freertos", "threadx", "zephyr", "zephyr_exit", "freertos_graph", "threadx_graph", "zephyr_graph"])],
  nontrivial="at least two tasks ran, a kernel refusal was injected, or a pipeline moved the demanded number of elements.",
  real=["include/task_policies/cler_freertos_tpolicy.hpp", "include/task_policies/cler_threadx_tpolicy.hpp", "include/task_policies/cler_zephyr_tpolicy.hpp", "include/cler.hpp FlowGraph"],
  stub=[RT, "the three kernels are simulated (harness/rtos): semaphores and threads known by the address of their control block"])

PENDING = "not decided yet by the machinery in /verif"
PURE = "A pure function of its input: no schedule, clock, fault, I/O or history it depends on, so there is nothing for a simulator to decide."
NOT_APPLICABLE = {"C30": PURE, "C31": PURE, "C32": PURE + " (Chunking and scheduling aspects of the same blocks are covered by C08.)",
                  "C33": "Which C++ constructs the tool recognises depends on one text and an external grammar only; no schedule, clock, fault or history is involved. (Files, failures and histories of runs are C26.)"}
for _i in range(1, 28):
    if "C%02d" % _i not in PROPS: NOT_APPLICABLE.setdefault("C%02d" % _i, PENDING)
