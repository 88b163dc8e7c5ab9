"""What each check runs, and what its evidence says about it."""
REAL_STREAM = ["DataCompressionStream, DataDecompressionStream, Block, numa_spread (src/stream/*.cpp), compiled with memory-access instrumentation",
               "sw842/optsw842 codecs in the runs that pick them (all others use the stub codec)", "libstdc++, glibc pthread objects' users (std::thread, mutex, condition_variable)"]
STUB_STREAM = ["pthread scheduling, mutexes, condition variables, semaphores, clocks and sleeps: simulator", "stub codec (lossless on tagged chunks, otherwise 'does not fit') in most runs",
               "transport between the streams: simulated (reordering, delay, damage)", "libnuma, CPU affinity, processor counts: simulated topology", "allocator: simulator arena with fault injection"]
ASSUME_STREAM = ["sequentially consistent memory: weak-memory effects are covered only by the data race check (C08)",
                 "the user's callbacks behave as documented (they return, and do not destroy the stream)"]
STATE_STREAM = "hash of (blocks delivered or being delivered, codec calls and callbacks in flight, errors, cancellation, epoch) at every callback and push"

def S(prop, runs, rule, **kw):
    d = dict(parts=[dict(target="stream", runs=runs)], rule=rule, real=REAL_STREAM, stub=STUB_STREAM, assume=ASSUME_STREAM, state_measure=STATE_STREAM)
    d.update(kw)
    return d

PROPS = {
 "C01": S("C01", 10000, "One run = seeded pipeline: 1-3 operations of compression stream -> transport -> decompression stream, worker counts 1-8 on each side, sizes, data kinds, codecs, orders and schedules drawn. Non-trivial: at least two blocks in flight with more than one worker somewhere."),
 "C02": S("C02", 18000, "One run = 1-3 compression operations with seeded worker count, source size, data shapes, codec faults and schedule. Non-trivial: several blocks and several workers."),
 "C03": S("C03", 24000, "One run = operations finalized at a seeded moment (before, during, after the work, from a block callback), with stalls and spurious wake-ups. Non-trivial: finalize raced with unfinished work."),
 "C04": S("C04", 24000, "One run = operations with codec errors per chunk or per batch, or with damaged blocks pushed. Non-trivial: a fault actually fired."),
 "C05": S("C05", 28000, "One run = a stream cancelled or destroyed in a seeded phase with seeded work outstanding. Non-trivial: work was outstanding."),
 "C06": S("C06", 20000, "One run = compression operations with an epoch multiple. Non-trivial: at least two epochs and two workers."),
 "C07": S("C07", 18000, "One run = successive operations with different outcomes on the same streams. Non-trivial: an operation followed an unsuccessful or cancelled one."),
 "C08": S("C08", 7000, "One run = any of the stream scenarios with the vector-clock race detector on. Non-trivial: several threads touched shared state."),
 "C13": S("C13", 6000, "One run = stream operations with allocations and thread creations failing at seeded occurrences, then the same again without faults. Non-trivial: a failure fired."),
 "C18": S("C18", 10000, "One run = a stream created on a seeded topology with seeded query/affinity failures. Non-trivial: at least two nodes and two threads."),
}

REAL_CODEC = ["sw842 and optsw842 compressors and decompressors, batch functions, implementation getters (src/serial, src/serial_optimized, src/common)"]
STUB_STORE = ["the store between writer and reader: simulated, with seeded damage", "an independent reference writer/reader of the format as a further peer", "allocator: wrapped, with fault injection", "single caller: no scheduler in these runs"]
STUB_CODEC = ["pthread scheduling: simulator (preemption at every instrumented memory access of the codecs)", "allocator: simulator arena, fresh memory filled with run-dependent garbage"]
ASSUME_STORE = ["AddressSanitizer and canaries see every access outside a buffer", "the reference reader/writer in harness/ref842.h interprets the format correctly (cross-checked by reading all real writers' output)"]

def store(runs): return dict(target="store", runs=runs)
def T(parts, rule, **kw):
    d = dict(parts=parts, rule=rule, real=REAL_CODEC, stub=STUB_STORE, assume=ASSUME_STORE, state_measure="hash of (return code, decoder, writer, kind of capacity and alignment, number of damages) per call")
    d.update(kw)
    return d

PROPS["C08"]["parts"].append(dict(target="codec", runs=4000))
PROPS["C04"]["parts"].append(dict(target="stream_nd", runs=4000))
PROPS["C04"]["rule"] += " Part of the runs: the code built without assertions."
PROPS["C08"]["rule"] += " Part of the runs: concurrent callers of the codecs and getters."
PROPS["C13"]["parts"].append(store(3000))
PROPS["C13"]["rule"] += " Part of the runs: codec calls with the nth or a random subset of their allocations failing."
PROPS.update({
 "C09": T([dict(target="codec", runs=14000), store(6000)], "One run = 2-5 simulated threads with 1-4 codec calls each (single, batch, getter; both implementations; seeded data, alignment, capacity, damage), every call compared with the same call made alone beforehand; or chunks of every writer read by every reader. Non-trivial: calls overlapped, or a chunk crossed implementations.",
          stub=STUB_CODEC + STUB_STORE[:2], assume=["sequentially consistent memory"], state_measure="hash of (calls in progress, implementation, operation, thread progress) at every call"),
 "C10": T([store(16000)], "One run = 1-3 chunks by seeded writers, then up to 50 reads, each after 0-3 seeded damages, with seeded decoder, capacity and alignments, done twice with different surrounding memory. Non-trivial: a damaged chunk was read."),
 "C11": T([store(32000)], "One run = 1-3 chunks, then up to 250 reads after seeded damage. Non-trivial: at least one read of actually changed bytes."),
 "C12": T([dict(target="store", runs=14000, timeout=150)], "One run = one chunk and up to 40 calls with seeded capacities around and below the need, and seeded alignments (some with room, lengths or chunks beyond 4 GiB). Non-trivial: the destination was too small in at least one call, or the sizes exceed 32 bits.", state_measure="hash of (return code, operation, implementation, bytes missing, length of the result modulo 64, alignments) per call"),
 "C14": T([store(28000)], "One run = one batch of 0-13 chunks with seeded skipped, damaged, incompressible, too tight and out-of-memory chunks and strides (also beyond 4 GiB), compared with single calls. Non-trivial: more than one chunk."),
})
PROPS["C08"]["parts"].append(dict(target="cryptodev", runs=3000))
PROPS["C17"] = T([dict(target="cryptodev", runs=40000), dict(target="cryptodev_ns", runs=12000)],
  "One run = 2-4 waves of 1-4 simulated threads, each making 1-4 calls (single, batch, getter, availability) with seeded data, alignment, capacity and damage against the simulated device while system calls, allocations and thread-specific storage fail at seeded moments; the last wave is fault-free. Non-trivial: several threads, or a call hit by a fault. Second part: kernel module without CIOCGSESSINFO.",
  real=["the cryptodev implementation (src/cryptodev/842_interface.c), compiled with memory-access instrumentation", "sw842 as the simulated device's engine"],
  stub=["/dev/crypto: open, close, access, fcntl, ioctl simulated (sessions, descriptors, alignment, per-call failures); cryptodev.h declares the subset of the module's interface used here", "pthread scheduling, thread-specific storage and its destructors, call_once: simulator", "allocator: simulator arena with fault injection"],
  assume=["the simulated device behaves as the kernel module does where the library depends on it", "sequentially consistent memory"],
  state_measure="hash of (this thread's and all open descriptors, return code, whether a fault hit the call, whether a session existed) at the end of every call")
REAL_CL = ["CLHostDecompressor, CLDeviceDecompressor, program cache, cl842_decompress (src/ocl/cl842decompress.cpp) and the OpenCL C++ bindings",
           "the OpenCL kernel (src/ocl/decompress.cl): the real source with the real build options, compiled natively by clang and run work-item by work-item",
           "sw842/optsw842 compressors as writers"]
STUB_CL = ["OpenCL platform: contexts, queues, buffers, programs, binaries, events simulated in process; commands complete at simulated moments, any call or command can fail",
           "the OpenCL driver's program binaries (strict and lax about what they load)", "disk under /tmp/cl842*: simulated (failing, short and torn operations, crash, read-only, later damage) over a scratch directory"]
ASSUME_CL = ["the simulated OpenCL runtime keeps to the OpenCL 1.2 specification", "x86-64 code generated by clang for the kernel behaves like the device's",
             "in-place chunks are within the lookahead the header documents as the limit of that mode"]
PROPS["C13"]["parts"].append(dict(target="clt", runs=3000))
PROPS["C13"]["rule"] += " Part of the runs: OpenCL decompression with allocations failing."
PROPS["C08"]["parts"].append(dict(target="clt", runs=2000))
PROPS["C15"] = T([dict(target="cl", runs=9000), dict(target="clt", runs=2000)],
  "One run = 1-7 lives of a process constructing and using a decompressor on a seeded platform, each with a seeded disk behaviour (failing operations, crash at the nth mutation, read-only), with damage to the file, rolled back contents, driver, device and library changes in between, then two healthy lives that must repair and use the cache. Second part: several processes (as simulated threads) reading and writing the cache at once. Non-trivial: a disk fault, a crash or damage occurred.",
  real=REAL_CL, stub=STUB_CL, assume=ASSUME_CL, state_measure="hash of (program identity in use, crashed, files present) after every life, and per-chunk outcome classes")
PROPS["C16"] = T([dict(target="cl", runs=12000), dict(target="clt", runs=6000)],
  "One run = decompressors for two seeded formats and chunk sizes on a seeded platform, several batches of 1-12 chunks each (compressed, verbatim, skipped, damaged, too tight; with and without sizes, codes and shuffle map; offsets) through the host, device or C interface while API calls and commands fail, work-items in seeded order. Second part: work-items interleaved by simulated threads with race detection, concurrent host threads. Non-trivial: several chunks, or a failure fired.",
  real=REAL_CL, stub=STUB_CL, assume=ASSUME_CL, state_measure="hash of (format, kind of chunk, damage, capacity, return code, optional arguments given) per chunk")
PROPS["C21"] = T([dict(target="cuda", runs=8000)],
  "One run = 1-4 launches on 1-3 streams, each of 1-33 chunks (from both compressors and the reference writer) in a seeded grid, or a huge grid of which seeded threads are looked at; device threads advance in seeded slices, copies go piecewise, launches and copies fail and are repeated, launches are aborted at any instruction and restarted. Non-trivial: several chunks, or a launch beyond 4 GiB.",
  real=["the CUDA kernel (src/cuda/842_decompress.cu with its inline PTX assembly), compiled by clang's CUDA front end and NVPTX back end from the current source", "sw842/optsw842 compressors as writers"],
  stub=["the device: a PTX machine (harness/ptx.h) executing every thread instruction by instruction, registers and memory holding seeded garbage at first", "streams, copies and launches: simulated host side", "CUDA toolkit headers: the few declarations device code needs (stubs/cuda_device.h)"],
  assume=["nvcc translates the kernel like clang's NVPTX back end does", "harness/ptx.h implements PTX for the instructions it accepts (others are refused)", "sequentially consistent device memory: threads share nothing writable, which is checked"],
  state_measure="hash of (instructions a thread took, size of its chunk) at the end of every device thread")
PROPS["C22"] = T([dict(target="accel", runs=20000)],
  "One run = 1-4 operations (stream round trips of 1-3 blocks with 1-4 workers on each side, single and batch calls) on one accelerator implementation, over a device with a seeded alignment demand that is absent, refuses sessions or fails requests in seeded stretches; the last operation meets a working device. Non-trivial: several workers, or an operation that failed.",
  real=["the cryptodev implementation (src/cryptodev/842_interface.c) and the AIX implementation (src/aix/aix.c)", "DataCompressionStream, DataDecompressionStream, Block (src/stream/*.cpp)"],
  stub=["/dev/crypto and the AIX accelerator calls: simulated devices with alignment demands and failures", "what the devices compute: a stub engine (lossless on tagged chunks, otherwise 'does not fit')", "pthread scheduling, thread-specific storage, call_once: simulator"],
  assume=["the simulated devices behave as the kernel module and AIX do where the library depends on it", "sequentially consistent memory", "the application aligns its buffers as the implementation says it prefers"],
  state_measure="hash of (outcome, whether the device failed, open descriptors, sessions so far, implementation, alignment) at the end of every stream operation")
PROPS["C23"] = T([dict(target="hls", runs=32000)],
  "One run = 1-4 chunks from both compressors or the reference writer sent back to back as 128-bit stream elements, some cut short or damaged, through FIFOs of seeded depth with a sender and a receiver that stall at seeded moments. Non-trivial: several chunks, or one cut short or damaged.",
  real=["the tokenizer process of the HLS decompressor (src/hls/842_decomp.cpp)", "sw842/optsw842 compressors as writers"],
  stub=["ap_int.h, hls_stream.h: arbitrary-width integers over _BitInt, bounded blocking FIFOs", "sender and receiver: simulated, stalling, cutting short, damaging", "pthread scheduling: simulator"],
  assume=["ap_uint and hls::stream behave as in stubs/hls (widths, bit selection, blocking reads and writes)", "synthesis preserves the behaviour of the C++ source"],
  state_measure="hash of (operation, fill of both FIFOs, last flag, kind of chunk) at every token received")
PROPS["C24"] = T([dict(target="tools", runs=14000), dict(target="cl", runs=2400)],
  "One run = one whole execution of cl2c, compdecomp (OpenMP) or compdecomp_streams on a seeded file (or the test string), with seeded processor count and team, while file operations fail, are interrupted or short, disks fill, the file changes between being measured and read, allocations, threads or codec calls fail, codec calls corrupt data, and the wall clock jumps; or 2-3 round trips of compdecomp_cl (each of its formats, chunks in order or sorted) on a simulated OpenCL platform while OpenCL calls, kernels or allocations fail and compressed chunks are damaged before they are decompressed. Non-trivial: something failed, or several threads.",
  real=["src/tools/cl2c.cpp", "sample/compdecomp_cl.cpp (its two cores) over src/ocl/*.cpp and decompress.cl", "sample/compdecomp.c (with its OpenMP directives), sample/compdecomp_streams.cpp, sample/compdecomp_driver.c", "src/stream/*.cpp", "optsw842 codec for chunks the stub engine does not take"],
  stub=["files: simulated at the C library's read/write level below iostreams, and at stdio level", "codec: a stub engine (lossless on tagged chunks) that fails, says the output is too small or corrupts data", "OpenMP run time: team of simulated threads (static schedule)", "pthread scheduling, clock, processor count, environment: simulated", "OpenCL platform: the harness's (see C16); compdecomp_cl's OpenMP loops run in one thread, its driver is not part of those runs"],
  assume=["libstdc++'s file streams and clang's OpenMP lowering are right", "writes to standard output do not fail", "C++ allocations of the programs themselves do not fail"],
  state_measure="hash of (program, exit status, kinds of failure, processors, team, files opened, size)")
PROPS["C19"] = T([dict(target="det", runs=18000)],
  "One run = 1-3 inputs, some nearly equal, compressed up to 25 times in a seeded order, alone or in a batch, with a seeded call before (failed for lack of room, out of memory, damaged chunk, other writer, none), after stack and fresh memory were filled with seeded content (noise, one byte, what an earlier block of the size held), at seeded addresses and capacities; all outputs of one input must be equal and within the literal bound. Non-trivial: an input was compressed again.",
  real=["sw842 and optsw842 compressors and batch functions (src/serial, src/serial_optimized, src/common)"],
  stub=["allocator: contents of fresh memory and failures decided by the simulator", "stack contents below the call and surrounding memory: filled by the simulator", "single caller: no scheduler in these runs (C09 decides concurrent callers)"],
  assume=["the compilers' code for uninitialised locals reads what is in memory (-ftrivial-auto-var-init=uninitialized)"],
  state_measure="hash of (compressor, kind of fresh contents, alignments, capacity, compression ratio, call number) per call")
PROPS = dict(sorted(PROPS.items()))

LEVEL_NOTE = "Seeded search over schedules and fault sequences of the real code: a clean batch is evidence, not proof. Each violation is reproduced from the same seed and from its minimised trace in a fresh process before it is reported."
NOT_APPLICABLE = {
 "C20": "pure function of its input: no schedule, fault, clock or I/O for a simulator to decide",
}
