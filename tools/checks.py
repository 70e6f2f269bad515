"""Per-property worlds and budgets."""
REAL = ["all C and C++ sources named in build/general/Makefile.inc, compiled from /repo's working tree with access instrumentation", "header-only code (AsynchronousTask, BlockAllocator, MedianFilter, Window)", "libstdc++, libm"]
STUB = ["pthread threads, mutexes, conditions (simulated, POSIX semantics incl. spurious wakeups)", "clocks and sleeps (virtual)", "malloc/free (deterministic arena with shadow memory)", "rand/srand (seeded per thread)", "Fortran I/O of a never-expected warning in dlamch.c (no-op)"]

def T(runs, wall, cpu=40):
    return {"runs": runs, "wall": wall, "cpu": cpu}

CHECKS = {}
def add(pid, worlds, rule, quick, thorough, assumptions=()):
    CHECKS[pid] = {"worlds": worlds, "rule": rule, "quick": quick, "thorough": thorough, "assumptions": list(assumptions)}

POSIX = "POSIX pthread semantics as modelled by the simulator; code outside the instrumented sources does not synchronise threads"
add("C01", "async", "Seeded request/obtain histories on 1-3 caller threads with 1-3 AsynchronousTask workers each, under seeded preemption at every memory access and synchronisation call, PCT priorities, spurious wakeups, stalls, clock jumps.", T(500000, 60), T(4000000, 700), [POSIX])
add("C02", "async", "Seeded create/request/destroy histories of AsynchronousTask workers (destruction at arbitrary points after the last obtained result, including before the worker first ran), same faults as C01.", T(500000, 60), T(4000000, 700), [POSIX])
add("C03", "mutex", "Seeded lock/trylock/unlock/MutexLocker/foreign-unlock histories by 2-4 threads over 1-2 mutexes under seeded preemption.", T(500000, 60), T(4000000, 700), [POSIX])
add("C04", "cond", "Seeded producer/consumer token histories and timed waits with timeouts placed around second boundaries, under preemption, spurious wakeups, stalls and wall-clock jumps.", T(500000, 60), T(4000000, 700), [POSIX])
add("C05", "thread", "Seeded new/start/wait/destroy/restart histories of Thread objects by 1-3 owner threads with injected thread creation failures.", T(500000, 60), T(4000000, 700), [POSIX])

MODEL = "the reference model in /verif/sim (written from the definition, sharing no code with the library unless DESIGN.md says so)"
add("C06", "mix", "2-4 clients on their own threads, each driving a seeded call history on one of 32 kinds of component (often the same kind twice), preempted down to single memory accesses of shared and static data; every client's results are compared bit for bit with the same client run alone in a fresh process (also with its thread-local storage swapped between calls).", T(42000, 85), T(600000, 720), [POSIX, "the C random generator is per thread in the simulator"])
add("C07", "environment", "One seeded set of call histories executed three times: plainly; with another fresh-memory content, heap layout and prior heap use, stack contents, clock, random state and schedule; and after another client's objects lived and died in the process. All results are compared bit for bit.", T(40000, 85), T(600000, 720), ["srand's argument is fixed for the randomly initialised HMM and clustering code, as the property allows"])
add("C08", "segmentation", "Seeded HMM training, decoding, segmentation and ClusterMeltSegmenter histories under varying random states, clocks and clock jumps: probabilities, ranges, most probable path against an independent Viterbi, tiling of segments.", T(40000, 70), T(1000000, 720), [MODEL])
add("C20", "keymode", "Seeded frame histories (chords, tones, silence, changes) through GetKeyMode with window lengths 1-11 frames and every decimation and overlap, against a model with sliding chroma and key windows; ties and vanishing chroma accept every admissible key.", T(12000, 80), T(300000, 720), [MODEL, "chroma frames come from the library's own Decimator and Chromagram (C12, C18)"])
add("C21", "safety*4,async,mutex,cond,thread", "Every component and thread object driven through legal histories over its whole configuration range with exact-size caller buffers, varying heap layout, fill, stack contents, allocation failures for BlockAllocator and preemption; shadow memory decides every instrumented access and every free.", T(90000, 80), T(2000000, 720), ["accesses by uninstrumented code (libc, libstdc++ binaries) are checked only through the memory functions the simulator intercepts"])
add("C22", "lifetime*3,async,thread", "Every component's history, cut off at a seeded point by destruction and repeated three times in one process: the live blocks attributed to the client must not grow with every life, every thread must be gone and joined.", T(90000, 80), T(2000000, 720), ["memory kept once per process is not a leak"])
add("C09", "blockallocator", "Seeded allocate/deallocate histories (LIFO, FIFO, random, whole-block, null, destroy/recreate, over half a million live elements) with injected allocation failures, freed-memory poisoning and layout changes.", T(24000, 60), T(600000, 700), [MODEL])
add("C10", "filter", "Seeded process/reset/refused-construction histories of FIR and IIR filters of order 0-60 against the direct-form difference equation, 1-3 filters at once on preempted threads.", T(300000, 60), T(2000000, 700), [MODEL])
add("C11", "resampler", "Seeded deliveries of one stream in arbitrary blocks through process and the buffer-filling call, against the undivided stream, per-call and total counts, tone gain, and one-shot resample.", T(20000, 70), T(400000, 700), [MODEL])
add("C12", "decimators", "Seeded block/in-place/float/reset histories of Decimator and DecimatorB at every factor, against the stream filtered whole, an independent Butterworth cascade, and pass/stop-band response.", T(240000, 60), T(2000000, 700), [MODEL])
add("C13", "downbeat", "Seeded push/reset/read/find histories of DownBeat at every decimation factor, against the model buffer and a fresh object.", T(24000, 70), T(400000, 700), [MODEL])
add("C14", "framer", "Seeded configure/setSource/getFrame/reset histories including reading past the end, against the zero-padded source.", T(400000, 60), T(3000000, 700), [MODEL])
add("C15", "phasevocoder", "Seeded time-domain, frequency-domain and reset histories over frame sizes 2-128 and hops 1-2N, against an independent DFT and the recurrence for expected advance plus wrapped deviation.", T(400000, 60), T(3000000, 700), [MODEL])
add("C16", "onset", "Seeded frame histories for every detection-function type, with and without adaptive whitening, by either entry, against an independent DFT and each type's definition.", T(400000, 60), T(3000000, 700), [MODEL])
add("C17", "median", "Seeded push/percentile/get/reset histories over double, float and int with duplicates, infinities and NaN, against a sorted window.", T(300000, 60), T(2000000, 700), [MODEL])
add("C18", "frames", "Seeded histories of calls on two FFT, FFTReal, DCT, window, constant-Q, chroma, MFCC, tonal and maths objects per client (including frames with NaN or infinity as history): each call against a fresh object, against its own definition, against the equivalent entry, and the last call repeated alone in a fresh process.", T(80000, 60), T(2000000, 700), [MODEL])
add("C19", "wholesignal", "Seeded histories of calls on used FiltFilt, DFProcess, PeakPicking, TempoTrack, TempoTrackV2 and BeatSpectrum objects: each against a fresh object, against its own definition, and the last call repeated alone in a fresh process.", T(40000, 70), T(1000000, 700), [MODEL])

add("C23", "growth", "Seeded calls on one component of every kind repeated 24-200 times: memory held after each round and work done in it (instrumented accesses and control-flow edges) must not exceed those of the settled rounds.", T(60000, 80), T(1500000, 720), ["work is counted in instrumented memory accesses, control-flow edges and heap operations"])
add("C24", "returns*4,async,mutex,cond,thread", "Every component driven through legal histories with hostile numbers (NaN, infinities, denormals, 1e308, extreme ratios) and every thread object under preemption, spurious wakeups, stalls and clock jumps: each call must return within a step and CPU budget and no thread may be left waiting.", T(80000, 80), T(2000000, 720), [POSIX])

PURE = "a pure function of its arguments: no thread, clock, fault, randomness or history in it for a simulator to vary (its use across threads, histories and memory contents is covered by C06, C07, C18 and C21)"
NA = {
    "C30": "FFT/DCT round trip is " + PURE, "C31": "a window's shape is " + PURE, "C32": "each helper is " + PURE,
    "C33": "polynomial fitting is " + PURE, "C34": "each distance is " + PURE, "C35": "pitch conversion is " + PURE,
    "C36": "the tables are " + PURE, "C37": "the projection is " + PURE, "C38": "matrix inversion is " + PURE,
}
NOTES = {}
