#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=list(obs), hook_needed=hook)))

S,H,I,F,C = 'schedules','histories','inputs','fault_sequences','configurations'

p('C01','awaitTask returns only after the requested task ran, exactly once',
 '''For a subclass that follows AsynchronousTask's request/obtain pattern (a request calls startTask, the later obtain calls awaitTask; any number of rounds, any number of task objects in flight at once, obtained in any order), each request makes performTask execute exactly once, on that object's own worker thread, and awaitTask returns only after that execution has finished, with everything the request wrote visible to performTask and everything performTask wrote visible to the caller.
 This holds under every thread schedule, including spurious wakeups of the underlying condition variables, and awaitTask always returns once performTask has.''',
 [S,H,F],'every interleaving of callers and workers, every number and order of rounds, any spurious-wakeup pattern',
 'No test creates a thread at all; AsynchronousTask.h is not even compiled by the test suite.',
 ['thread/AsynchronousTask.h','thread/Thread.cpp','thread/Thread.h'],
 [('m_done held from startTask to awaitTask; worker must take it to report completion','AsynchronousTask::startTask/awaitTask/run'),('m_inTask flag guarded by m_todo/m_done','AsynchronousTask::run')],
 [('m_inTask','a request is pending or running','AsynchronousTask')],['return of the subclass obtain method, performTask invocations'])
p('C02','Destroying an idle AsynchronousTask always completes and ends its worker',
 '''Destroying an AsynchronousTask that has no un-awaited request always completes under every thread schedule: straight after construction (even before its worker thread first runs), after any number of completed rounds, and while other tasks are busy.
 When the destructor returns the worker thread has ended, performTask has been run only for actual requests, no lock or condition is still held or waited on, and nothing touches the object afterwards.''',
 [S,H,F],'every interleaving of construction, rounds and destruction of one or several tasks, with spurious wakeups and stalls',
 'No test creates or destroys a task; the failure modes (missed shutdown signal, worker outliving the object) need particular interleavings.',
 ['thread/AsynchronousTask.h','thread/Thread.cpp'],
 [('m_finishing set and signalled under m_todo, then join','AsynchronousTask::~AsynchronousTask'),('worker re-tests both flags before waiting','AsynchronousTask::run')])
p('C03','Mutex: exclusive holder, non-blocking trylock, foreign unlock refused',
 '''At any time at most one thread is between a successful Mutex::lock, successful Mutex::trylock or MutexLocker construction and the matching unlock or MutexLocker destruction, and whatever a holder wrote is visible to the next holder.
 trylock never blocks and reports success exactly when it acquired the free mutex; an unlock call by a thread that does not hold the mutex neither releases it from its holder nor makes it unavailable.
 A thread waiting in lock acquires the mutex once its holders release it.''',
 [S,H],'every interleaving of lock, trylock, scoped locking and (rightful or mistaken) unlock by any number of threads',
 'thread/ has no tests; mutual exclusion and the ownership check only matter under concurrent schedules.',
 ['thread/Thread.cpp','thread/Thread.h'],
 [('pthread mutex plus m_locked/m_lockedBy owner record','Mutex::lock/unlock/trylock'),('RAII','MutexLocker')])
p('C04','Condition: atomic wait, no lost signal, exact timeout',
 '''Condition::wait releases the condition's lock while waiting and returns holding it again; a thread that tests its predicate under lock() and waits in a loop is never left waiting when another thread changes the predicate and signals under lock().
 wait(us) with us > 0 returns no earlier than us microseconds after the call unless a wakeup was delivered, and, when none is, returns once us microseconds have passed on the system clock and the lock is free - for every starting time of day and every us.
 signal() with no waiter has no effect, and wait(0) has no timeout.''',
 [S,H,I,F],'every interleaving of waiters and signallers, every starting clock value and timeout, spurious wakeups, wall-clock steps (liveness only)',
 'thread/ has no tests; lost wakeups need schedules and the deadline arithmetic needs particular clock values.',
 ['thread/Thread.cpp','thread/Thread.h'],
 [('pthread_cond_wait/timedwait on bundled mutex','Condition::wait'),('microsecond carry into seconds','Condition::wait'),('m_locked flag restored after wait','Condition::wait')])
p('C05','Thread: run executes once per start; wait and destruction join it',
 '''start() makes run() execute exactly once, concurrently, on a new thread whose id is what id() returns; wait() returns only after run() has finished, with its writes visible, and returns at once when nothing was started or the thread was already waited for; destroying a Thread waits for it likewise, and no thread is left unjoined or joined twice.
 A thread can be started again after wait(). If the system cannot create the thread, start() never returns as though it had: the process exits with failure status.''',
 [S,H,F],'every interleaving of start, wait, restart and destruction, and thread-creation failure at any start',
 'thread/ has no tests, and creation failure never happens in a test run.',
 ['thread/Thread.cpp','thread/Thread.h'],
 [('m_extant tracks a joinable thread','Thread::start/wait/~Thread'),('exit(1) on pthread_create failure','Thread::start')])
p('C06','Separate instances used by separate threads do not influence each other',
 '''Any mix of library objects and C-level entry points (filters, resamplers, decimators, FFT/DCT/wavelet transforms, windows, phase vocoder, onset, chroma, key, MFCC, tempo, downbeat, segmentation, PCA, matrix inversion, and so on), each used by one thread at a time, gives every thread bit-for-bit the results the same call sequence gives when it runs alone, under every interleaving of the threads.
 (Shared random numbers drawn by HMM training and clustering are taken as given per thread.)''',
 [S,H,C],'every interleaving, down to single memory accesses, of any mix of instances and call histories',
 'Tests are single threaded; hidden shared state (static scratch buffers, cached tables, f2c statics) only shows when two threads interleave inside calls.',
 ['dsp','maths','hmm/hmm.c','base','ext/kissfft','ext/clapack/src','ext/cblas/src'],
 [('all mutable state lives in the instance or on the stack','throughout')])
p('C07','Results are a function of the call history, not of memory, clock or past objects',
 '''What any library object returns depends only on its construction parameters and the sequence of calls made on it: not on what freshly allocated or stack memory happens to contain, on addresses or allocation reuse, on the clock or the state of the C random generator (except HMM training and clustering, which are randomly initialised), or on which other objects lived in the process before or alongside.''',
 [H,C,F],'every content of fresh memory, heap layout, clock, random state and prior use of the process, for every call history',
 'A test process sees one heap (mostly zero pages) and one history; reads of uninitialised or stale state give right answers there.',
 ['dsp','maths','hmm/hmm.c','base','ext/kissfft','thread/BlockAllocator.h'],
 [('constructors and reset functions initialise every member and buffer that is read','throughout')])
p('C08','HMM training and segmentation are valid for every random seed and clock',
 '''For every state of the random generator and clock, training an HMM on finite, non-degenerate features yields finite parameters whose initial and transition rows are probabilities summing to 1, Viterbi decoding of it returns an in-range state sequence that is a most probable path, and segmenting with it or with the cluster-melt segmenter yields segments that tile the whole input in order without gap or overlap, each with a type in range and different from its neighbour; a segmenter that was used before (also at another rate) gives what a new one gives for the same frames and random numbers.''',
 [H,I,C,F],'every random seed, clock value and feature sequence; every sequence of extract and segment calls',
 'hmm/ and dsp/segmentation have no tests, and rand() is seeded from the real clock so no run repeats.',
 ['hmm/hmm.c','dsp/segmentation/cluster_segmenter.c','dsp/segmentation/cluster_melt.c','dsp/segmentation/ClusterMeltSegmenter.cpp'],
 [('Baum-Welch normalisation','hmm/hmm.c'),('cluster assignment normalised','cluster_melt.c'),('segment building from assignments','ClusterMeltSegmenter::makeSegmentation')])
p('C09','BlockAllocator never hands out overlapping, misplaced or lost elements',
 '''Through every sequence of allocate and deallocate calls, each live element returned by a BlockAllocator is a distinct, word-aligned region of at least the constructed element size that overlaps no other live element and keeps its contents until deallocated, however many elements are live and in whatever order they are freed.
 When underlying memory runs out allocate throws and every live element and all later use remain sound; deallocating null does nothing; freed space is reused, and destroying the allocator releases everything.''',
 [H,F,C],'every history of allocations and releases, every element size, more than the reserved number of blocks, allocation failure at any point',
 'BlockAllocator.h is not compiled by any test; the failures need long histories or an allocation failure.',
 ['thread/BlockAllocator.h'],
 [('per-block free list threaded through elements, block index stored after each element','BlockAllocator::Block'),('m_freelist of non-full blocks','BlockAllocator::allocate/deallocate')])
p('C10','Filter output depends only on the samples since construction or reset',
 '''For FIR and IIR Filters of every order, the concatenated output of any sequence of process calls equals the direct-form difference equation b*x - a*y (zero initial conditions) applied to the concatenated input since construction or the last reset, however the input is divided into blocks (including empty and single-sample blocks) and whenever resets happen.
 Mismatched or missing coefficient vectors are refused with std::logic_error.''',
 [H,I,C],'every division of the stream into blocks, every placement of resets, every order and coefficient set',
 'Tests filter short fixed sequences in at most a few calls; the internal ring offset makes errors depend on how many samples came before.',
 ['dsp/signalconditioning/Filter.cpp','dsp/signalconditioning/Filter.h'],
 [('history buffers moved back every offmax samples','Filter::process'),('reset','Filter::reset')])
p('C11','Resampler output stream is independent of how input is delivered',
 '''For every pair of rates, the concatenated output of a Resampler is the same sample sequence for every division of the input into process calls (value-returning or buffer-filling); each call returns at most ceil(n*target/source) samples, and the total returned never falls more than one sample short of total input*target/source.
 Delayed by the reported latency it is the band-limited resampling of the input (a tone well inside the passband comes out as that tone at unit gain), and the one-shot resample() returns ceil(n*target/source) samples equal to the latency-compensated streaming output.''',
 [H,I,C],'every block division, including empty and one-sample blocks, every rate pair and filter setting',
 'Tests use a handful of rate pairs and two or three fixed block patterns.',
 ['dsp/rateconversion/Resampler.cpp','dsp/rateconversion/Resampler.h'],
 [('polyphase state: m_phase, m_buffer, m_bufferOrigin carried across calls','Resampler::process/reconstructOne'),('latency prefill','Resampler::initialise')])
p('C12','Decimators keep filter state across blocks and may work in place',
 '''For Decimator and DecimatorB with each supported factor, the concatenated output over any run of blocks equals every factor-th sample of the anti-aliasing filter (cascade) run once over the whole input, independent of block length; Decimator::resetFilter makes what follows as after construction.
 For Decimator src and dst may be the same buffer, and the float and double entry points share one stream and agree to float precision; factor 1 copies.''',
 [H,I,C],'every block length and number of blocks, mix of float and double calls, in-place use and resets',
 'No test uses either decimator.',
 ['dsp/rateconversion/Decimator.cpp','dsp/rateconversion/DecimatorB.cpp'],
 [('filter delays o1..o7 / m_o kept between calls','doAntiAlias')])
p('C13','DownBeat buffers pushed audio completely, and results do not depend on past use',
 '''After any number of pushAudioBlock calls getBufferedAudio returns exactly the decimated blocks in push order since construction or the last resetAudioBuffer, for every decimation factor up to 64, and later pushes do not alter earlier samples.
 findDownBeats and getBeatSD give the same answer on a used object as on a fresh one with the same beats per bar; downbeats are in-range indices spaced a bar apart, and the spectral-difference vector has one value per beat that has a whole beat on each side (two fewer than the beats).''',
 [H,I,C],'every number and content of pushes, resets and findDownBeats calls in any order, crossing every buffer growth',
 'No test uses DownBeat; buffer growth happens only after long streams.',
 ['dsp/tempotracking/DownBeat.cpp'],
 [('malloc/realloc growth of m_buffer','DownBeat::pushAudioBlock'),('chained decimators','DownBeat::makeDecimators')])
p('C14','Framer delivers every frame of the source, zero-padded at the end',
 '''After configure(frame, hop) and setSource, successive getFrame calls write exactly frame values each: the source samples from k*hop on for the k-th call, zero beyond the end of the source, for every source length and hop; calling it more often yields silence and never reads or writes outside source and frame.
 getMaxNoFrames is ceil(length/hop), and resetCounters, reconfiguring, or setting a new source and resetting restarts from frame 0.''',
 [H,I,C],'every length, frame, hop (larger or smaller than the frame), every history of getFrame, reset, re-source, re-configure',
 'No test uses Framer.',
 ['dsp/signalconditioning/Framer.cpp'],
 [('m_srcIndex advance with rem/zero split','Framer::getFrame')])
p('C15','PhaseVocoder output follows its frame history and restarts cleanly on reset',
 '''For every sequence of frames, PhaseVocoder returns for each bin the magnitude and wrapped phase of the shifted frame's spectrum and an unwrapped phase that continues from the previous frame by the bin's expected advance plus the wrapped deviation from it; feeding a frame through the time-domain or the equivalent frequency-domain entry gives the same.
 After reset the object behaves as if just constructed, at any point of the history.''',
 [H,I,C],'every sequence of frames and resets, and mix of entry points, for every frame and hop size',
 'Tests check three or four fixed frames without resets.',
 ['dsp/phasevocoder/PhaseVocoder.cpp'],
 [('m_phase/m_unwrapped carry','PhaseVocoder::unwrapPhases'),('reset','PhaseVocoder::reset')])
p('C16','Onset detection function depends only on the frames it needs, in order',
 '''For each detection-function type the value returned for a frame equals that type's definition applied to this frame's spectrum and the preceding frames' (none for HFC; previous magnitude for spectral difference and broadband; two previous phases for phase deviation and complex), starting from silence at construction; time-domain and equivalent frequency-domain input agree; all results are finite for finite input.
 Adaptive whitening, when on, divides each magnitude by its decaying peak with the configured floor before use.''',
 [H,I,C],'every sequence of frames for each type, frame length, threshold and whitening setting',
 'No test uses DetectionFunction.',
 ['dsp/onsets/DetectionFunction.cpp','dsp/phasevocoder/PhaseVocoder.cpp'],
 [('m_magHistory, m_phaseHistory, m_phaseHistoryOld, m_magPeaks','DetectionFunction')])
p('C17','MedianFilter reports the chosen percentile of the last size values pushed',
 '''At every point of any history of push, setPercentile, get, getAt and reset, get() and getAt(p) equal the element at the percentile index of the sorted multiset of the last size values pushed (zeros where fewer have been pushed since construction or reset, NaN pushes counting as zero), for duplicates, infinities and negative values alike.
 The static filter() gives the centred moving median of the same length as its input.''',
 [H,I,C],'every history of operations, value multiset, size and percentile',
 'Tests push a few short sequences; no long histories with duplicates, resets, NaN or changing percentile.',
 ['maths/MedianFilter.h'],
 [('sorted window maintained by drop/put binary search','MedianFilter')])
p('C18','Frame analysers are memoryless: a frame gives the same answer in any history',
 '''FFT, FFTReal, DCT, Wavelet-free windowing, ConstantQ, Chromagram, MFCC, TonalEstimator and the other per-frame analysers return for a given frame the same result whatever frames were processed before it on the same object, leave their input unchanged, and accept time-domain and equivalent frequency-domain input alike where both exist.''',
 [H,I,C],'every history of earlier frames (including silence, infinities of scale and repeated frames) before a given frame',
 'Tests construct a fresh object for nearly every call.',
 ['dsp/transforms/FFT.cpp','dsp/transforms/DCT.cpp','dsp/chromagram/ConstantQ.cpp','dsp/chromagram/Chromagram.cpp','dsp/mfcc/MFCC.cpp','dsp/tonal/TonalEstimator.cpp'],
 [('working buffers fully rewritten on each call','process methods')])
p('C19','Whole-signal analysers can be reused: each call stands alone',
 '''FiltFilt, DFProcess, PeakPicking, TempoTrack, TempoTrackV2 and BeatSpectrum return for a given input and parameters the same result on a used object as on a newly constructed one, whatever inputs it was given before, and write only the documented outputs.''',
 [H,I,C],'every history of earlier calls, with any earlier inputs, before a given call',
 'Tests call a fresh FiltFilt once; the others have no tests at all.',
 ['dsp/signalconditioning/FiltFilt.cpp','dsp/signalconditioning/DFProcess.cpp','dsp/onsets/PeakPicking.cpp','dsp/tempotracking/TempoTrack.cpp','dsp/tempotracking/TempoTrackV2.cpp'],
 [('filter state cleared between passes','FiltFilt::process'),('framer restarted','TempoTrack::process')])
p('C20','Key detection follows its chroma and median windows through every history',
 '''GetKeyMode returns for every frame a key index from 0 to 24 that depends only on the frames received: on the chroma of the averaging window and the keys in the median window, both filling from empty at construction and then sliding, for every window length and overlap; the key strengths it reports are those of the last processed frame.''',
 [H,I,C],'every sequence of frames (silence, tones, key changes) long enough to wrap both windows, every window configuration',
 'Tests feed a few sinusoid sequences with the default configuration.',
 ['dsp/keydetection/GetKeyMode.cpp','dsp/chromagram/Chromagram.cpp'],
 [('m_chromaBuffer ring and m_medianFilterBuffer shift','GetKeyMode::process')])
p('C21','No call ever touches memory outside live objects and documented buffers',
 '''Through every documented-legal history of calls on every component, on any threads, the library reads and writes only live memory it owns and the documented extent of caller buffers; it never uses freed memory or frees twice.''',
 [S,H,I,C],'every legal call history and configuration, with every heap layout and interleaving',
 'Tests run without memory checking and with few configurations; small overruns are silent.',
 ['dsp','maths','hmm','base','ext','thread'],
 [('buffer sizing in constructors','throughout')])
p('C22','Destroying an object returns everything it acquired',
 '''After an object is destroyed (or its C close function called), wherever in its history that happens, every block of memory and every thread it acquired has been released exactly once, and repeated use does not accumulate memory.''',
 [H,C,S],'every history cut off at any point by destruction',
 'Tests do not look at leaks.',
 ['dsp','maths','hmm','base','thread'],
 [('destructors and free functions','throughout')])

p('C23','Long streams need bounded memory and bounded work per call',
 '''Once an object of any kind has settled, repeating the same calls on it (processing further blocks or frames, resetting and starting over, recomputing with new settings) needs no more memory and no more work per call, however many times they are repeated: the memory the object holds and the time a call takes are bounded by its configuration and the size of what it is given, not by how long the stream has been running.
 The exceptions are objects documented to accumulate, in proportion to what was given to them since their last reset: DownBeat's buffered audio and the features gathered by ClusterMeltSegmenter.''',
 [H,C],'every repeated call history on every kind of object and configuration, of any length',
 'Tests make a few calls per object and look at neither memory nor time.',
 ['dsp','maths','hmm','base','ext/kissfft'],
 [('fixed-size history buffers and rings','stateful components'),('m_buffer trimmed to the filter span','Resampler::process'),('history moved back every offmax samples','Filter::process')])
p('C24','Every call returns, under every schedule and for every number it is given',
 '''Every call of a legal history on any component returns within a bounded number of steps, whatever numbers the caller's data contain (infinities, NaN, denormals and huge values included) and under every thread schedule: no loop waits for a comparison that can never come true, and no thread waits for a wakeup that can never come.
 (PCA of such data may instead end the process with its documented failure exit.)''',
 [S,H,I,F],'every legal call history with every numeric content of the inputs, every interleaving of threads, spurious wakeups, stalls and clock jumps',
 'Tests give finite, moderate numbers on one thread.',
 ['dsp','maths','hmm','base','thread'],
 [('loops bounded by sizes, with step limits on numerical iterations','throughout'),('iteration cap of the QL algorithm','maths/pca/pca.c tqli'),('phase wrapping by modulo rather than repeated subtraction','maths/MathUtilities.cpp princarg')])

# pure functions: no schedule, clock, fault or history for this technique to vary
def na(id,title,st,files): p(id,title,st,[I],'every input','Tests sample a few fixed inputs.',files,[('direct computation','see files')])
na('C30','FFT and DCT round trips reproduce the input','The inverse FFT of the forward FFT of a frame, and the inverse DCT of its DCT, equal the frame to rounding for every supported size, and Parseval holds.',['dsp/transforms/FFT.cpp','dsp/transforms/DCT.cpp','ext/kissfft'])
na('C31','Window shapes match their definitions','Every Window, KaiserWindow and SincWindow has its documented coefficients for every size, and cutting multiplies by them.',['base/Window.h','base/KaiserWindow.cpp','base/SincWindow.cpp'])
na('C32','MathUtilities statistics and normalisations match their definitions','Means, medians, norms, normalisations, thresholds and unwrapping helpers give their mathematical definition for every vector including empty ones.',['maths/MathUtilities.cpp'])
na('C33','Polynomial fitting recovers exact polynomials','TPolyFit::PolyFit2 returns the least-squares coefficients for any well-conditioned data.',['maths/Polyfit.h'])
na('C34','Distances and correlations obey their algebra','KL divergence and cosine distance are non-negative and zero on equal arguments; autocorrelation is what its sum defines.',['maths/KLDivergence.cpp','maths/CosineDistance.cpp','maths/Correlation.cpp'])
na('C35','Pitch conversion round-trips','Frequency to pitch and back is the identity for every tuning.',['base/Pitch.cpp'])
na('C36','Wavelet filter pairs are the tabulated orthogonal pairs','Every wavelet type yields low- and high-pass decomposition filters of equal length satisfying the quadrature-mirror relation.',['dsp/wavelet/Wavelet.cpp'])
na('C37','PCA projects onto the leading eigenvectors','pca_project yields uncorrelated components in order of decreasing variance.',['maths/pca/pca.c'])
na('C38','Matrix inversion and products are correct','The bundled LAPACK/BLAS routines invert and multiply every well-conditioned matrix to working precision.',['ext/clapack/src','ext/cblas/src'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
