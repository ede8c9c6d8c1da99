"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": "state", "meaning": state, "where": files[0]}]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DL = "ml4gw/dataloading/"
p("D01", "File-backed windows are true contiguous stretches of the right channel",
  "Every window a file-backed time-series loader delivers is, sample for sample, one contiguous stretch of the requested length of the requested channel in one of the listed files, sits in that channel's row of the batch, and every batch has the configured shape. This holds whatever indices the random draws select, for any number of files, any mix of file lengths and storage layouts, any channel order and any coincidence mode.",
  ["inputs", "configurations"], "all random draws (including extreme ones) x file sets x channel lists x batch/kernel sizes x coincidence modes",
  "Tests use two files of fixed sizes with default random draws; the exact extremes of the draws, unequal files and odd channel orders are sampled rarely or never.",
  [DL + "hdf5_dataset.py"], [("batch sampling", "Hdf5TimeSeriesDataset.sample_batch"), ("file choice", "Hdf5TimeSeriesDataset.sample_fnames")],
  "values encode (file, channel, time); each delivered window is decoded back to its provenance")
p("D02", "Coincidence modes and the files-per-batch budget hold in every batch",
  "With full coincidence all channels of a batch element come from the same file and the same times; with file-level coincidence they come from the same file; without coincidence channels are drawn independently of each other. No batch draws from more distinct files than the configured files-per-batch limit, and each file is opened at most once per batch.",
  ["inputs", "configurations"], "all random draws x coincidence modes x files-per-batch limits x file sets",
  "Existing tests check a handful of batches on two files and never bound the file set or the number of opens under adversarial draws.",
  [DL + "hdf5_dataset.py"], [("index grouping by file", "Hdf5TimeSeriesDataset.sample_batch"), ("file subset", "Hdf5TimeSeriesDataset.sample_fnames")],
  "decoded provenance of each element plus the simulated storage layer's open log")
p("D03", "Storage faults surface as errors, never as samples; no handle leaks",
  "If a file cannot be opened or read, has lost a channel, or has become too short for the requested window, the consumer of a file-backed loader gets an exception, never zero-filled, repeated, stale or otherwise invented samples. Every file handle the loader opened is closed again even when it fails or is interrupted, and once the fault has cleared the same loader delivers correct batches again.",
  ["fault_sequences", "inputs"], "all sequences of open/read errors, deletions, truncations and replacements of files, at any operation of any batch or of construction",
  "No test injects any I/O failure; files are always present, complete and unchanged.",
  [DL + "hdf5_dataset.py"], [("construction scan", "Hdf5TimeSeriesDataset.__init__"), ("per-file reads", "Hdf5TimeSeriesDataset.sample_batch")],
  "simulated storage layer (fault log, open-handle count) and decoded provenance of whatever is delivered")
p("D04", "Any number of loader workers jointly deliver exactly one epoch",
  "For any number of data-loading workers, the batches all workers deliver in an epoch add up to exactly the configured number of batches per epoch, with no worker's share depending on scheduling, on earlier epochs, on abandoned iterations or on restarts of other workers. Without workers a single iteration delivers exactly that number, which also equals the loader's reported length.",
  ["schedules", "configurations", "crash_points"], "worker counts x interleavings of worker steps x worker crash/restart points x repeated epochs",
  "Tests exercise one or two fixed worker counts in a fixed order; remainders, more workers than batches, restarts and interleavings are not covered.",
  [DL + "hdf5_dataset.py"], [("epoch split", "Hdf5TimeSeriesDataset.__iter__"), ("length", "Hdf5TimeSeriesDataset.__len__")],
  "count of batches delivered per simulated worker and epoch")
p("D05", "Chunk-sampled windows are true contiguous stretches of the current chunk",
  "Every window a chunked loader delivers is, sample for sample, one contiguous stretch of the requested length of the right channel of one row of the chunk being served, for every sequence of chunks its source produces, including chunks whose row count, channel count or length differ from earlier ones. With coincident sampling all channels of a batch element come from the same row and times; without it each channel is sampled on its own.",
  ["inputs", "histories"], "all sequences of chunk shapes x random draws (including extremes) x kernel/batch sizes x coincidence",
  "Tests feed identical-shape chunks and check only a few random draws, so index arithmetic that leaks across rows, channels or chunks for other shapes goes unseen.",
  [DL + "chunked_dataset.py"], [("flattened index arithmetic", "ChunkedTimeSeriesDataset.__iter__")],
  "values encode (chunk, row, channel, time); each delivered window is decoded back")
p("D06", "Chunk streaming is exact: in order, fully used, lazy, and error-propagating",
  "A chunked loader serves every chunk of its source exactly once and in order, delivering exactly the configured number of batches from each before asking for the next, asks for no chunk before it is needed, and its reported length equals the batches it delivers. It ends cleanly when the source ends, even immediately; a failure of the source or a chunk shorter than the window reaches the consumer as an error and not as data, and a new iteration starts afresh.",
  ["histories", "fault_sequences", "schedules"], "all source behaviours (any number of chunks including none, stalls, errors at any pull, too-short chunks, buffer reuse) x consumer behaviours (abandon, restart)",
  "Tests use well-behaved fixed-length sources and consume them completely.",
  [DL + "chunked_dataset.py"], [("chunk loop", "ChunkedTimeSeriesDataset.__iter__"), ("length", "ChunkedTimeSeriesDataset.__len__")],
  "simulated chunk source's pull log interleaved with the delivered batches")
p("D07", "In-memory epochs cover, order, size and align windows exactly",
  "An in-memory loader delivers, per epoch, exactly its reported number of batches of the configured size (only the last may be shorter when it runs through all windows); coincident iteration without an epoch limit yields every window on the stride grid exactly once, in time order when not shuffling, and with a limit yields distinct windows. Every window is the true stretch of data, targets stay aligned with their inputs, all channels share times when coincident, and ordered non-coincident iteration steps through channel combinations with the last channel fastest.",
  ["inputs", "configurations", "histories"], "all lengths/kernels/strides/batch sizes/channel counts/modes x random draws x repeated epochs",
  "Tests cover a small parameter grid on one length; remainders, strides, single windows and repeated epochs are not explored.",
  [DL + "in_memory_dataset.py", "ml4gw/utils/slicing.py"], [("index plan", "InMemoryDataset.init_indices"), ("slicing", "slice_kernels")],
  "decoded provenance multiset of an epoch compared with the window grid")
p("D08", "Concurrent, interleaved and abandoned iterations never disturb each other",
  "When several iterations run over the same loader object, interleaved step by step or from several threads, or are abandoned part-way, each iteration still delivers a complete and valid epoch of its own, exactly as if it were alone. Loader state visible to later iterations is not changed by earlier ones.",
  ["schedules", "histories"], "all interleavings of several consumers (threads, generators) over one loader object, with abandonment at any step",
  "Tests only ever run one iterator at a time to completion.",
  [DL + "in_memory_dataset.py", DL + "chunked_dataset.py", DL + "hdf5_dataset.py"], [("iteration", "__iter__ of the three loaders")],
  "per-consumer delivery history checked against the single-consumer guarantees", hook="none: thread preemption points come from the interpreter's trace hook")
p("D09", "File-to-window pipeline preserves provenance, counts and faults end to end",
  "When the file-backed loader is used as the chunk source of the chunked loader, every final window is a contiguous stretch of one file's channel, the number of batches is the product of the two configured counts, and a storage fault at any point ends the pass with an error rather than wrong data. Restarting the pass after the fault clears gives a full correct pass.",
  ["histories", "fault_sequences", "configurations"], "pipeline configurations x random draws x fault points x restarts",
  "No test composes the loaders.",
  [DL + "hdf5_dataset.py", DL + "chunked_dataset.py"], [("composition", "ChunkedTimeSeriesDataset over Hdf5TimeSeriesDataset")],
  "decoded provenance and counts of the composed pipeline over simulated storage")
ST = "ml4gw/nn/streaming/"
p("S01", "Streamed snapshots equal offline windowing of the whole stream",
  "Feeding a time series through the streaming snapshotter update by update yields, in order and exactly once, precisely the overlapping windows of the zero-prefixed whole series at the configured stride, for every stream, window size, stride, updates-per-batch and channel split, and wherever the stream is cut into updates or handed to another instance with a different batch size. The returned state always equals the most recent window-minus-stride samples.",
  ["inputs", "histories", "configurations"], "streams x configurations x cuts of the stream into updates x handovers between instances",
  "Tests check a few configurations from a zero state over a couple of updates.",
  [ST + "snapshotter.py", "ml4gw/utils/slicing.py"], [("windowing and state", "Snapshotter.forward")],
  "concatenated outputs against direct slicing of the whole series", state="(channels, window - stride) tensor passed by the caller")
p("S02", "Streamed averages equal the offline overlap-average",
  "Feeding overlapping predictions through the online averager yields, in order and exactly once, for every time step the sum of the predictions covering it among the most recent configured number, divided by that number, discarding the configured offset at the leading edge. This is independent of how predictions are grouped into batches, including handover of the state to an instance with another batch size, for every stream and configuration.",
  ["inputs", "histories", "configurations"], "prediction streams x configurations (updates, update size, channels, offset) x groupings and handovers",
  "Tests check few configurations with one grouping and no handover.",
  [ST + "online_average.py", "ml4gw/utils/slicing.py"], [("overlap-add", "OnlineAverager.forward")],
  "concatenated outputs against a direct overlap-add over the whole stream", state="(channels, (updates-1)*update_size) tensor passed by the caller")
p("S03", "Streaming survives crash, redelivery, failure and stream multiplexing",
  "All streaming state is the state value handed back to the caller: restarting from a saved state after a crash at any point, redelivering an update, retrying one that failed, or multiplexing many streams through one instance gives exactly the outputs of an undisturbed run, and nothing an instance processed earlier, nor anything the caller later does to returned outputs, can change a saved state.",
  ["crash_points", "fault_sequences", "histories", "schedules"], "crash/restart points, duplicated and failed updates, allocation failures inside the step, in-place use of outputs, interleavings of several streams",
  "Tests run one stream straight through; nothing crashes, is redelivered, shares an instance or mutates outputs.",
  [ST + "snapshotter.py", ST + "online_average.py"], [("explicit state passing", "Snapshotter.forward"), ("explicit state passing", "OnlineAverager.forward")],
  "histories of a simulated at-least-once deployment against the undisturbed run")
p("S04", "The online inference pipeline reproduces offline inference on the whole stream",
  "Running a stream through snapshots, spectral estimation, whitening, a network and online averaging, update by update, in a deployment with crashes, redelivery and changes of batch size, produces the same averaged output series as processing every window of the full series on its own and averaging offline.",
  ["histories", "crash_points", "fault_sequences", "configurations"], "streams x pipeline configurations x delivery faults x restart points x batch-size changes",
  "No test composes the online components.",
  [ST + "snapshotter.py", ST + "online_average.py", "ml4gw/transforms/spectral.py", "ml4gw/transforms/whitening.py", "ml4gw/nn/resnet/resnet_1d.py"],
  [("composition", "Snapshotter -> SpectralDensity -> Whiten -> network -> OnlineAverager")], "pipeline output series against window-at-a-time offline processing")
T = "ml4gw/transforms/"
p("M01", "Fittable transforms refuse to run until completely fitted or restored",
  "A transform whose parameters must be fitted refuses with an error to process data until a fit, or a restore containing all of its parameters, has completed; a fit that failed at any point, or a restore from a partial, mismatched or foreign checkpoint, never makes an unfitted transform usable. After a completed fit or restore it never refuses.",
  ["fault_sequences", "histories", "crash_points"], "all sequences of fit/restore/use with bad data, partial or mismatched checkpoints (strict or not, nested in larger modules) and allocation failures at any operation",
  "Tests call forward once before fitting and load one good checkpoint; failed fits and torn checkpoints are not exercised.",
  [T + "transform.py", T + "scaler.py", T + "whitening.py", T + "snr_rescaler.py"], [("built gate", "FittableTransform.__call__"), ("restore hook", "FittableTransform._load_from_state_dict"), ("commit", "FittableTransform.build")],
  "usable/refuses verdict after each step against a three-state reference model", state="built flag and parameter buffers")
p("M02", "A failed fit leaves the previous fit fully in force",
  "If refitting an already fitted transform fails, through bad data or a failing allocation at any point, the transform goes on giving exactly the results of its previous fit, and a later successful fit fully replaces it, leaving no trace of earlier data. Fitting depends only on the data and options given to that fit.",
  ["fault_sequences", "histories"], "all sequences of successful and failing fits interleaved with use, allocation failure at any operation",
  "Tests fit each instance once, successfully.",
  [T + "transform.py", T + "scaler.py", T + "whitening.py", T + "snr_rescaler.py"], [("stage then commit", "fit methods and FittableTransform.build")],
  "outputs after each step against a fresh instance given only the last successful fit")
p("M03", "Restoring a checkpoint into a fresh process reproduces behaviour exactly",
  "Saving a component's state at any point of its life and restoring it into a freshly constructed instance of the same configuration in another process, or moving the component itself by serialising or deep-copying it, gives a component with identical behaviour from then on, without disturbing the original. A checkpoint that is torn or incomplete is rejected.",
  ["crash_points", "histories", "configurations"], "all components x save points (before/after fits and calls) x restore into differently seeded instances x torn checkpoints",
  "Tests round-trip a checkpoint for two transforms only.",
  [T + "transform.py", T + "whitening.py", T + "spline_interpolation.py", "ml4gw/nn/resnet/resnet_1d.py", "ml4gw/nn/ssm/s4d.py", "ml4gw/nn/norm.py", ST + "online_average.py"], [("registered parameters and buffers", "module constructors")],
  "outputs of the restored instance against the original's")
p("M04", "Results do not depend on what was computed before",
  "Calling any transform, waveform generator, network in inference mode, streaming component, sampler-independent function or detector lookup gives the result a fresh process would give for the same construction and call, whatever other calls, on the same or other instances and with other configurations, succeeded or failed (including failing allocations and interrupts) before it. No call leaves process-wide settings (autograd mode, default precision, thread count, numerical error handling) changed.",
  ["histories", "fault_sequences", "programs"], "all histories of calls over many differently configured components, with rejected inputs and allocation failures at any operation",
  "Each test makes one or two calls on a fresh object; stale caches, leaked per-call overrides and half-applied failures need a history.",
  ["ml4gw/transforms/", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/waveforms/", "ml4gw/nn/", "ml4gw/utils/slicing.py"], [("per-call overrides", "SplineInterpolate1D.forward"), ("intermediate state", "SingleQTransform.compute_qtiles"), ("all forwards", "module forward methods")],
  "each result against the same call made alone in a pristine process")
p("M05", "Threads sharing a component each get the answer to their own input",
  "When several threads call the same component at the same time in inference mode, every call returns the result it would have returned alone, for every interleaving of the threads.",
  ["schedules"], "all thread interleavings at statement granularity of concurrent calls on one shared component",
  "No test uses threads.",
  ["ml4gw/transforms/qtransform.py", "ml4gw/transforms/", "ml4gw/spectral.py", "ml4gw/nn/", "ml4gw/waveforms/"], [("intermediate state", "SingleQTransform.forward"), ("all forwards", "module forward methods")],
  "each thread's result against the same call made alone", hook="none: preemption points come from the interpreter's trace hook")
p("M06", "A request's result does not depend on its companions in a batch",
  "When independent requests are coalesced into batches, each request gets the result it would get alone, whatever the batch size, its position, and the contents of the other requests, including NaN, infinite or zero ones. The exceptions are those documented to pool over the batch: the best-plane choice of the multi-plane Q scan, SNR permutation, batch normalisation in training mode, and the common frequency grid of time-domain waveform generation. A request that would be refused on its own may get its whole batch refused.",
  ["schedules", "inputs", "configurations"], "all arrival orders and coalescings of requests x companion contents x components",
  "Tests compare whole batches with references computed on the same batch; none compares across batch compositions or poisons a neighbour.",
  ["ml4gw/transforms/", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/waveforms/", "ml4gw/nn/", "ml4gw/utils/slicing.py"], [("batched maths", "module forward methods")],
  "each request's row against the same request processed alone")
p("M07", "Calls leave their inputs and the component's parameters untouched",
  "Apart from the in-place signal augmentations, no call modifies the tensors, containers or options the caller passes in, nor the component's own parameters and buffers in inference mode, whether the call succeeds or fails, and results returned earlier are not changed by later calls.",
  ["inputs", "histories", "fault_sequences"], "all components x inputs (dtypes, contiguity, aliasing) x failures at any operation x later calls",
  "Tests never look at the inputs or at earlier outputs after a call.",
  ["ml4gw/transforms/", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/waveforms/", "ml4gw/nn/", "ml4gw/utils/slicing.py", "ml4gw/dataloading/"], [("in-place maths on temporaries", "e.g. X_tilde, windowed, energy")],
  "byte digests of arguments, parameters and earlier outputs before and after each call")
p("M08", "A backward pass yields the true gradient of its own forward call",
  "Backpropagating through a call of any differentiable component gives the gradient of that call and no other: whatever other requests, inference calls, failing calls and backward passes happen on the same instance before, between and after its forward and backward passes, the gradient equals the one obtained by the request alone in a fresh process; the loss of one request in a batch does not push another request's data; and the gradient, with respect to data, output coordinates and parameters, is finite and is the directional derivative of the values the component serves wherever those are smooth.",
  ["schedules", "histories", "inputs"], "all orders of forward and backward passes of requests in flight x other work in between x batch companions x components x configurations",
  "Tests check values, almost never gradients, and never with a second request in flight or with a broken companion in the batch.",
  ["ml4gw/transforms/", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/waveforms/", "ml4gw/nn/"], [("tensors saved for backward", "in-place maths, buffers, caches kept on self"), ("spline basis recursion", "SplineInterpolateBase.bspline_basis_natural")],
  "gradients compared with the request alone in a fresh process and with finite differences of the served values")
p("M09", "Training can be stopped, resumed and watched without changing what is learned",
  "A training run of any ml4gw network, with fitted preprocessing in front and random augmentation, that is killed at any point of any step and resumed from its last checkpoint (model, optimizer and generator state) in a new, differently initialised process or over the live objects, ends with the losses, weights and buffers of the uninterrupted run. Validations between steps, checkpoints taken, copies kept, failed allocations and other runs in the same process change nothing; a copy kept in the middle of training behaves as the checkpoint of the same step.",
  ["crash_points", "schedules", "histories"], "all points of a step x all checkpoint and restore moments x interleaved validations, copies and other training runs x networks x optimizers",
  "No test trains, resumes or validates between steps; a test could only try a few crash points.",
  ["ml4gw/nn/", "ml4gw/transforms/transform.py", "ml4gw/transforms/scaler.py", "ml4gw/augmentations.py"], [("what is (not) part of the state dict", "parameters, buffers and plain attributes of the networks"), ("forward in train and eval mode", "S4D.forward, GroupNorm1D.forward, ResNet._forward_impl")],
  "losses, parameters and buffers compared with the uninterrupted run, in the same and in a fresh process")
p("M10", "A long-lived process does not pile up memory, work, files or threads",
  "Repeating any routine - calls, backward passes, training steps, streaming updates, refits, checkpoint restores, calls that are refused or run out of memory, instances built and dropped, epochs completed, abandoned or broken by a vanished file - leaves nothing behind that grows with the number of repetitions: live tensors, objects, entries of containers, open files and HDF5 handles and threads stay bounded, and a call takes as many tensor operations after a long history as at first.",
  ["histories", "fault_sequences"], "all routines of calls, failures, rebuilds and epochs x components x lengths of history",
  "Tests make a few calls; a leak per call or per failure shows only in a long history.",
  ["ml4gw/transforms/", "ml4gw/gw.py", "ml4gw/nn/", "ml4gw/nn/streaming/", "ml4gw/dataloading/"], [("state kept on modules", "attributes and buffers set during calls"), ("file handles", "Hdf5TimeSeriesDataset.sample_batch"), ("streaming state", "Snapshotter.forward, OnlineAverager.forward")],
  "weak references to every storage allocated, the garbage collector's objects and container sizes, process file descriptors, HDF5 handles, threads, operator counts")
p("M11", "Components follow their module and data between devices and precisions",
  "A call that succeeds with module and data on the host succeeds with both on an accelerator, with the same values, shapes and types, and leaves its results there; no call mixes devices or falls back to another one. Moving a module to the accelerator and back, refitting it, checkpointing and restoring it (also on a machine without the device) or copying it at either place, in any order, and a device that runs out of memory in a call, a fit or half-way through a move, leave it the same component with the same state: back on the host it answers as one that never left. Distributions and datasets told to live on a device do so. Converted to double precision and back, at any point, a module serves double-precision data wherever it served single-precision data, with the same results within rounding.",
  ["histories", "fault_sequences", "configurations"], "all orders of moves, conversions, calls, refits, restores and copies x device-memory failures x components x configurations",
  "Tests run on the host only, almost always in single precision; no test moves a component or runs out of device memory.",
  ["ml4gw/transforms/", "ml4gw/spectral.py", "ml4gw/gw.py", "ml4gw/waveforms/", "ml4gw/nn/", "ml4gw/utils/slicing.py", "ml4gw/distributions.py", "ml4gw/dataloading/"],
  [("tensors created during calls", "torch.zeros, arange, tensor in forward methods and functions"), ("buffers against plain attributes", "register_buffer calls"), ("hosting options", "device arguments of InMemoryDataset and ChunkedTimeSeriesDataset")],
  "outcome, placement, type and values of every call, and the state dict, against an instance that never left the host", hook="none: the accelerator is simulated under PyTorch's dispatcher")
p("R01", "Samples always respect the distribution's bounds and support",
  "Every sample any distribution draws is finite, has the requested shape and lies within the configured bounds and support, for every outcome of the underlying random source including the most extreme, and every configuration.",
  ["inputs", "configurations"], "all outcomes of the random source, including 0 and the largest value below 1, x configurations",
  "Tests draw some thousands of ordinary samples from one configuration each, which practically never reach the extremes.",
  ["ml4gw/distributions.py"], [("inverse-transform sampling", "rsample methods")],
  "samples drawn with adversarial values from the simulated random source")
p("R02", "Randomness comes only from the seeded generators, and runs resume exactly",
  "With the same seeds and the same calls, every random component (loaders, samplers, augmentations, distributions, network initialisation) produces the same values in every process, and restoring the saved generator state after a crash at any point continues with exactly the values of an uninterrupted run. Components documented as deterministic consume no randomness.",
  ["crash_points", "histories", "configurations"], "all programs of random and deterministic components x crash/resume points x processes and hash seeds",
  "Tests never rerun under the same seed in another process or resume from a saved generator state.",
  ["ml4gw/dataloading/", "ml4gw/distributions.py", "ml4gw/augmentations.py", "ml4gw/utils/slicing.py", "ml4gw/transforms/waveforms.py", "ml4gw/transforms/snr_rescaler.py", "ml4gw/nn/"], [("random draws", "torch and numpy global generators")],
  "digests of the produced values and generator states across simulated processes")
p("R03", "Randomly sampled windows satisfy their position constraints",
  "Randomly sampled windows are true contiguous stretches of the source, lie entirely inside it, and respect the requested centre-offset constraint (uniform anywhere, containing the centre, within a maximum distance of it, or with a minimum margin around it), with channels sharing times exactly when coincident, returned indices matching the windows, and unsatisfiable requests rejected, for every random outcome.",
  ["inputs", "configurations"], "all random draws including extremes x tensor shapes x window sizes x centre offsets x coincidence",
  "Tests draw ordinary random samples for a few shapes; off-by-one violations at the extreme draws are almost never hit.",
  ["ml4gw/utils/slicing.py"], [("index range", "sample_kernels"), ("slicing", "slice_kernels")],
  "decoded provenance of each window under adversarial draws")
p("R04", "Signal augmentations leave each series intact or transform it exactly",
  "Random inversion and reversal turn every individual series into either exactly itself or exactly its negation or time reversal, decided independently per series; probability 0 never and probability 1 always transforms, for every outcome of the random source, and values, shapes and other series are otherwise untouched.",
  ["inputs", "configurations"], "all random outcomes including extremes x tensor ranks/shapes x probabilities",
  "Tests check one shape with ordinary draws.",
  ["ml4gw/augmentations.py"], [("masking", "SignalInverter.forward, SignalReverser.forward")],
  "exact comparison of each output series with the two allowed results")
p("R05", "Paired quantities stay paired through random sampling and rescaling",
  "Waveforms drawn from a bank keep all polarisations and parameters of a draw from the same bank entry, drawing everything returns the bank in order, and over-large requests are refused. Rescaled responses have exactly the signal-to-noise ratios reported with them, each being a positive multiple of its own input, and when none are requested the reported ones are a rearrangement of the inputs' own.",
  ["inputs", "configurations", "histories"], "all random draws x banks x parameter layouts x responses and targets",
  "Tests check shapes and one fixed draw.",
  ["ml4gw/transforms/waveforms.py", "ml4gw/transforms/snr_rescaler.py", "ml4gw/gw.py"], [("indexing", "WaveformSampler.forward"), ("permutation and scaling", "SnrRescaler.forward")],
  "entries tagged with their bank index; measured against recomputed ratios")
p("R06", "Random choices follow their stated law",
  "Over many draws, and independently from draw to draw, samples of each distribution follow the law it is named and documented for (including uniformity in comoving volume with the configured cosmology and rate), randomly sampled windows start uniformly over the admissible positions, loaders choose files in proportion to their length and rows and windows uniformly, a shuffled in-memory epoch visits its windows in uniformly random order, augmentations transform a series with exactly the configured probability, banks are sampled uniformly, and SNRs are permuted uniformly; channels, series and batch elements that are not required to share a choice make theirs independently.",
  ["inputs", "configurations", "histories"], "all configurations x all seeds of the random source, in distribution",
  "Tests look at bounds and a few moments of one configuration with small samples; a biased or dependent choice passes them.",
  ["ml4gw/distributions.py", "ml4gw/utils/slicing.py", "ml4gw/dataloading/", "ml4gw/augmentations.py", "ml4gw/transforms/waveforms.py", "ml4gw/transforms/snr_rescaler.py"], [("inverse-transform sampling", "rsample methods"), ("file weights", "Hdf5TimeSeriesDataset.sample_fnames"), ("index ranges", "sample_kernels, ChunkedTimeSeriesDataset.__iter__")],
  "counts of outcomes over thousands of draws under seeded and evenly spread random sources, against the stated law")

# ---- not decided by deterministic simulation: pure numerics -----------------
def na(id, title, statement, files, why_t, mech):
    p(id, title, statement, ["inputs", "configurations"], "all inputs and configurations", why_t, files, mech, "numeric comparison with an independent reference implementation")
na("N01", "Whitening flattens the spectrum and crops exactly the corrupted edges",
   "Whitening a series with the spectrum of its own noise process gives approximately unit-variance flat-spectrum data, restricted to the requested band, with exactly the filter's settle-in time removed at the edges.",
   ["ml4gw/spectral.py", "ml4gw/transforms/whitening.py"], "A statistical/numeric statement over all inputs; tests sample some.", [("filter", "truncate_inverse_power_spectrum"), ("apply", "normalize_by_psd")])
na("N02", "Spectral densities agree with the standard Welch estimates",
   "Power and cross spectral densities agree with Welch's method as standardly implemented, for every averaging mode, overlap and shape combination (the fast form except in its two lowest bins).",
   ["ml4gw/spectral.py", "ml4gw/transforms/spectral.py"], "Numeric agreement over all inputs; tests sample some.", [("welch", "spectral_density"), ("fast", "fast_spectral_density")])
na("N03", "Detector responses, delays and SNRs follow the standard definitions",
   "Projected strains, antenna patterns, inter-detector delays and matched-filter SNRs agree with the standard definitions for every sky position and waveform.",
   ["ml4gw/gw.py", "ml4gw/utils/interferometer.py"], "Numeric agreement over all inputs; tests sample some.", [("projection", "compute_observed_strain"), ("snr", "compute_ifo_snr")])
na("N04", "Compact-binary approximants agree with the reference library",
   "Frequency-domain compact-binary waveforms, their time-domain conditioning and the spin conversions agree with the reference library over the whole parameter space.",
   ["ml4gw/waveforms/cbc/", "ml4gw/waveforms/generator.py", "ml4gw/waveforms/conversion.py"], "Numeric agreement over a continuous parameter space; tests sample it.", [("approximants", "phenom_d.py, phenom_p.py, taylorf2.py"), ("conditioning", "TimeDomainCBCWaveformGenerator")])
na("N05", "Ad-hoc waveforms follow their closed forms",
   "Sine-Gaussian and ringdown waveforms equal their closed-form expressions for every parameter value.",
   ["ml4gw/waveforms/adhoc/"], "Numeric agreement over a continuous parameter space.", [("formulae", "SineGaussian.forward, Ringdown.forward")])
na("N06", "Q transforms and splines agree with their references",
   "Q-tiles, Q-scans and spline interpolation agree with the reference implementations, and spline interpolation reproduces its knots.",
   ["ml4gw/transforms/qtransform.py", "ml4gw/transforms/spline_interpolation.py"], "Numeric agreement over all inputs.", [("tiles", "QTile.forward"), ("basis", "SplineInterpolateBase.bspline_basis_natural")])
na("N07", "Signal-processing transforms compute their documented formulae",
   "Filtering, heterodyning, decimation, integration, shifted correlation and multi-resolution spectrograms compute their documented formulae for every input.",
   ["ml4gw/transforms/iirfilter.py", "ml4gw/transforms/heterodyne.py", "ml4gw/transforms/decimator.py", "ml4gw/transforms/integrator.py", "ml4gw/transforms/pearson.py", "ml4gw/transforms/spectrogram.py"], "Numeric agreement over all inputs.", [("formulae", "forward methods")])
na("N08", "Network architectures have the documented structure and shapes",
   "Residual networks, state-space models, group normalisation and autoencoders compute the documented architectures and map every allowed input shape to the documented output shape.",
   ["ml4gw/nn/resnet/", "ml4gw/nn/ssm/", "ml4gw/nn/norm.py", "ml4gw/nn/autoencoder/"], "Structural/numeric statement over all configurations.", [("architectures", "module constructors and forwards")])
na("N09", "Distribution densities are normalised and match the sampling law",
   "Each distribution's log-density is the normalised density of the law its samples follow.",
   ["ml4gw/distributions.py"], "A statement about an integral and a limit law, not about any finite set of samples.", [("densities", "log_prob methods")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
