"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], level=level))


NOTE = ("Held on the executions observed (counts in the evidence file); says nothing about inputs the workload did not "
        "produce. Trusts the harness's independent content generators and oracles, numpy, and torch's own kernels.")

prop("P01", "Each training or evaluation epoch delivers every admitted record exactly once",
     "In one epoch a data stream delivers each admitted record at most once, and leaves out only the final records that do "
     "not fill a training batch of their board shape; in evaluation nothing is left out and rows that repeat a record to fill "
     "the last batch are flagged as not real. No record that the rule, board-size or sampling options exclude is ever "
     "delivered, every batch holds a single board shape and the requested number of rows, and exactly the last batch of the "
     "epoch is marked as last.",
     ["inputs", "configurations", "histories"],
     "every file split, record format, shuffle window, number of concurrent readers, filter, batch size, step budget and epoch",
     "The tests train for a few steps on one small corpus and never compare the delivered multiset with the files.",
     ["dataset/planner.py", "dataset/shuffle.py", "dataset/packed.py", "dataset/npz_source.py", "dataset/sequential_source.py",
      "dataset/source_dataset.py", "dataset/composite_source.py"],
     [("global batch planner with per-shape queues", "dataset/planner.py:DatasetPlanner.next_batch"),
      ("bounded shuffle reservoir", "dataset/shuffle.py:StreamingShuffleReservoir"),
      ("packed native reservoir", "dataset/planner_cpp")],
     "conservation monitor over delivered batches (content-identified records vs independently generated corpus)", NOTE,
     ["rows, masks and tokens of every delivered batch"])

prop("P02", "Delivery depends only on configuration, data, seed and epoch, never on timing",
     "The sequence of delivered batches, their contents, masks and sample identities is a function of the dataset "
     "configuration, the data, the seed and the epoch alone. Worker and prefetch counts, consumer speed, task completion "
     "order, telemetry or auto-tuning, global random state, hash seeds and process restarts never change it, and different "
     "seeds or epochs give different orders.",
     ["schedules", "configurations"], "every interleaving of prefetch workers and consumer, every worker/prefetch setting",
     "Tests use one thread schedule and compare nothing across worker counts or processes.",
     ["dataset/source_dataset.py", "dataset/planner.py", "dataset/core.py", "dataset/decoder.py", "dataset/telemetry.py"],
     [("ordered prefetch pipeline", "dataset/source_dataset.py:SourceBatchDataset._iter_prefetched"),
      ("keyed counter RNG", "dataset/core.py:rng_u64")],
     "differential trace monitor under injected delays, schedule shaking and process restarts", NOTE)

prop("P03", "An interrupted stream resumes with the batches an uninterrupted run delivers",
     "Restoring the position saved after any committed batch, in the same or a fresh process and with any prefetch setting, "
     "continues with byte-for-byte the batches the uninterrupted run would have delivered next, including pipeline state. "
     "Batches delivered but not committed before an interruption are delivered again, none is skipped, and saving a restored "
     "position gives back the same state.",
     ["crash_points", "histories", "schedules"],
     "every interruption point, chain of interruptions, choice of checkpoint and read-ahead depth",
     "No test interrupts a stream; exactness at every cut point and read-ahead depth cannot be sampled by a few examples.",
     ["dataset/planner.py", "dataset/shuffle.py", "dataset/packed.py", "dataset/npz_source.py", "dataset/sequential_source.py",
      "dataset/composite_source.py", "dataset/packed_binary.py", "dataset/simple_binary.py"],
     [("transactional planner tokens and cursor state", "dataset/planner.py:DatasetPlanner.state_dict"),
      ("source cursors", "dataset/sequential_source.py")],
     "trace-equivalence monitor over crash/restore chains (fault injection at every delivery point)", NOTE)

prop("P04", "Stream positions move only by contiguous commits; invalid commits are refused",
     "The saved position advances only when a contiguous run of delivered batches starting at the current position is "
     "committed, and by exactly that run, which may span an epoch end. Skipped, reordered, repeated, stale, foreign or empty "
     "commits, and starting a new epoch while the current one is unfinished, are refused without moving the position. Rolling back "
     "re-delivers from the committed position.",
     ["histories", "fault_sequences"], "every sequence of plan, prepare, commit, rollback, restore and advance operations",
     "Tests exercise only the happy path; protocol misuse is a history property.",
     ["dataset/planner.py", "utils/training_utils.py"],
     [("prepare/commit of stream tokens", "dataset/planner.py:DatasetPlanner.prepare_commit"),
      ("prepare/commit of sampler tokens", "utils/training_utils.py:ResumableSampler.prepare_commit")],
     "model-based history monitor (random operation sequences against a sequential reference model)", NOTE)

prop("P05", "A saved stream position is honoured exactly or refused, never bent",
     "Restoring a stream position after changing anything that affects delivery (data files, their order or contents, seed, "
     "batch size, topology, mode, shuffling, sampling, filtering, decoding or pipeline options) is refused with an error. "
     "Structurally damaged or out-of-range positions are refused too, and an unaffected restore continues exactly.",
     ["configurations", "fault_sequences", "inputs"], "every single change of configuration or corpus, and damage to any saved field",
     "Tests never restore under a changed configuration.",
     ["dataset/planner.py", "dataset/npz_source.py", "dataset/sequential_source.py", "dataset/composite_source.py"],
     [("signature and manifest digests", "dataset/planner.py:DatasetPlanner.load_state_dict")],
     "fault-injection monitor: restore under one mutated configuration/corpus/state field, oracle refuse-or-identical", NOTE)

prop("P06", "Ranks partition the global batch plan without overlap or loss",
     "With several ranks the rows of global batch k, concatenated in rank order, are exactly the rows of batch k of the "
     "single-process run with the same seed, and all ranks commit the same step description. Formats that cannot split a "
     "global batch instead give each rank disjoint files and the same number of steps per epoch, together covering all files "
     "as the steps allow.",
     ["configurations", "inputs"], "every world size, rank, format, shape mix and step budget",
     "The distributed path is not run by any existing test.",
     ["dataset/planner.py", "dataset/npz_source.py", "dataset/sequential_source.py", "dataset/stream.py", "dataset/core.py"],
     [("rank slices of the global plan", "dataset/planner.py:DatasetPlanner.local_slice"),
      ("file ownership by rank", "dataset/sequential_source.py")],
     "offline partition checker over per-rank delivery logs", NOTE)

prop("P07", "Streaming stays within its declared memory, handle and read-ahead bounds",
     "The shuffle buffer never holds more records or bytes than configured, no more game files are open at once than the "
     "configured number of concurrent readers, and no more batches are decoded ahead than the configured prefetch depth. "
     "When an epoch ends no game file stays open, and ended, abandoned or failed epochs leave no worker thread behind.",
     ["configurations", "histories", "schedules"], "every window, byte budget, reader count, prefetch depth and interruption",
     "Tests do not observe resource use; bounds must hold at every step.",
     ["dataset/shuffle.py", "dataset/packed.py", "dataset/sequential_source.py", "dataset/source_dataset.py", "dataset/decoder.py"],
     [("reservoir capacity accounting", "dataset/shuffle.py"), ("active reader slots", "dataset/sequential_source.py")],
     "resource monitor (reservoir statistics, /proc/self/fd, thread and in-flight counters sampled at every delivery)", NOTE)

prop("P08", "The native shuffle reservoir equals its reference and is memory safe",
     "The compiled fixed-width shuffle buffer emits exactly the sequence defined by the portable shuffle algorithm for any "
     "chunking of offers, drains and save/restore points, reports the same statistics, and rejects malformed states and "
     "misuse with an exception. No call sequence reads or writes outside its buffers or hits undefined behaviour.",
     ["inputs", "histories", "fault_sequences"], "every capacity, chunking, element width, restore point and malformed state",
     "Existing tests never call the extension directly and run it without sanitizers.",
     ["dataset/planner_cpp/packed_shuffle.cpp", "dataset/packed.py", "dataset/shuffle.py"],
     [("native reservoir", "dataset/planner_cpp")],
     "AddressSanitizer/UBSan build under a random workload plus a reference-model monitor", NOTE)

prop("P09", "Shuffling, sampling and symmetry choices are keyed and order-independent",
     "Whether a streamed record is admitted under a sampling rate, and which symmetry it receives in an epoch, depend only on the seed, "
     "the epoch and the record's identity, not on shuffling, batch size, worker count or rank. Permutations are true "
     "permutations, bounded draws stay in range and are unbiased, admission frequency matches the rate, and sampling sets for a "
     "lower rate are subsets of those for a higher rate.",
     ["configurations", "inputs"], "every seed, epoch, rate, bound, corpus and delivery configuration",
     "Statistical and cross-configuration statements cannot be settled by a handful of examples.",
     ["dataset/core.py", "dataset/npz_source.py", "dataset/sequential_source.py", "utils/data_utils.py"],
     [("keyed counter RNG", "dataset/core.py:rng_u64"), ("admission", "dataset/core.py:sample_is_admitted")],
     "metamorphic monitor over keyed choices plus statistical monitors with fixed, conservative thresholds", NOTE)

prop("P10", "Board augmentation transforms every field of a sample alike and losslessly",
     "A delivered sample is the original under exactly one symmetry that the chosen setting allows, applied alike to the board, "
     "spatial policy and move fields, with side swapping and padding leaving the logical top-left board and all other values "
     "intact. Pass moves, value targets and board size never change, and the source data is not modified.",
     ["inputs", "configurations"], "every board size, symmetry, side-to-move, padding, pass option and format",
     "Tests look at tensor shapes of one corpus, not at field consistency under each symmetry.",
     ["utils/data_utils.py", "dataset/decoder.py", "dataset/simple_binary.py", "dataset/packed_binary.py", "dataset/katago.py"],
     [("sample post-processing", "utils/data_utils.py"), ("vectorised decoder", "dataset/decoder.py")],
     "content-identification monitor (independent symmetry/padding/flip oracle)", NOTE)

prop("P11", "Binary game records decode exactly, and damaged files are rejected",
     "Every position of a simple or packed game file is decoded to the stones, side to move, policy, value and move data it "
     "encodes, for every board size, rule, option and for compressed files. A truncated or malformed file raises an error "
     "and never yields a sample that was not in the file.",
     ["inputs", "fault_sequences"], "every record, option combination, truncation point and malformed field",
     "No test reads these formats.",
     ["dataset/simple_binary.py", "dataset/packed_binary.py", "dataset/sequential_source.py", "utils/winrate_model.py"],
     [("record parsers", "dataset/simple_binary.py"), ("game replay", "dataset/packed_binary.py")],
     "differential monitor against an independent encoder, with truncation and corruption fault injection", NOTE)

prop("P12", "Array datasets deliver the stored values in every access mode",
     "For the array formats, map-style, iterable and batched access deliver the same stored boards, targets and policies for "
     "the same records, whatever the cache size, thread count, chunk order, channel selection or filter. Corrupt, inconsistent "
     "or mis-shaped archives are rejected with an error instead of delivering wrong data.",
     ["inputs", "configurations", "fault_sequences"], "every archive layout, option, access pattern and corruption",
     "Tests read one format with one option set and never compare access modes.",
     ["dataset/katago.py", "dataset/npz_source.py", "dataset/decoder.py", "dataset/sparse_numpy.py"],
     [("planned NPZ decoder and row cache", "dataset/decoder.py"), ("map-style reader", "dataset/katago.py")],
     "differential monitor across access modes with cache pressure and archive corruption", NOTE)

prop("P13", "Filter expressions keep exactly the matching records and never run other code",
     "A filter expression keeps exactly the records for which the expression, read as ordinary array arithmetic over the "
     "record's fields, is true. Any expression that uses names, attributes, calls or operations outside the documented "
     "arithmetic subset, or that exceeds the size and work limits, is rejected before any record is read and has no side effect.",
     ["programs", "inputs"], "every expression text and every record",
     "Tests use no filters; the input space is a language.",
     ["dataset/filter.py", "dataset/katago.py", "dataset/npz_source.py"],
     [("whitelisted expression evaluator", "dataset/filter.py:SafeFilterEvaluator")],
     "grammar-based differential fuzzing of accepted programs and side-effect monitor for rejected ones", NOTE)

prop("P14", "Blended datasets follow the requested ratios and keep every record's own content",
     "A blended stream takes records from its children in exactly the requested ratio over every complete cycle, stops at the "
     "shortest child when lengths are synchronised and otherwise drains every child, and delivers each record with the content "
     "and identity of the child it came from.",
     ["configurations", "inputs", "histories"], "every ratio vector, child length, format, sync setting and epoch",
     "No test builds a blended dataset.",
     ["dataset/composite_source.py", "dataset/__init__.py"],
     [("weighted round-robin cycle", "dataset/composite_source.py:_weighted_cycle")],
     "ratio/conservation monitor over the delivered child sequence", NOTE)

prop("P15", "Renju forbidden points are computed by the rules, safely, for any position",
     "For every position on boards up to the supported size, the forbidden-point transform marks exactly the empty points where "
     "a black stone would make an overline, a double four or a double three under Renju rules, and nothing else. It never "
     "modifies its input, accesses memory out of bounds or depends on earlier calls.",
     ["inputs"], "every board position and size",
     "No test checks positions; recursive double-three rules need a reference.",
     ["dataset/pipeline/forbidden_point_cpp/board.cpp", "dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp",
      "dataset/pipeline/forbidden_point.py"],
     [("recursive forbidden check", "dataset/pipeline/forbidden_point_cpp/board.cpp")],
     "AddressSanitizer/UBSan build plus differential monitor against an independent Renju implementation", NOTE)

prop("P16", "Line features encode exactly the surrounding line of every point, safely",
     "For every board the line encoding maps each point and direction to the code of its surrounding stones, empties and walls, "
     "equal lines always get equal codes and different lines different codes, codes stay below the reported table size, and "
     "board mirror images map to mirrored codes. No input causes an out-of-bounds access.",
     ["inputs"], "every board, line length and direction",
     "No test checks the encoder.",
     ["dataset/pipeline/line_encoding_cpp/line_encoding.cpp", "dataset/pipeline/line_encoding.py"],
     [("line key computation", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp")],
     "AddressSanitizer/UBSan build plus differential and bijection monitors", NOTE)

prop("P17", "Batch pipelines see isolated state and their declared fields only",
     "A stateful batch pipeline receives a private copy of its state and its next state takes effect only with the batch it was "
     "prepared for. Pipelines that overwrite, remove or secretly modify undeclared fields, mutate their configuration or state, "
     "or produce malformed outputs are rejected, and state round-trips through its canonical encoding for every supported value.",
     ["programs", "inputs", "histories"], "every pipeline behaviour and state value",
     "No test installs a misbehaving pipeline.",
     ["dataset/core.py"],
     [("pipeline state composer", "dataset/core.py:PipelineStateComposer"), ("canonical encoding", "dataset/core.py:canonical_pipeline_state_bytes")],
     "contract monitor with deliberately misbehaving pipelines and encoding round-trip fuzzing", NOTE)

prop("P18", "Loss and metric statistics do not depend on how a batch is split",
     "Computing loss or metric statistics on parts of a global batch and combining them gives the same final values as computing "
     "them on the whole batch, for any split and combination order. Padded rows contribute nothing, and combining incompatible "
     "or finalising empty statistics is refused.",
     ["inputs", "configurations"], "every partition, order, mask and loss configuration",
     "Tests run one process and one batch shape.",
     ["dataset/core.py", "trainer/loss/supervised.py", "trainer/metric/supervised.py", "trainer/base.py"],
     [("combinable statistics", "dataset/core.py:SufficientStats"), ("loss statistics", "trainer/loss/supervised.py:compute_supervised_loss_statistics"),
      ("metric statistics", "trainer/metric/supervised.py:compute_supervised_metric_statistics")],
     "metamorphic monitor: random partitions of a batch against the whole", NOTE)

prop("P19", "Losses and metrics equal their published definitions",
     "Value, policy, auxiliary, regularisation and distillation losses equal their mathematical definitions for every supported "
     "option, target form and mask, training and evaluation report the same loss for the same batch, and metrics match direct "
     "counting. Losses have correct gradients and stay finite for extreme logits.",
     ["inputs", "configurations"], "every option combination, target layout and logit range",
     "Existing tests pin a few trajectories; they do not compare against definitions.",
     ["trainer/loss", "trainer/metric", "utils/training_utils.py", "dataset/core.py"],
     [("supervised losses", "trainer/loss/supervised.py:compute_supervised_losses"), ("metrics", "trainer/metric/supervised.py"),
      ("finalizers", "dataset/core.py:FINALIZERS")],
     "differential monitor against float64 reference formulas", NOTE)

prop("P20", "A crash while saving leaves the previous or the complete new checkpoint",
     "If the process dies or an I/O call fails at any point while a checkpoint is being written, the run directory still holds "
     "either the complete previous checkpoint or the complete new one, and the next start picks a complete one. A partially "
     "written file is never loaded or mistaken for a checkpoint.",
     ["crash_points", "fault_sequences"], "every file-system operation of every save",
     "Tests never interrupt a save.",
     ["utils/file_utils.py", "trainer/base.py", "utils/async_checkpoint.py"],
     [("temporary file and rename", "utils/file_utils.py:save_torch_ckpt")],
     "fault enumeration: kill or fail each file-system call of a save, then restart", NOTE, level="fault_enumeration")

prop("P21", "Retention keeps the newest checkpoints and selection picks the newest",
     "After saving, exactly the configured number (at least one, or all) of newest training states remain and the checkpoint just written is never "
     "deleted; model snapshots and unrelated files are untouched. On restart the newest complete checkpoint by iteration number "
     "is selected, whatever the file times, name padding or stray files.",
     ["histories", "inputs"], "every sequence of saves and directory contents",
     "Tests do not accumulate checkpoints.",
     ["trainer/base.py", "utils/file_utils.py"],
     [("retention", "trainer/base.py:_cleanup_checkpoints"), ("selection", "utils/file_utils.py:find_latest_ckpt")],
     "directory-history monitor with hostile directory contents", NOTE)

prop("P22", "A resumed training run reaches the same weights as an uninterrupted one",
     "Stopping training after any saved checkpoint and resuming in a fresh process yields the same parameters, optimizer and "
     "scheduler state, learning rates and data order at every later step as training without interruption, for every "
     "supported optimizer, accumulation setting and data source.",
     ["crash_points", "configurations"], "every stop step, checkpoint interval, optimizer, scheduler and source",
     "Tests train without interruption only.",
     ["trainer/base.py", "trainer/supervised.py", "utils/training_utils.py", "dataset/planner.py"],
     [("training state save/restore", "trainer/base.py")],
     "trace-equivalence monitor over interrupted training processes", NOTE)

prop("P23", "Failed or non-finite steps are never committed or checkpointed",
     "When a step fails or its loss or gradients are not finite, training stops with an error before that step reaches a "
     "checkpoint, a validation or the committed data position. The last checkpoint on disk then resumes as if the failing step "
     "had not started.",
     ["fault_sequences", "crash_points"], "every failing step and kind of failure",
     "Tests contain no failing steps.",
     ["trainer/base.py", "dataset/planner.py"],
     [("prepare, optimizer step, commit ordering", "trainer/base.py:run")],
     "fault-injection monitor on training steps", NOTE)

prop("P24", "A training checkpoint is restored only into a matching run",
     "Loading a training checkpoint whose model, optimizer, scheduler, world size, data configuration or companion files do not "
     "match the current run, or whose files are missing, truncated, structurally altered or belong to another iteration, is refused "
     "with an error on every rank before a step is taken and leaves the directory as it was; it is never silently mixed with fresh "
     "state. A flipped bit inside a stored weight or optimizer tensor is outside this property.",
     ["configurations", "fault_sequences"], "every mismatching option and damaged file",
     "Tests load no mismatched checkpoints.",
     ["trainer/base.py", "utils/file_utils.py"],
     [("checkpoint validation", "trainer/base.py")],
     "fault-injection monitor: restore under one mutated option or file", NOTE)

prop("P25", "Optimizers, schedules and clipping follow their definitions for every setting",
     "Each selectable optimizer updates parameters as its published definition says, with weight decay, parameter groups and "
     "accumulation as configured; learning-rate schedules produce their defined curve; gradient clipping bounds the global norm "
     "and weight clipping keeps every declared parameter in its range. Optimizer state survives saving and loading unchanged.",
     ["inputs", "configurations", "histories"], "every optimizer, hyper-parameter, parameter shape and step count",
     "Tests cover AdamW on two trajectories.",
     ["utils/training_utils.py", "utils/muon.py", "utils/fused_adamw.py", "utils/chained_optimizer.py"],
     [("optimizer registry", "utils/training_utils.py"), ("Muon", "utils/muon.py")],
     "differential monitor against reference update rules step by step", NOTE)

prop("P26", "Iterative map sampling covers the data set once per epoch across ranks",
     "For map-style training data the sampler visits each index at most once per epoch, ranks take disjoint indices that "
     "together cover all but the remainder, the order depends on seed and epoch only, and a restored position continues with the "
     "remaining indices.",
     ["configurations", "histories"], "every length, world size, seed, epoch and restore point",
     "Tests use one small loader.",
     ["utils/training_utils.py", "trainer/base.py"],
     [("resumable sampler", "utils/training_utils.py:ResumableSampler")],
     "conservation monitor over sampler histories", NOTE)

prop("P27", "Exported weights reproduce the model exactly and identify it correctly",
     "An exported weight file decodes, by the documented layout of its family, to the trained parameters and directional features "
     "within their quantisation step, so that predictions computed from the file equal those of the (quantised) model; its header "
     "carries the documented architecture hash and the requested rules, board sizes and description, and the binary, headerless and "
     "compressed variants hold the same weights. Traced graphs predict like the model on every batch and board size. Anything "
     "the format cannot hold is refused instead of wrapped or dropped, and a failed export leaves a previous file at the output path as it was.",
     ["inputs", "configurations", "fault_sequences"], "every model family with an export format, configuration and weight value",
     "Tests export nothing.",
     ["export.py", "model/serialization/__init__.py", "model/serialization/mixnet.py", "model/serialization/flatnet.py"],
     [("serializers", "model/serialization"), ("header", "export.py")],
     "round-trip monitor with an independent decoder", NOTE)

prop("P28", "Model outputs do not depend on batch composition or padding side effects",
     "The prediction for a position does not depend on the other positions in its batch or their order, symmetric models "
     "respect their declared symmetry, masked padding does not change what is predicted for the real board, outputs are finite with the "
     "documented shapes for every supported board size, a saved and reloaded model predicts the same, and evaluation leaves the "
     "inputs and the model's parameters and buffers unchanged.",
     ["inputs", "configurations"], "every model family, batch composition and board size",
     "Snapshot tests pin one batch per model.",
     ["model/mixnet.py", "model/flatnet.py", "model/patnet.py", "model/resnet.py", "model/input.py", "model/head.py"],
     [("model registry", "model/__init__.py")],
     "metamorphic monitor over model evaluations", NOTE)

prop("P29", "Vector quantisation assigns nearest codes and keeps its codebook consistent",
     "Quantised vectors are the nearest codebook entries, the straight-through (or rotated) gradient reaches the encoder as defined, "
     "reported losses, perplexities and usage counts match direct computation over the real entries, evaluation never changes the "
     "codebook, training moves every code to the moving average of the rows it represents over all ranks (whose codebooks stay "
     "identical), and code replacement puts input rows in place of exactly the codes whose usage fell under the limit. Codebook state, "
     "including an unfinished warm-up, survives saving and loading, and damaged continuation states are refused.",
     ["inputs", "histories"], "every batch, codebook and training history",
     "Tests only snapshot outputs.",
     ["model/vq.py"],
     [("vector quantizer", "model/vq.py")],
     "differential monitor against direct nearest-neighbour computation over training histories", NOTE)

prop("P30", "Telemetry and auto-tuning observe without interfering and stay bounded",
     "Telemetry never loses or double-counts work it reports, its counters and histories stay bounded and thread-safe, and "
     "auto-tuning only moves settings inside their limits and restores its state exactly. Option values that auto-tuning cannot use "
     "are refused up front, and damaged, foreign or concurrently expiring profile files are ignored. Neither telemetry nor tuning "
     "alters which samples are delivered, in which order, or what a training run computes.",
     ["schedules", "histories"], "every interleaving of recording threads and tuning history",
     "Tests run telemetry single-threaded, if at all.",
     ["dataset/telemetry.py"],
     [("pipeline telemetry and autotuner", "dataset/telemetry.py")],
     "concurrent stress monitor with conservation counters", NOTE)

prop("P31", "TensorBoard logs contain every scalar written, in order, and stay readable",
     "Every scalar written appears exactly once in the event log with its tag, step and value, in write order, whichever threads "
     "write. The file is a valid event log at any time after a flush.",
     ["schedules", "inputs"], "every sequence and interleaving of writes",
     "Tests write a few scalars from one thread.",
     ["utils/tb_writer.py"],
     [("writer", "utils/tb_writer.py")],
     "offline log checker with an independent record parser", NOTE)

prop("P32", "Configuration mistakes are rejected instead of ignored",
     "Unknown options, options that a format does not support, out-of-range values and, for streaming data sets, the same data file "
     "listed twice under any name are rejected when the data set or its loader is built (or, where only the files can tell, before the "
     "first sample is delivered), and valid configurations are accepted and honoured: accepted filters, rules and value targets select "
     "exactly what they name.",
     ["configurations"], "every option name, value and file list",
     "Tests use valid configurations.",
     ["dataset/__init__.py", "dataset/stream.py", "dataset/planner.py", "dataset/core.py", "utils/config_utils.py"],
     [("option validation", "dataset/__init__.py:build_dataset"), ("duplicate files", "dataset/stream.py:reject_duplicate_physical_files")],
     "accept/reject monitor over generated configurations", NOTE)

prop("P33", "Map-style evaluation covers every sample once and collates without mixing rows",
     "Evaluation over a map-style data set delivers each sample exactly once as a real row across all ranks, grouped by board shape, "
     "with repeated filler rows flagged, and collation keeps each sample's fields together in its own row.",
     ["inputs", "configurations"], "every data set length, shape mix, batch size and world size",
     "Tests evaluate one even-sized set.",
     ["dataset/stream.py", "utils/training_utils.py"],
     [("evaluation planner", "dataset/stream.py:EvaluationBatchPlannerDataset"), ("collation", "dataset/stream.py:collate_sample_dicts")],
     "conservation monitor over per-rank evaluation logs", NOTE)

prop("P34", "GPU prefetch keeps device batches intact under asynchronous copies",
     "Batches copied to a GPU ahead of use reach the model with the contents and order they had on the host, whatever the overlap of "
     "copies and computation.",
     ["schedules"], "every overlap of copy and compute streams",
     "Needs a GPU.",
     ["trainer/base.py", "utils/cuda_utils.py", "dataset/decoder.py"],
     [("device prefetch", "trainer/base.py")],
     "", "")

prop("P35", "Simulated integer arithmetic stays within the integer ranges it promises",
     "Fake-quantised operators produce values on their declared grid and inside their declared range, agree with integer arithmetic "
     "on the same grid, and pass gradients only where the value was not clipped. Weights clipped for training stay inside the range their "
     "quantised layer can represent.",
     ["inputs"], "every input value, scale and bit width",
     "Tests check a few values.",
     ["utils/quant_utils.py", "model/ops/quantized.py", "model/mixnet.py", "model/flatnet.py"],
     [("fake quantisation", "utils/quant_utils.py")],
     "differential monitor against integer arithmetic", NOTE)

prop("P36", "Hand-optimised layers compute their plain definitions",
     "For every shape, layout, mask, dtype and option the optimised operators (directional three-tap convolution, pointwise and "
     "per-sample matmul convolutions, masked batch norm with its hand-written backward and running statistics, small-table embedding "
     "including its compiled backward, product-quantised depthwise convolution, 3x3 region aggregation, hash layer, quantised "
     "activations, convolution and linear blocks, input planes and output head) give the same outputs and gradients as their "
     "straightforward definition.",
     ["inputs", "configurations"], "every shape, mask, option and value",
     "Tests compare a few shapes.",
     ["model/layers/convolution.py", "model/layers/directional.py", "model/layers/normalization.py", "model/layers/hashing.py",
      "model/ops/quantized.py", "model/ops/aggregation.py", "model/ops/embedding.py", "model/ops/dynamic.py", "model/input.py",
      "model/head.py"],
     [("hand-written backward of masked batch norm", "model/layers/normalization.py:_MaskedBatchNormFunction"),
      ("linear-gradient shortcut", "model/ops/quantized.py:product_quantization_has_linear_gradient"),
      ("directional convolution", "model/layers/directional.py")],
     "differential monitor of outputs and gradients against float64 definitions", NOTE)

NA = {
    "P34": "the sandbox has no GPU, so no execution of this path can be observed; CPU runs take a different code path",
}


def main():
    lines, checks, na = [], [], []
    for p in P:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "hook_needed": None}}
        if p["observe"]:
            q["anchors"]["observe_at"] = p["observe"]
        lines.append(json.dumps(q))
        built = (ROOT / "vm" / "checks" / f"{p['id'].lower()}.py").exists()
        if p["id"] in NA or not built:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        else:
            checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}",
                           "thorough_cmd": f"./run.sh {p['id']} --tier thorough", "technique": p["technique"],
                           "level": p["level"], "level_note": p["note"]})
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (ROOT / "MANIFEST.json").write_text(json.dumps(
        {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo: monitors wrap public entry points from the harness. "
                  "properties.jsonl and this file are generated by tools/spec.py."}, indent=1) + "\n")
    print(len(checks), "checks", len(na), "not applicable")


if __name__ == "__main__":
    main()
