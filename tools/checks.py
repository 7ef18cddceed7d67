# technique and level note of every check, by property
RT = "runtime monitoring: round-trip oracle over generated recordings"
G = "Every case observes the real code built from the working tree; the verdict covers the generated cases of this seed (counts in evidence), not all inputs. Trusts the monitor's own model, generators and oracle."
C = {
"C01": (RT, "exploration", G),
"C02": (RT + ", independent value parser", "exploration", G),
"C03": (RT + ", repeated and interleaved reads", "exploration", G),
"C04": (RT + ", bit-exact comparison on special and random doubles", "exploration", G),
"C05": ("runtime monitoring: per-step drift oracle on decoded captures", "exploration", G + " The bound follows each step, so accumulated error is seen on long runs."),
"C06": ("runtime monitoring: modular distance oracle on decoded angles", "exploration", G),
"C07": ("runtime monitoring: resolution oracle on decoded floats", "exploration", G),
"C08": ("runtime monitoring: order and drift oracle on decoded times", "exploration", G),
"C09": (RT + " with shared event dictionaries", "exploration", G),
"C10": (RT + " with shared enum dictionaries", "exploration", G),
"C11": ("runtime monitoring: byte accounting at sink and source", "exploration", G),
"C12": ("runtime monitoring: spy encoders with an event log checked offline (exactly-once, payload identity)", "exploration", G),
"C13": ("runtime monitoring: differential loading under source schedules and injected source faults", "fault_enumeration", G + " For the small files of the fault family every failing offset is tried."),
"C14": ("fault enumeration: every prefix of generated files and payloads, outcome oracle", "fault_enumeration", G + " All prefixes of each generated file are tried."),
"C15": ("runtime monitoring under structure-aware corruption, with memory, stack and CPU sanitizing limits", "exploration", G + " Work bound: allocations and CPU per case measured against the bytes present; process deaths are confirmed by a second run of the case alone."),
"C16": ("fault enumeration: sink faults at every offset and call, event log of the sink", "fault_enumeration", G + " Every call of the fault-free write and every byte offset of the small files is failed."),
"C17": ("runtime monitoring: independent version 1 encoder, content oracle", "exploration", G),
"C18": ("runtime monitoring: real command line upgrade, content oracle with technique bounds", "exploration", G),
"C19": ("runtime monitoring: slice oracle and algebraic laws on observed recordings", "exploration", G),
"C20": ("runtime monitoring: independent evaluation of order and extent", "exploration", G),
"C21": ("runtime monitoring: generated documents, independent expected recording", "exploration", G),
"C22": ("runtime monitoring: hostile documents, refusal and no-loss oracle", "exploration", G),
"C23": ("runtime monitoring: real command line export parsed by an independent JSON reader", "exploration", G),
"C24": ("runtime monitoring: marshal and unmarshal oracle, hostile JSON", "exploration", G),
"C25": ("runtime monitoring: conservation of rows through the real command line conversion", "exploration", G),
"C26": ("race detector and differential results under concurrent stress", "exploration", G + " Absence of races is shown for the schedules that occurred."),
"C27": ("runtime monitoring: before and after snapshots, reuse versus fresh instances", "exploration", G),
"C28": ("runtime monitoring: independent totals against the real command line summary", "exploration", G),
"C29": ("runtime monitoring: defect placed at every node, sink event log", "fault_enumeration", G),
"C30": ("runtime monitoring: real command line processes with files, pipes, faults; exit status and file system oracle", "exploration", G),
"C31": ("runtime monitoring: differential against an independent codec in both directions", "exploration", G),
"C32": ("runtime monitoring: marshalled BSON parsed by an independent walker", "exploration", G),
"C33": ("runtime monitoring: consistency of all accessors against the model", "exploration", G),
"C34": ("runtime monitoring: round-trip of stored values, independent value parser, every prefix and every sink fault", "fault_enumeration", G + " All prefixes and all sink fault offsets of small values are tried."),
"C35": ("runtime monitoring: real programs run, output compared with an independent report", "exploration", G),
"C36": ("runtime monitoring: differential between stand-in implementations and built recordings", "exploration", G),
"C37": ("runtime monitoring: model-based histories of operations, snapshots of all earlier results", "exploration", G),
"C38": ("runtime monitoring: numbers and names in the text compared with the model", "exploration", G + " One known finding: element counts of byte and boolean arrays, pinned by an existing test."),
"C39": ("runtime monitoring: allocated bytes and thread CPU time compared at two sizes", "exploration", "One dimension or a sample of combinations of two to five is large at a time, at sizes up to 16 times a few thousand; superlinear parts below a third (memory) or too small to dominate at those sizes are not seen. Depth of nesting is excluded."),
"C40": ("runtime monitoring: chains of conversions, every stage judged by library, summary and export", "exploration", G),
"C41": ("runtime monitoring: sizes of files compared with an independent encoder and the best compression", "exploration", G),
"C42": ("runtime monitoring: spy sources and sinks, memory overwritten after use, descriptors, goroutines, files and output of the process before and after", "exploration", G),
"C43": ("differential runtime monitoring: the other monitors repeated in a 32 bit build and in one with fused arithmetic, and what the builds make of the same bytes compared by a peer process", "exploration", G),
}
