GEN = "Random search over generated histories with shrinking, not a proof. "
M = "Trusts the reference model in harness/src/model.rs, which shares no code with jmt."
CHECKS = {
 "C01": ("proptest: generated histories against a reference Merkle hash", "exploration", GEN + M),
 "C02": ("proptest: model-based testing of generated histories", "exploration", GEN + M),
 "C03": ("proptest: generated histories, proofs judged by an independent verifier", "exploration", GEN + M),
 "C09": ("proptest: differential testing of groupings of the same history", "exploration", GEN),
 "C10": ("proptest: differential testing of batched against ordinary insertion", "exploration", GEN),
 "C11": ("proptest: structural invariant over generated histories", "exploration", GEN + M),
 "C12": ("proptest: stateful testing with generated prune points, model and unpruned twin as oracle", "exploration", GEN + M),
 "C13": ("proptest: invariant (stored = reachable) over generated histories and all prune points", "exploration", GEN + M),
 "C14": ("proptest: reported statistics recounted from generated batches", "exploration", GEN),
 "C04": ("proptest: generated true and mutated proofs against an independent verifier and the model map", "exploration", GEN + M + " Forgeries are found only where a mutation reaches them."),
 "C05": ("proptest: exclusion proofs of generated histories against neighbours computed from the model map", "exploration", GEN + M),
 "C06": ("proptest: ICS23 proofs of generated histories judged by the ics23 crate, true and false statements", "exploration", GEN + "Trusts the ics23 crate as the standard verifier."),
 "C07": ("proptest: update proofs of generated update lists, also after encoding", "exploration", GEN + M),
 "C08": ("proptest: mutated update proofs and claims against the model transition", "exploration", GEN + M),
 "C15": ("proptest: iteration of generated histories against the model map", "exploration", GEN + M),
 "C16": ("proptest: range proofs, true and mutated, against hashes of the model map", "exploration", GEN + M),
 "C17": ("proptest: restores in generated chunks, compared with the tree written at once", "exploration", GEN + M),
 "C18": ("proptest: restores interrupted at generated points and by injected write failures", "exploration", GEN + M),
 "C19": ("proptest: restores fed generated corrupt chunks, everything written compared with the true tree", "exploration", GEN + M),
 "C20": ("proptest: round trips of every object of generated histories in four formats, decoding of damaged encodings", "exploration", GEN),
 "C21": ("proptest: stateful testing of appends, updates and purges against the model", "exploration", GEN + M),
 "C22": ("proptest with fault injection: up to nine reads of each operation failed, stored nodes and values removed", "fault_enumeration", "Of each generated operation, up to nine of its reads (all, if it has at most nine) are failed one by one; the operations are sampled."),
 "C23": ("proptest: alternative updates computed in generated orders, differential", "exploration", GEN),
 "C24": ("proptest: stateful testing of the bundled store against a model store", "exploration", GEN),
 "C25": ("proptest: differential testing of nine feature sets, and of a build without debug assertions, on generated operations", "exploration", GEN + "Dependencies are built with their standard features."),
 "C26": ("proptest: generated interleavings of operations with commits and purges, and stress threads on the bundled store", "exploration", GEN + "The thread part is scheduled by the operating system: sampled, not enumerated."),
 "C27": ("proptest: paths, node keys and nodes, stored or generated, against plain sequences", "exploration", GEN + M),
 "C28": ("proptest: layouts of every object of generated histories against hand-written encoders", "exploration", GEN),
 "C29": ("proptest: stateful testing of trees with a part of up to 16^15 made-up entries against the model", "exploration", GEN + M),
}
