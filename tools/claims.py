"""What each check claims: id -> (technique, level_note)."""
BASE = "Decides the property for the constructs it enumerates in the current source, on every path the abstract interpreter follows; "
CLAIMS = {
    "C01": ("interprocedural symbolic pairing of to_json/from_json (path-sensitive abstract interpretation over the AST)",
            BASE + "assumes json/base64/gzip/numpy/pandas/arrow library contracts and trusts the list of value classes whose payload codec is a third-party library."),
    "C02": ("who-calls query over the resolved program (forbidden decoders), plus path-sensitive abstract interpretation of every decoder for registry-only construction, bounds checks and error propagation",
            BASE + "the file-system object store's own pickle files are outside the property (they are local, not received)."),
    "C03": ("path-sensitive taint analysis from object key to file-system call with containment proofs on the normalised path; term equality of the key-to-file expression across operations",
            BASE + "assumes POSIX os.path semantics and no symbolic links planted inside the root; remote (S3/OSS) backends are not in the tree."),
    "C04": ("typestate analysis of the mailbox slots under the condition variable (lock-state-aware abstract interpretation), symbolic comparison of sender and receiver codecs per transport mode, error-flow analysis of deliveries",
            BASE + "assumes threading.Condition, concurrent.futures and HTTP deliver as documented; errors of fire-and-forget sends whose handle is never waited on are not covered, and the in-memory transport documents that it has no timeout."),
    "C05": ("symbolic shape analysis of message keys and context ids (term equality, counter-advance effects per path), context-propagation analysis over the interpreter's task graph, provenance (data-flow) of job ids across submit/transmit/dispatch",
            BASE + "assumes all parties run the same program version; libspu's own numbering of spawned links is not visible (one known finding)."),
    "C06": ("projection of the communication code onto symbolic participants (data kept as uninterpreted terms, ranks only compared) and matching of the projected send/receive sequences; uniformity analysis of the conditions controlling collective steps",
            BASE + "three individuals stand for any number because the code only compares ranks with each other (otherwise the routine is reported as not decided in the evidence); while_loop conditions are assumed uniform as its documentation says."),
    "C07": ("event-order typestate over the job state's stores and reads (path- and lock-state-aware abstract interpretation), exception-flow analysis of every handler on the job path, term-level projection of result collection onto named workers",
            BASE + "assumes concurrent.futures, FastAPI and the atomicity of attribute and dictionary stores; a failed background send is only visible through the peer that misses it."),
    "C08": ("path-sensitive abstract interpretation of both graph evaluators: event order of stores, releases, counts, queue puts and lock ownership per path of dispatch, completion and callback",
            BASE + "assumes queue, lock and executor semantics; an operation that raises outside Exception (SystemExit) on an executor thread is out of scope."),
    "C09": ("typestate analysis of scoped cells, context stacks, resources and locks over all normal and exceptional exits (path-sensitive abstract interpretation with summaries propagated to callers)",
            BASE + "assumes that close, shutdown and unlink calls do not themselves raise and that thread-local cells are private to a thread; one known finding (the shared context stack)."),
    "C10": ("cross-reference of the operation model recovered by abstract interpretation: creation sites (attributes, operands) against abstract evaluation signatures and implementations (attribute reads, operands, results) and handler tables",
            BASE + "a creation or implementation the interpreter cannot follow is left undecided and noted in the evidence; three known findings (operations without implementation)."),
    "C11": ("guard-dominance analysis: at every point where a party-level operation is recorded, the path conditions collected by path-sensitive abstract interpretation must contain the required comparisons (right operands, right direction), in scenarios that fix what is known about the holders; comparison functions are checked field by field",
            BASE + "holders that are only known at run time are not checked (that is what the dynamic type says); guards in a form the rule does not recognise are accepted when they relate the right quantities and noted in the evidence."),
    "C12": ("case-exhaustive abstract interpretation of every cryptographic typing rule: each operand position is given every kind of the repository's type universe (31 kinds), and each tie between operands (curve, suite, scheme, degree, type) is broken in turn; the rule must not complete on a forbidden case and must return the implied type on an allowed one; plus a scan of the creation sites and of the backend's key-producing functions",
            BASE + "operands are classified by type class and role parameters; a case whose outcome the interpreter cannot decide is counted in the evidence and never reported; run-time values that lie about their type are outside (C10 and C01 cover representation)."),
    "C13": ("case-exhaustive abstract interpretation of the device layer: for every ordered pair of device kinds on a fixed cluster, for every runner and for every combination of argument devices, the layer is followed with an abstract model of party-level operations (who holds the clear value, which share, which ciphertext under which key) and every move, result, tag and execution is judged",
            BASE + "one cluster with two or three devices of each kind stands for all (the code only reads member ranks and kinds); what a device's own function does with its arguments, and explicit fetches, are outside; a case the interpreter cannot follow is noted in the evidence and never reported."),
    "C14": ("symbolic path analysis of compile, pack, unpack and evaluate: on every completing path the path conditions must contain the refusals and the comparisons of each stored field with its recomputation from the graph; term-level analysis of what the digest hashes",
            BASE + "what the serialized graph contains is C01's subject; collision resistance of the hash is assumed; an artifact whose digest and content were altered consistently is valid by design (the digest is not a signature)."),
    "C22": ("symbolic projection of every protocol function onto its parties (abstract interpretation with ranks and inputs as atoms) and Dolev-Yao style closure of what each party can compute from the messages it receives; data-flow of ranks into routing and local calls",
            BASE + "operations outside the listed decomposition rules count as hiding, so statistical weaknesses of a protocol (correlations between its messages, dictionary attacks on hashes) are not decided; protocols called by other protocols are checked at their own definition; one known finding."),
    "C15": ("provenance of every key, seed, nonce, mask and scalar (abstract interpretation of the random, encryption and derivation operations back to their sources; symbolic following of every protocol for reuse in loops, stretching, constant seeds and shared derivations), hash-domain and label queries over the resolved program, inter-procedural taint of key agreements",
            BASE + "native kernels and third-party libraries (tenseal, lightphe, cryptography) are trusted to draw well; reuse is decided for scalars in base oblivious transfers and for seed expansions, implicit broadcasting of a short mask is not followed; one known finding (process-wide BFV key cache)."),
    "C16": ("taint of generated key pairs and private operands (abstract interpretation of every key-producing, decrypting and ciphertext-producing operation into its results, through the constructors of the wrapped values), polymorphic-serialization query over the declared types of fields",
            BASE + "the objects of third-party libraries are opaque (a context keeps its secret unless re-serialized without it or made public, a dictionary of keys unless its private entry is left out); what a caller does with a private key afterwards is C12/C15/C22."),
    "C17": ("cache-key dependence analysis (symbolic inputs of every memoized value against those its key determines), ownership of per-request interpreters and communication contexts, lockset analysis of shared containers with test-and-create under one hold",
            BASE + "a cache is a container that is looked up and filled with the same key in one function; inputs reached only through third-party objects are opaque; sharing of an object stored under a complete key (for instance the BFV keys, a recorded finding of C15) is not an interference by itself."),
    "C18": ("abstract interpretation of the constructor check over an arbitrary node and device (path conditions each accepting path must have decided), predicate abstraction of device kind and member count, written/read key comparison between emitting and parsing",
            BASE + "kinds and member counts are decided over a finite abstraction (known and unknown kinds in three letter cases, zero to three members); an explicit rank in an entry is ignored by design (the position is the rank)."),
    "C19": ("abstract interpretation of one arbitrary iteration of every batch-reading loop (each batch read must occur exactly once, in order, in what is returned or kept) with row-count conditions evaluated on small sizes, typestate of written files (open, written, closed, renamed) over all normal and failing paths, and order analysis of combined columns and names",
            BASE + "pyarrow, duckdb and pandas readers and writers are assumed to do what their documentation says; row counts are decided over small representative values; leftover temporary files are not alarms."),
    "C20": ("cross-language prototype matching (native declarations against ctypes declarations and call sites), value-flow of every buffer passed (contiguity, element type, freshness, lifetime) with sizes evaluated over a family of small shapes under the checks passed on the path, interval analysis of the native routines' indices on clang's syntax tree, path comparison of native and fallback results, and comparison of the loop-free kernels (hash of a key, field product) in one algebraic normal form read off clang's syntax tree and the fallback's terms",
            BASE + "how many elements a routine indexes is a table per routine, itself checked against the native loops where these bound the index; data-dependent native indices (hashes, column numbers) are bounded by checks on the Python side only; equality of the fallback's arithmetic with the native one is decided for the hash of a key, the field product and the key and mode of the block permutation, not for the peeling of a table and the sparse encoding (loops: same inputs, same variant, same order only)."),
    "C21": ("abstract interpretation of one arbitrary iteration of the split and recombination loops, slot-role matching between writers and readers of the split description, and order analysis (segments a list is built from) of parameters, captures, region inputs and results",
            BASE + "assumes JAX's tree_flatten/tree_unflatten/tree_map are inverse and order preserving; a loop or list whose order cannot be told is noted in the evidence and never reported; func.call's handling of captures is left to the run-time refusal."),
}
TODO = "check not built yet"
NOT_APPLICABLE = {f"C{i:02d}": TODO for i in range(1, 26)}
NOT_APPLICABLE.update({
    "C23": "Numeric correctness of kernels quantifies over runtime array contents and floating-point/ring arithmetic; no static argument in reach decides it without executing (concretely or symbolically) the kernels.",
    "C24": "Hang-freedom under peer failure is a liveness property over unbounded network schedules and timeouts; the code deliberately uses polling with unbounded totals, so there is no static rule whose violation is the property's violation.",
    "C25": "Simulation-based privacy of MPC protocols is a statement about distributions of transcripts (a cryptographic proof), which no static analysis of the source in reach can decide.",
})
