"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Whatever is serialized is recovered exactly by the matching reader",
     "Every value, type, graph or program that the serializer accepts is rebuilt by the matching reader (JSON, base64 or binary container form) with the same kind, contents, order, types and wiring, and no field is dropped, defaulted, swapped or mixed with another. Each registered kind belongs to one class and is never confused with a built-in kind. Types that compare equal hash equally and compare all their parameters.",
     ["inputs", "programs"], "all objects of all serializable classes, including nested containers, zero-size/object arrays, tables, optional fields at any value, graphs with arbitrary value names and nested regions",
     "tests round-trip a handful of sample objects; a field lost only for one combination of optional values, one nested position or one transport form is never sampled",
     ["mplang/edsl/serde.py", "mplang/edsl/typing.py", "mplang/edsl/graph.py", "mplang/edsl/program.py", "mplang/backends/", "mplang/dialects/spu.py", "mplang/tool/program.py"],
     [("generic tagged writer/reader pair", "mplang/edsl/serde.py: to_json/from_json, _to_binary_json/_from_binary_json"), ("per-class writer/reader methods", "every @serde.register_class class"), ("graph writer/reader", "mplang/edsl/graph.py: Graph.to_json/from_json")])

prop("C02", "Received data can only become registered value kinds, never code",
     "Decoding bytes that came from another party, a client, an artifact or a graph attribute never executes or imports anything named by those bytes: no pickle, eval/exec, unsafe YAML, allow_pickle or dynamic import is reachable from any network handler, artifact loader, graph loader or operation implementation (a file-backed store reading back files under its own root is the only exception). Unknown kinds, malformed containers and truncated buffers are rejected with an error.",
     ["inputs"], "all byte strings an attacker may send to any endpoint or store in any artifact",
     "tests feed well-formed payloads; absence of a code-executing decoder on every path is a whole-program reachability fact",
     ["mplang/edsl/serde.py", "mplang/backends/simp_worker/http.py", "mplang/backends/simp_driver/http.py", "mplang/tool/program.py", "mplang/runtime/object_store.py"],
     [("decoder registry keyed by kind", "mplang/edsl/serde.py: from_json"), ("request handlers", "mplang/backends/simp_worker/http.py: register_routes"), ("artifact loader", "mplang/tool/program.py: unpack")])

prop("C03", "Stored objects stay inside their store's root",
     "No object key, however spelled (absolute, with parent segments, or naming a sibling directory that shares a prefix with the root), makes the file-backed store read, write, delete, create or report a file outside its root directory: every operation that takes a key resolves it through a containment check on the normalised path before touching the file system (only table-file copies additionally accept an absolute path or, for reading, a file in the working directory as the plain file it names). A stored object is returned for exactly the key it was stored under, by the backend of its scheme and of its own party; a missing key is an error.",
     ["inputs", "configurations"], "all keys, all root directories, all store operations",
     "tests try one or two traversal strings on one operation; a new operation or a reordered check escapes them",
     ["mplang/runtime/object_store.py", "mplang/backends/store_impl.py", "mplang/backends/simp_worker/http.py"],
     [("key resolution", "mplang/runtime/object_store.py: FileSystemBackend._resolve_key"), ("per-scheme dispatch", "mplang/runtime/object_store.py: ObjectStore")])

prop("C04", "Each point-to-point message reaches exactly its own receiver, once",
     "A receive returns the one message sent by exactly that peer under exactly that key, and no message is returned twice, overwritten, dropped or delivered to another key or rank. A waiting receiver is woken by the arrival or by shutdown, never returns without a message (over the network transport it also honours its timeout), and a second message under a still-occupied key is reported as an error. A blocking send raises when delivery failed.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of senders, receivers, handler threads, timeouts and shutdown",
     "tests run a few lucky interleavings; lost wake-ups, overwrite races and unlocked mailbox access need a specific schedule",
     ["mplang/backends/simp_worker/mem.py", "mplang/backends/simp_worker/http.py", "mplang/backends/simp_worker/base.py", "mplang/backends/channel.py"],
     [("mailbox with condition variable", "mplang/backends/simp_worker/mem.py: ThreadCommunicator; mplang/backends/simp_worker/http.py: HttpCommunicator"), ("request handles", "mplang/backends/simp_worker/base.py: Request")],
     state=[("mailbox", "arrived messages not yet received, keyed by sender rank and message key")])

prop("C05", "Message keys never collide and always match between two peers",
     "For any two parties, the n-th message one sends in a communication context is the one the other's n-th receive from it in that context asks for, however both sides interleave their own sends and receives. Different contexts (jobs, spawned children, concurrently running operations) and different directions or peers never share a key, and spawned identities are the same on all parties regardless of scheduling.",
     ["schedules", "programs"], "all programs, all orders in which a party's concurrent operations start, all numbers of jobs",
     "tests use one or two exchanges; a collision or mismatch needs two contexts, directions or jobs to coincide",
     ["mplang/backends/simp_worker/comm_context.py", "mplang/runtime/interpreter.py", "mplang/backends/simp_worker/request.py", "mplang/backends/channel.py"],
     [("per-peer, per-direction counters in the key", "mplang/backends/simp_worker/comm_context.py: CommContext"), ("content-derived child context names", "mplang/runtime/interpreter.py: graph execution")])

prop("C06", "Collectives pair every send with a receive on every party",
     "In barrier, broadcast, gather and reduce operations and in routed shuffles, each message a participant sends is received by exactly one participant that expects it from that sender, in the same order on both sides, whatever the participant subset and root; results are in participant order and equal on all participants. Every party of a conditional region runs the same communication steps, and disagreement on a uniform predicate is detected on all of them.",
     ["inputs", "configurations", "schedules"], "all participant subsets, roots and routings",
     "tests run fixed small groups; a mismatch for a non-zero root or a subset shows up only as a hang",
     ["mplang/backends/simp_worker/collective_algorithms.py", "mplang/backends/simp_worker/collectives.py", "mplang/backends/simp_worker/ops.py"],
     [("root gather and release", "mplang/backends/simp_worker/collective_algorithms.py"), ("routing table", "mplang/backends/simp_worker/ops.py: shuffle_static")])

prop("C07", "A finished job's outcome is published whole and failures are never hidden",
     "An observer that sees a job as finished also sees its result (or its error), whatever the interleaving of worker, poller and submitter; a status once terminal never changes. An exception while deserializing, executing or serializing a job, on any worker, makes that job fail visibly to the caller instead of returning success, a partial result or nothing, and does not poison later jobs.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of polling with completion, all failing steps, all failing workers",
     "tests poll after completion; the window between two stores, or an error swallowed on one path, is not sampled",
     ["mplang/backends/simp_worker/http.py", "mplang/backends/simp_driver/http.py", "mplang/backends/simp_driver/mem.py"],
     [("async task table", "mplang/backends/simp_worker/http.py: register_routes"), ("driver result collection", "mplang/backends/simp_driver/")])

prop("C08", "Graph execution respects data dependencies under any scheduling",
     "Executing a graph runs every operation exactly once, after all operations producing its inputs, with its inputs and results in declared order; a value is released only after its last consumer and never when it is a graph output. Sequential and concurrent execution give the same outputs, and the first failing operation's exception reaches the caller while waiting threads are released.",
     ["schedules", "programs"], "all graphs (shared inputs, repeated operands, multiple outputs, no outputs), all completion orders of concurrent operations",
     "tests run a few graphs with mostly immediate operations; release-too-early and missed-dependency bugs need particular completion orders",
     ["mplang/runtime/interpreter.py"],
     [("reference counts, pending counts and ready queue", "mplang/runtime/interpreter.py: Interpreter")])

prop("C09", "Scoped execution state is restored on every exit, including errors",
     "The current context, party mask, profiling scope and communication context that an operation installs for a nested region are restored to their previous values on every way out of that region, including exceptions, and are private to the thread or request that installed them. Locks taken are released and executors, readers, writers and temporary files opened for an operation are closed on every path.",
     ["fault_sequences", "schedules"], "all operations raising at any point inside a nested region",
     "tests exercise the success path; a leak needs an exception at one particular point followed by more work",
     ["mplang/runtime/interpreter.py", "mplang/edsl/context.py", "mplang/backends/simp_worker/ops.py", "mplang/backends/table_impl.py", "mplang/backends/bfv_impl.py"],
     [("context stack", "mplang/edsl/context.py"), ("party mask", "mplang/backends/simp_worker/ops.py: pcall_static"), ("thread-local state", "mplang/runtime/interpreter.py")])

prop("C10", "Every operation a program can contain is executable with what it carries",
     "Each operation the frontend can put in a graph has an implementation in the default backends or a party-level handler, each opcode has one definition and one implementation, and an implementation only reads attributes that every creation of that operation supplies (or that it defaults), accepts as many operands as it is given and returns as many results as were declared. Party-level operations are handled by worker and driver alike.",
     ["programs"], "all operations of all dialects and all ways frontend functions create them",
     "tests run the operations someone thought of; a missing handler, attribute or operand appears only when that operation is first used",
     ["mplang/dialects/", "mplang/backends/"],
     [("primitive definition, abstract evaluation, implementation registration", "mplang/dialects/*.py, mplang/backends/*_impl.py"), ("party-level handler tables", "mplang/backends/simp_worker/ops.py: WORKER_HANDLERS; mplang/backends/simp_driver/ops.py: DRIVER_HANDLERS")])

prop("C11", "Ill-typed or ill-placed party programs are rejected before execution",
     "Tracing never records a party-level operation whose operands violate its contract: local calls on parties outside an operand's holders, moves from a party that does not hold the value, merges of overlapping holders or different value types, conditionals or loops with non-scalar predicates or mismatched branches and states. The recorded result type names exactly the parties that will hold the value.",
     ["programs"], "all combinations of operand types, holder sets, routings and region signatures",
     "tests assert some rejections; each check must dominate the recording of the node on every path",
     ["mplang/dialects/simp.py", "mplang/edsl/typing.py"],
     [("trace rules of party-level operations", "mplang/dialects/simp.py")])

prop("C12", "Key roles and data kinds are enforced when cryptographic operations are built",
     "An operation that needs a private (or public, or symmetric) key, a ciphertext, a share or a particular suite/scheme/curve is never recorded with an operand of another role or kind, and its result carries the role, scheme, suite or plaintext type implied by its operands. Mismatched suites, schemes or shapes are rejected while the program is built.",
     ["programs"], "all operand type combinations for all cryptographic, enclave, homomorphic and secret-sharing operations",
     "tests assert a few rejections; each operand's check must hold on all paths of each operation",
     ["mplang/dialects/crypto.py", "mplang/dialects/tee.py", "mplang/dialects/bfv.py", "mplang/dialects/phe.py", "mplang/dialects/spu.py"],
     [("abstract evaluation rules", "mplang/dialects/*.py: def_abstract_eval")])

prop("C13", "Device placement never exposes a private value to another device in the clear",
     "A value placed on a private, secure or enclave device leaves it only in the protected form of the target: secret shares for a secure device, an authenticated encryption under an attested session key for an enclave, or by an explicit transfer to the requested private device. Every device kind pair is handled or refused, the result is tagged with the device that holds it, and a function runs only on arguments of its own device.",
     ["programs", "configurations"], "all pairs of device kinds and all programs using them",
     "tests cover simulated happy paths of a few pairs; a plaintext leak changes no result",
     ["mplang/libs/device/api.py", "mplang/libs/device/cluster.py"],
     [("device-to-device transfer", "mplang/libs/device/api.py: _d2d and helpers"), ("device dispatch", "mplang/libs/device/api.py: device()")])

prop("C14", "A packed program runs exactly as compiled, or is refused",
     "A compiled artifact contains everything execution needs: compilation refuses functions that capture traced values, return constants or otherwise depend on the compiling process. Loading and running an artifact first checks its format version, its integrity digest over the whole graph and its input/output signature, and refuses mismatches; the digest depends only on the program's content.",
     ["programs", "inputs"], "all programs and all altered artifacts",
     "tests alter one field; the check must cover all content and precede every use",
     ["mplang/edsl/program.py", "mplang/tool/program.py"],
     [("compile-time refusals", "mplang/tool/program.py: compile_program"), ("artifact validation", "mplang/tool/program.py: unpack, mplang/edsl/program.py: CompiledProgram")])

prop("C15", "Cryptographic randomness, nonces and labels are used safely",
     "All keys, seeds, nonces, masks and blinding scalars come from a cryptographically secure source, never from a seedable or constant one, and every encryption uses a fresh random nonce with authenticated encryption that decryption verifies. Key derivations are domain-separated per purpose, distinct protocols use distinct hash domains, and secrets are neither logged nor placed in error messages or program attributes.",
     ["inputs", "programs"], "all executions of all cryptographic operations",
     "outputs of weak and strong randomness look alike to tests; nonce reuse and missing separation change no functional result",
     ["mplang/backends/crypto_impl.py", "mplang/backends/field_impl.py", "mplang/backends/phe_impl.py", "mplang/backends/tee_impl.py", "mplang/libs/mpc/", "mplang/dialects/"],
     [("AEAD, KEM and HKDF implementations", "mplang/backends/crypto_impl.py"), ("domain separators", "mplang/libs/mpc/")])

prop("C16", "Secret key material never travels in public objects",
     "A public key, evaluation key, parameter set or ciphertext, in memory or serialized, never contains the secret key it was derived from; decryption reads the secret only from the operand that carries the private role. Key generation returns its public and private parts in declared order as distinct objects.",
     ["inputs", "programs"], "all key-producing operations and all serialized forms",
     "a leaked secret changes no computed result, so functional tests pass",
     ["mplang/backends/bfv_impl.py", "mplang/backends/crypto_impl.py", "mplang/backends/phe_impl.py", "mplang/dialects/bfv.py"],
     [("context classes and make_public", "mplang/backends/bfv_impl.py"), ("key generation", "mplang/backends/crypto_impl.py")])

prop("C17", "Concurrent requests share no mutable execution state",
     "Each request runs with its own interpreter, communication context, party mask and secure-runtime state; what is shared between requests is immutable, lock-protected or a cache whose key includes every input that determines the cached object. Shared containers are only changed under their lock.",
     ["schedules", "configurations"], "all sets of concurrent requests and configurations in one process",
     "tests run one or two requests with equal configuration; cache-key omissions and unlocked sharing need a specific pair",
     ["mplang/backends/simp_worker/request.py", "mplang/backends/simp_worker/infra.py", "mplang/backends/spu_state.py", "mplang/runtime/interpreter.py", "mplang/backends/bfv_impl.py"],
     [("per-request factory", "mplang/backends/simp_worker/request.py"), ("keyed caches", "mplang/backends/spu_state.py, mplang/backends/simp_worker/infra.py")])

prop("C18", "Inconsistent cluster and device descriptions are rejected up front",
     "A cluster description is accepted only if ranks are unique, names resolve, every device's members exist and satisfy its kind's count, and endpoints are unambiguous; parsing and emitting a description are inverse, and unknown device kinds or malformed entries raise instead of being skipped. A driver, simulator or compile context accepts a description only for as many workers as it describes, and every command line option that describes the cluster takes effect.",
     ["configurations"], "all cluster descriptions",
     "tests use a few valid descriptions and single faults",
     ["mplang/libs/device/cluster.py", "mplang/cli.py", "mplang/backends/simp_driver/", "mplang/dialects/simp.py"],
     [("validation", "mplang/libs/device/cluster.py: ClusterSpec")])

prop("C19", "Table input and output lose, duplicate and misplace no data",
     "Reading a table in batches yields every row exactly once in order for every batch size and source chunking, and combining several sources keeps all of them aligned or fails. Declared column types are delivered or refused, and columns keep their names. A written file holds every batch of its input and, like an object saved to the persistent store, appears at its destination only when complete: on any error the destination is untouched and the error reaches the caller. The table a write returns stays readable.",
     ["inputs", "fault_sequences"], "all chunkings, batch sizes, formats and failing steps",
     "tests use small single-chunk tables without faults",
     ["mplang/backends/table_impl.py", "mplang/runtime/object_store.py"],
     [("batch re-chunking", "mplang/backends/table_impl.py: TableReader"), ("writers", "mplang/backends/table_impl.py: write paths")])

prop("C20", "Native kernels are called with the layout they were compiled for",
     "Every native routine called from Python exists in the native sources with the same number, order, width and direction of parameters, receives contiguous buffers of the element type it indexes whose sizes follow from the passed lengths, and a missing library, or one lacking a routine, leads to an equivalent fallback or an error. Buffers passed stay alive for the call, a routine writes only its output, which is what is returned, and a failure it reports is not ignored. A native routine and its fallback hash a key, multiply field elements and permute a block alike. Both sides of an encoded table choose its layout by the size of the table alone.",
     ["inputs", "configurations"], "all call sites and argument arrays",
     "a wrong width or missing contiguity conversion works on the arrays tests happen to pass",
     ["mplang/backends/field_impl.py", "mplang/kernels/"],
     [("ctypes prototypes", "mplang/kernels/*.py, mplang/backends/field_impl.py"), ("extern C functions", "mplang/kernels/*.cpp")])

prop("C21", "Splitting a call into values and constants and back is lossless",
     "For every nested argument or result structure, the split into traced values and constants, and its recombination, restores each leaf at its position; the recorded parameters correspond one-to-one and in order with graph inputs, followed by captured values in a fixed order. Re-binding a traced function to new arguments pairs each argument with its own parameter or is refused.",
     ["inputs", "programs"], "all nested structures mixing values and constants, all capture orders",
     "tests use few shapes; position shifts appear only for certain mixtures",
     ["mplang/utils/func_utils.py", "mplang/edsl/tracer.py", "mplang/edsl/program.py"],
     [("morph/demorph", "mplang/utils/func_utils.py"), ("region input alignment", "mplang/edsl/tracer.py")])

prop("C22", "Protocol libraries send private inputs only in masked form",
     "In the protocol libraries (oblivious transfer, set intersection, pseudorandom functions, secure aggregation and analytics), a party's raw private input or secret key never reaches another party: what is moved between parties is derived from it only through a hashing, encryption, masking or public-key operation, and each move's source and destination are the parties the caller named.",
     ["programs", "inputs"], "all uses of the protocol libraries with any party ranks",
     "sending the raw input as well leaves every functional result unchanged",
     ["mplang/libs/mpc/"],
     [("local calls and moves", "mplang/libs/mpc/**: pcall_static / shuffle_static uses")])

prop("C23", "Arithmetic kernels and protocol outputs are numerically correct",
     "Field, polynomial, hashing and secret-sharing kernels compute the mathematical function they are named after for all inputs, and protocol outputs equal the ideal functionality's.",
     ["inputs"], "all field elements, sizes and seeds",
     "tests sample inputs",
     ["mplang/backends/field_impl.py", "mplang/kernels/", "mplang/libs/mpc/"],
     [("kernels", "mplang/kernels/")])

prop("C24", "A job never hangs forever when a peer fails",
     "If any party crashes, disconnects or stops, every other party's pending receive and every caller waiting for the job terminates with an error within its configured timeout.",
     ["fault_sequences", "schedules"], "all crash points of all parties",
     "tests do not kill peers",
     ["mplang/backends/simp_worker/http.py", "mplang/backends/simp_driver/"],
     [("timeouts", "mplang/backends/simp_worker/http.py: CommConfig")])

prop("C25", "Protocol transcripts reveal nothing beyond the agreed output",
     "The joint distribution of the messages a party receives in any protocol of the libraries can be simulated from that party's input and output alone.",
     ["inputs"], "all inputs, all semi-honest adversaries",
     "a statistical/computational property of distributions",
     ["mplang/libs/mpc/"],
     [("protocols", "mplang/libs/mpc/")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
