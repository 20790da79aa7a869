#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json, os
D = "distributed_vector_ole/"
VOLE = D + "distributed_vector_ole.h"
MP = D + "mpfss_known_indices.h"
MPC = D + "mpfss_known_indices.cpp"
SP = D + "spfss_known_index.h"
OT = D + "all_but_one_random_ot.h"
OTC = D + "all_but_one_random_ot.cpp"
GIL = D + "scalar_vector_gilboa_product.h"
CK = D + "cuckoo_hasher.h"
CKC = D + "cuckoo_hasher.cpp"
GGM = D + "ggm_tree.cpp"
AES = D + "aes_uniform_bit_generator.cpp"
SH = D + "internal/scalar_helpers.h"
NTLH = D + "internal/ntl_helpers.h"
GF = D + "gf128.h"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))


P = [
    p("C01", "Vector OLE: every element of every request satisfies w = u*delta + v",
      "For every sequence of precomputations and requests made by a sender and a receiver with matching sizes, the sender's vectors u and v and the receiver's vector w have exactly the requested length and satisfy w = u*delta + v in every position, in the arithmetic of the element type. "
      "The receiver's scalar delta is the one it chose in its last precomputation (or the random one drawn then) and stays the same until it precomputes again. "
      "This holds for every supported element type, either party in either role, any party numbering, any thread counts, any number of instances sharing the channel, and requests that are served from the cache, from a partial batch or from several expansions.",
      ["histories", "schedules", "inputs", "configurations"],
      "all histories of precompute/run calls over all element types and moduli, batch and request sizes, roles, ids, channel modes, thread counts and thread schedules on both sides",
      "The repository's VOLE tests make one or two requests with fixed sizes on one machine's thread schedule; they never mix precompute and run, change the batch size mid-history, share the channel, or vary the number of threads per party.",
      [VOLE, MP, GIL, AES, SH], [("seed bootstrapping, staged expansion, cache and carry-over of seeds", VOLE), ("noise shares added to the expanded seed", MP), ("code generator derived from a seed sent by the lower id", VOLE)],
      [("cached correlation", "elements produced but not yet handed out; their front part becomes the next seed", VOLE), ("seeds", "correlated vectors the next expansion starts from", VOLE), ("batch size", "how much one expansion yields", VOLE)],
      ["return values of the sender's and receiver's request calls"]),
    p("C02", "Correlated randomness is fresh: nothing is handed out twice or reused as noise",
      "Random elements handed to callers never repeat: over all calls, requests, instances, sessions and protocols, each element wide enough that a coincidence is impossible appears at most once, also when the same call is repeated with the same inputs. "
      "Elements kept as seed for the next expansion are never handed out, keys and masks are drawn independently of each other, and every expansion of the vector OLE draws new noise positions and new noise values from the party's randomness at the time of that expansion.",
      ["histories", "schedules", "configurations"],
      "all histories of calls with repeated identical inputs, several instances, several expansions per request, thread counts and schedules",
      "Reuse leaves every single output correct, so tests comparing outputs with their inputs pass; it shows only when the outputs of a long history are compared with each other or when executions differing in one party's randomness are compared.",
      [VOLE, OT, SP, GIL, MP, GGM, SH], [("tree seeds drawn per call", OT), ("masks drawn per product", GIL), ("noise drawn per expansion", VOLE), ("front of the cache moved into the seeds", VOLE)],
      [("cached correlation", "elements not yet handed out", VOLE)], ["outputs of all calls of a run", "twin executions that differ in one party's randomness"]),
    p("C03", "Single-point function shares add up to value at the point and zero elsewhere",
      "For every batch of point functions of any sizes, points and values, the two parties' output vectors add up, in the arithmetic of the element type, to the sum of the two parties' value shares at the chosen point and to zero at all other points. "
      "This does not depend on batching, on what the output arrays held before, on previous calls, on thread counts, schedules or message delivery.",
      ["inputs", "histories", "schedules", "configurations"],
      "all batches, sizes (including 1 and 0), points, values, element types, moduli, call histories on one instance, thread counts and schedules",
      "The tests cover a handful of sizes and one point each with default threads; carry-over between calls, odd sizes in batches and thread schedules are not covered.",
      [SP, OT, GGM, SH], [("sums over all leaves exchanged and applied at the point", SP), ("withheld leaf taken from random OT", OT)], observe=["output vectors of both parties"]),
    p("C04", "All-but-one random OT: elements agree except one the receiver never learns",
      "The sender obtains a vector of random elements and the receiver obtains the same elements in all positions except the one it chose. "
      "The element at the chosen position is neither in the receiver's output nor among anything the receiver was sent, and it is not computable from what the receiver was sent by the operations the receiver itself performs. "
      "This holds for every batch, size, position, element type, history, thread count and schedule.",
      ["inputs", "histories", "schedules", "configurations"],
      "all batches of sizes and positions, element types and moduli, call histories, thread counts, schedules, message segmentation",
      "The tests compare agreeing positions for fixed sizes; they do not look at the withheld position or at what the receiver was sent, and use one schedule.",
      [OT, OTC, GGM, SH], [("per-level sums of the tree through OT with inverted choice bits", OT), ("reconstruction of the tree around the path", GGM)], observe=["outputs of both parties", "bytes delivered to the receiver"]),
    p("C05", "Scalar-vector product: the shares add up to the scalar times the vector",
      "For every vector of one party and every scalar of the other, the two output vectors add up to the scalar times the vector in every position, in the arithmetic of the element type, for every length including zero. "
      "The result does not depend on previous calls, on what the output arrays held, on thread counts, schedules, or message delivery.",
      ["inputs", "histories", "schedules", "configurations"],
      "all scalars, vectors, lengths, element types and moduli (of any width the type supports), call histories, thread counts and schedules",
      "The tests use a few lengths and moduli; boundary scalars, unusual moduli, empty vectors and repeated use of one instance under other schedules are not covered.",
      [GIL, D + "internal/gilboa_internal.h", SH, NTLH, GF], [("bit decomposition of the scalar, correlated OT per bit, recombination", GIL)], observe=["output vectors of both parties"]),
    p("C06", "Multi-point shares add up to the scaled values at the points, zero elsewhere",
      "Given a vector OLE correlation, the two parties' outputs add up to x*y_i at the i-th chosen index and to zero at all other positions, for every set of distinct indices in any order, any output size not smaller than the number of indices, and any values. "
      "It holds through histories on one instance in which the output size and the number of indices change and bucket layouts are reused or prepared ahead by either party.",
      ["inputs", "histories", "schedules", "configurations"],
      "all index sets, orders, output sizes, values, element types and moduli, sequences of calls with changing sizes, explicit or implicit bucket preparation on either side, thread counts and schedules",
      "The tests run one call per instance with small fixed parameters, so stale bucket layouts, changing sizes and thread-dependent orders are out of reach.",
      [MP, MPC, CK, CKC, SP], [("cuckoo assignment of indices to buckets", MP), ("permuted values masked by the correlation", MP), ("bucket layout cached per size", MPC)],
      [("bucket layout", "which output positions each bucket holds; kept between calls", MPC)], ["output vectors of both parties"]),
    p("C07", "Hashing depends on seed and inputs alone, is complete, ordered, and succeeds",
      "Two parties hashing the same inputs with the same seed obtain the same buckets, whatever their thread counts and schedules. "
      "Simple hashing puts every input into all of its buckets, each bucket in ascending order; cuckoo hashing places every input exactly once, in one of its own buckets, and never two in one bucket. "
      "Insertion into the recommended number of buckets succeeds except with the stated negligible probability, however few the inputs are.",
      ["inputs", "schedules", "configurations"],
      "all input sets and types, numbers of buckets and hash functions, thread counts and work-sharing schedules on both sides",
      "The tests hash one fixed input list with the machine's thread count; agreement between parties with different thread counts and the failure rate for few inputs are not tested.",
      [CK, CKC], [("per-thread buckets merged in thread order", CK), ("eviction chain with next hash function per bucket", CK), ("number of buckets from a fitted formula", CKC)], observe=["hash tables returned to both parties"]),
    p("C08", "Every protocol run completes under any delivery and leaves the channel in step",
      "When both parties make matching calls, every call returns successfully however slowly, late or fragmented data is delivered and however the parties' threads are scheduled, even if data leaves a party only when that party flushes it. "
      "When both calls have returned, every byte sent has been consumed by the peer and nothing waits unflushed, so that any further protocol run or application message on the same channel works. "
      "This holds with several sessions running side by side and for all sequences of protocols on one channel in both channel modes.",
      ["schedules", "fault_sequences", "histories", "configurations"],
      "all delivery schedules (delays, outages, fragmentation, buffering until flush), thread schedules, starvation of one party, sequences of protocol and application messages",
      "The tests run over local sockets that deliver at once and flush early; a missing flush, an unread message or a circular wait needs a delivery or buffering schedule they never produce.",
      [VOLE, MP, SP, OT, GIL], [("flush after every last message of a direction", OT), ("channel adapter created once per instance on first use", GIL), ("seed agreement ordered by party id", MPC)], observe=["completion of both calls", "bytes sent and consumed per call"]),
    p("C09", "A failing party causes no hang, false success or disturbance of others",
      "If one party crashes, runs out of memory or loses its connection at any point of a protocol, the other party's call ends with an error or exception once the loss is visible, and it never reports success for a call in which it has not received everything its peer sends in an undisturbed run. "
      "What it returned successfully before, and whatever later calls return successfully, is correct, other sessions in the same processes are not disturbed, and new sessions afterwards work as if nothing had happened.",
      ["crash_points", "fault_sequences", "schedules", "histories"],
      "all crash points (every transport operation, before, after and in the middle of a write; every allocation), all protocols and histories, with concurrent unaffected sessions and fresh sessions afterwards",
      "No test injects a failure; crash points lie inside multi-message protocols and worker threads.",
      [VOLE, MP, SP, OT, GIL, CK, NTLH], [("transport errors propagate out of each call", OT), ("no process-wide state is left half-updated", NTLH)], observe=["status of the surviving party", "outputs in a fresh session"]),
    p("C10", "Invalid arguments are refused before any traffic and leave the session usable",
      "A call whose arguments the interface excludes (missing channel, negative security level or size, index outside the output, mismatching lengths, duplicate indices that cannot be placed) fails with an invalid-argument status at the calling party, without exception or crash and without sending or consuming a byte. "
      "Parameters that the arithmetic cannot support at the requested security level are refused by both parties alike, so that neither is left waiting. "
      "After such a refusal the same instances and channel keep working.",
      ["inputs", "histories", "configurations"],
      "all entry points, kinds and magnitudes of invalid arguments, element types and moduli, mixed into histories of valid calls",
      "The tests try a few invalid arguments on fresh instances and stop there; traffic, peer behaviour and use after the refusal are not observed.",
      [VOLE, MP, MPC, SP, OT, OTC, GIL, SH, CK], [("argument checks in front of every protocol", OT), ("check that the modulus can be sampled with the given security", SH)], observe=["status of the call", "bytes sent and consumed", "later calls on the same session"]),
    p("C11", "Modular arithmetic uses the caller's modulus in every thread, call and session",
      "Protocols over integers modulo a run-time modulus compute with the modulus the calling thread has installed at the time of the call, in all worker threads, also when the modulus changed since the previous call or instance creation. "
      "They leave the caller's modulus as it was, and concurrent sessions with different moduli in one process do not influence each other.",
      ["histories", "schedules", "configurations"],
      "all sequences of calls with changing moduli and thread counts, in concurrent sessions with different moduli, under all thread schedules",
      "The tests install one modulus per process and keep it; worker threads that keep an older modulus or a session's worker serving another modulus are never exercised.",
      [NTLH, D + "internal/ntl_helpers.cpp", OT, SP, GIL, VOLE], [("modulus saved by the caller and restored inside parallel regions", NTLH)], observe=["outputs of both parties", "modulus in force after each call"]),
    p("C12", "No data races: threads of a call and concurrent sessions never conflict",
      "No two threads access the same memory without synchronisation when at least one of them writes, whichever way the threads of a parallel region and of concurrent independent sessions in one process are interleaved.",
      ["schedules", "histories", "configurations"],
      "all interleavings at the granularity of memory accesses, all protocols, thread counts and concurrent sessions",
      "The tests observe whichever interleaving happens to occur; a race rarely changes a result and none of the tests runs two sessions with several threads each.",
      [OT, SP, GIL, CK, MP, GGM, VOLE, NTLH, D + "gf128.cpp"], [("disjoint ranges per iteration and barriers of the work-sharing loops", OT), ("per-thread buckets merged in order", CK)], observe=["every instrumented memory access of library code"]),
    p("C13", "Messages and single shares reveal nothing: masks and shares are uniform",
      "Each party's output of a sharing protocol is, taken alone, uniformly distributed whatever the inputs, and so is every masked value a party is sent; no mask is used twice. "
      "Nothing a party is sent, neither content nor lengths nor the number of messages, depends on the other party's secret inputs. "
      "An expansion of the vector OLE adds as much noise as its parameters prescribe, at uniformly distributed positions and with uniformly distributed values.",
      ["inputs", "histories", "configurations", "schedules"],
      "all inputs, including constant and extreme ones, element types and moduli, call histories and schedules",
      "A missing or biased mask leaves all outputs correct; it shows only in the distribution of messages and shares over many runs with chosen inputs.",
      [GIL, OT, SP, MP, VOLE, SH, AES], [("random masks in correlated OT", GIL), ("masking of permuted values by the correlation", MP), ("noise index and value sampling", VOLE), ("modulus sampling with enough bits", SH)], observe=["messages delivered to each party", "outputs of one party"]),
    p("C14", "Arithmetic in the 128-bit binary field satisfies the field axioms",
      "Addition, multiplication and inversion of 128-bit binary field elements satisfy the field axioms and agree with the standard reduction polynomial for all operands.",
      ["inputs"], "all pairs of field elements", "The tests check a dozen fixed products; axioms range over all operands.",
      [GF, D + "gf128.cpp"], [("carry-less multiplication and reduction", D + "gf128.cpp")], observe=["results of operators"]),
    p("C15", "Generators and trees give what seed and shape define, whatever happened before",
      "The byte generator's output stream is a function of its seed and the position alone (AES in counter mode), whatever its buffer size, the sizes of the reads, earlier seeds, copies, and generators used at the same time in other threads. A tree expanded from a seed has the nodes, level sums and leaves the definition prescribes for every arity and number of leaves, and one rebuilt from the sibling sums around a path agrees with it at every leaf off that path.",
      ["inputs", "histories", "schedules"], "all seeds, buffer sizes, read sequences, reseedings and copies; all arities, numbers of leaves and paths; any number of instances used by threads interleaved arbitrarily", "The tests fix a few seeds, arities and sizes, one instance at a time, in one thread.",
      [AES, GGM], [("AES in counter mode", AES), ("per-level keyed expansion", GGM)], observe=["generator output", "level sums", "leaves"]),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
