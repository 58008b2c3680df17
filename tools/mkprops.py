#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Incremental secret sharing is lossless",
 "For every key below the prime 2^31-1, every number of parties (including none) and every list of shares with x in [0,prime) and y in [1,prime), folding the incremental reconstruction over the shares in order, starting from the tally generated for that key and those shares, returns exactly the key. The generated tally is itself below the prime and no arithmetic in the computation overflows or misbehaves.",
 ["inputs"], "all keys < 2^31-1, all share vectors of any length with valid shares",
 "The unit test samples 100k random keys with 2..6 parties; the domain is 2^31 keys times 2^62 values per share, and boundary shares (y=1, y=prime-1, x=prime-1) are hit with negligible probability.",
 ["DPPIR/sharing/incremental.cc"],
 [("GcdExtended / ModInverse (Bezout coefficients, modular inverse)", "DPPIR/sharing/incremental.cc"),
  ("GenerateIncrementalTally", "DPPIR/sharing/incremental.cc"), ("IncrementalReconstruct", "DPPIR/sharing/incremental.cc")],
 observe=["return value of IncrementalReconstruct after the last share"])
prop("C02", "Incremental preshares are fresh, invertible field masks",
 "Generating preshares for n parties returns exactly n shares, each with its additive part in [0,prime) and its multiplicative part in [1,prime), whatever the random source returns. Each part is taken from a random draw of its own over exactly that range, so all shares are independent and uniformly distributed over the valid masks.",
 ["inputs", "histories"], "every n and every sequence of values the random source may return",
 "Tests only check that reconstruction works on sampled randomness; a share outside its range, a reused draw or a narrowed range never fails them.",
 ["DPPIR/sharing/incremental.cc"], [("PreIncrementalSecretShares", "DPPIR/sharing/incremental.cc")])
prop("C03", "Additive response masks cancel exactly",
 "For every n of at least 1, the n generated additive shares are full-size, all but one come from fresh randomness of their own, and the bytewise XOR of all of them is zero, so applying all of them to any response in any order gives back that response bit for bit. Applying one share to a response changes every byte by exactly the corresponding byte of the share, also when source and target are the same response, and touches nothing else.",
 ["inputs", "histories"], "every n >= 1, every response, every value of the random source, aliased and distinct targets",
 "Tests sample 100 random responses with 2..6 shares; they would not notice untouched bytes whose random mask happens to matter only for secrecy, nor n = 1.",
 ["DPPIR/sharing/additive.cc"], [("GenerateAdditiveSecretShares", "DPPIR/sharing/additive.cc"), ("AdditiveReconstruct / XOR", "DPPIR/sharing/additive.cc")])
prop("C04", "Onion layers deliver each party exactly its own secret",
 "For every starting party, every number of remaining parties and any secrets, an onion cipher has exactly the announced size for that number of layers, and decrypting it one layer at a time with each party's own key, in order, yields exactly that party's secret followed by a cipher of exactly the announced size for the remaining parties. Encryption and decryption never read or write outside their buffers.",
 ["inputs", "configurations"], "all party counts 1..255, all first-party indices, all secrets and keys (sealed boxes assumed correct)",
 "The test uses one fixed party count; off-by-one buffer offsets or wrong key selection for other first parties or counts are not reached.",
 ["DPPIR/onion/onion.cc", "DPPIR/onion/onion.h"], [("OnionEncrypt / OnionDecrypt / CipherSize", "DPPIR/onion/onion.cc"), ("OnionLayer accessors", "DPPIR/onion/onion.h")])
prop("C05", "Local shuffle is a permutation and deshuffling inverts it",
 "After initialising the local shuffler for any batch size and any seed, shuffling maps the indices of the batch one-to-one onto the indices of the batch, and deshuffling is its exact inverse in both directions. This holds again after every re-initialisation, and no access leaves the maps.",
 ["inputs", "histories"], "all batch sizes (0..2^32-1), all seeds, all outputs of the random generator",
 "Tests check one seed and size; a wrong bound or swap shows only for particular sizes or random draws.",
 ["DPPIR/shuffle/local_shuffle.cc", "DPPIR/shuffle/util.h", "DPPIR/shuffle/util.cc"],
 [("util::shuffle / util::random_bounded", "DPPIR/shuffle/util.h"), ("LocalShuffler::Initialize/Shuffle/Deshuffle", "DPPIR/shuffle/local_shuffle.cc")])
prop("C06", "Parallel shuffle counts and maps agree across sibling servers",
 "For every number of servers, every per-server input size and noise count and every shared seed: the output slices of all servers add up to the total batch, each server expects from each sibling exactly as many messages as that sibling sends to it, what it receives adds up to its slice, and its prefix sums and source lookup describe exactly that layout. For every server the sequence of targets used when shuffling and the per-target sequence of indices used when deshuffling are exact inverses, and the noise counts count exactly the leading noise messages sent to each target.",
 ["inputs", "configurations"], "all server counts 1..255, all input size vectors (including zeros), all noise counts, all seeds",
 "The test runs one configuration (8 servers, nearly equal loads, no noise).",
 ["DPPIR/shuffle/parallel_shuffle.cc", "DPPIR/shuffle/util.h"],
 [("ParallelShuffler::Initialize and accessors", "DPPIR/shuffle/parallel_shuffle.cc")])
prop("C07", "Noise ranges of the servers exactly partition the database",
 "For every database size and every number of servers not larger than it, the ranges of keys for which the servers add noise are non-empty, lie within the database, do not overlap and cover every key exactly once.",
 ["inputs", "configurations"], "all db sizes 1..2^32-1, all server counts 1..255 with servers <= db size",
 "noise_test checks a few sizes; whether rounding leaves keys without noise (losing differential privacy) depends on the exact pair of sizes.",
 ["DPPIR/noise/noise.cc"], [("FindRange", "DPPIR/noise/noise.cc")])
prop("C08", "Noise magnitudes are never negative, truncated and match the DP parameters",
 "For all epsilon and delta the noise cutoff is (2/epsilon)*ln(1/delta), the number of noise queries sampled for a key is a whole number between zero and twice the cutoff whatever the random source returns, and with epsilon or delta equal to zero no noise is added. The default noise amount is the cutoff rounded down, and the sampler is the cutoff-shifted Laplace of scale 2/epsilon clamped to that interval.",
 ["inputs", "configurations"], "all epsilon > 0 and 0 < delta <= 1 whose noise fits the sample type, all values of the random source",
 "noise_test checks the empirical distribution for a few parameters with a tolerance.",
 ["DPPIR/noise/noise.cc", "DPPIR/noise/noise.h"], [("NoiseDistribution / InvCDF / Laplace / SampleReal", "DPPIR/noise/noise.cc")])
prop("C09", "Configuration files round-trip",
 "For every configuration with matching party and server counts and addresses without embedded NUL, parsing the serialised form gives back exactly the same configuration: every field of every party and every server, in the same order.",
 ["inputs", "configurations"], "all field values, 0..255 parties and servers, addresses of any length",
 "config_test round-trips one hand-written configuration.",
 ["DPPIR/config/config.cc"], [("Serialize / Deserialize and the Int/Double/Str helpers", "DPPIR/config/config.cc")])
prop("C10", "Configuration parsing never reads outside its input",
 "For every byte string, well formed or not, parsing a configuration either ends normally having consumed exactly the whole input or stops the process deliberately; it never reads a byte outside the input.",
 ["inputs"], "all byte strings of all lengths, including truncated and corrupted files",
 "No test feeds malformed input.",
 ["DPPIR/config/config.cc"], [("Bin2Int / Bin2Double / Bin2Str / ReadIntoBuffer / Deserialize", "DPPIR/config/config.cc")])
prop("C11", "Message reassembly is independent of network fragmentation",
 "However the network splits the byte stream, the sequence of complete messages a socket reader delivers between clears is exactly the sequence of fixed-size messages in the stream: none lost, duplicated, reordered or torn, at most as many per call as asked for, and partial messages are carried over to the next call. Reads never go outside the receive buffer.",
 ["schedules", "inputs"], "every fragmentation of the stream by read(), every requested count, every message size that fits the buffer",
 "The socket test is flaky, excluded, and sees only the fragmentation loopback happens to produce.",
 ["DPPIR/types/containers.h", "DPPIR/sockets/common.h", "DPPIR/sockets/common.cc"],
 [("LogicalBuffer / CipherLogicalBuffer Update/Clear", "DPPIR/types/containers.h"), ("common::Read / ReadSome", "DPPIR/sockets/common.h")])
prop("C12", "Buffered sending keeps every message, in order, exactly once",
 "However the kernel splits the writes, the bytes put on the wire by a sequence of buffered sends followed by a flush are exactly the messages sent, in order, once each, and the write buffer never overflows. The buffer is flushed by itself whenever it is full, so any number of sends is allowed.",
 ["schedules", "inputs", "histories"], "every sequence of sends and flushes, every partial-write behaviour of send(), every message size that fits the buffer",
 "Same as C11; partial writes practically never happen on loopback.",
 ["DPPIR/types/containers.h", "DPPIR/sockets/common.cc", "DPPIR/sockets/client_socket.cc", "DPPIR/sockets/server_socket.cc"],
 [("PushBack / Full / Clear", "DPPIR/types/containers.h"), ("common::Send", "DPPIR/sockets/common.cc"), ("SendQuery/SendResponse/SendCipher/Flush*", "DPPIR/sockets/client_socket.cc, server_socket.cc")])
prop("C13", "Installed offline secrets are found again under their tag",
 "After any sequence of stores with distinct tags, looking a secret up by its tag at a party or at the backend returns exactly the next tag, incremental share and preshare that were stored under it; storing a tag twice stops the process instead of silently replacing a secret. In simulated mode every tag maps to the identity secret.",
 ["histories", "inputs"], "all store/lookup histories, all tags and secrets",
 "No test exercises the state classes.",
 ["DPPIR/types/state.cc", "DPPIR/types/state.h"], [("PartyState / BackendState Store, LoadSecret, getters", "DPPIR/types/state.cc")])
prop("C14", "Client secrets are consumed in the order they were created",
 "The i-th query uses the tag and incremental shares of the i-th stored secret, and after sharing is finished the i-th response uses the preshare of the i-th stored secret, for any number of secrets. In simulated mode every load yields the identity secret with one share per party.",
 ["histories", "inputs"], "all interleavings allowed by the API (store all, load for queries, finish sharing, load for responses), any number of secrets",
 "No test exercises the client state.",
 ["DPPIR/types/state.cc", "DPPIR/types/state.h"], [("ClientState Initialize/Add*/LoadNext/Get*/FinishSharing", "DPPIR/types/state.cc")])
prop("C15", "In-place cipher batch never corrupts unprocessed ciphers",
 "For any numbers of own (short) and received (long) ciphers and any cipher sizes with short not longer than long: filling the batch, then repeatedly taking the next long cipher and storing its short remainder, hands out every long cipher unmodified and in order, and the final batch lists all own ciphers followed by all remainders in order. Every access stays inside the allocation.",
 ["inputs", "histories"], "all counts and cipher sizes (within 32/64-bit sizes), all contents",
 "No test exercises the batch.",
 ["DPPIR/types/containers.h"], [("CipherBatch", "DPPIR/types/containers.h")])
prop("C16", "A party returns each response to the query it answers, in order",
 "For any batch, a (non-parallel) party that receives responses in the order in which it sent queries out sends back exactly one response per received query, in the order the queries came in, each being the response to that very query unmasked with that query's preshare; responses to its own noise are dropped. This holds for every shuffle permutation and every fragmentation of the traffic.",
 ["inputs", "schedules"], "all input sizes, noise counts, shuffles, batches and fragmentations",
 "There is no test of the protocol classes.",
 ["DPPIR/protocol/party/party_online.cc", "DPPIR/protocol/party/party_handlers.cc"],
 [("Party::CollectQueries / CollectResponses / SendResponses / HandleResponse", "DPPIR/protocol/party/party_online.cc")])
prop("C17", "A party forwards every handled query plus exactly the sampled noise",
 "For any batch, the queries a (non-parallel) party sends to the next party are, up to its shuffle permutation, exactly: for each database key in its noise range as many noise queries for that key as were sampled, and for each received query its handled form with the next tag and updated tally. Nothing is lost, duplicated or left uninitialised, the announced count equals the number sent, and each noise query uses a secret of its own.",
 ["inputs", "schedules"], "all input sizes, noise samples, shuffles and batches",
 "There is no test of the protocol classes.",
 ["DPPIR/protocol/party/party_initialization.cc", "DPPIR/protocol/party/party_online.cc", "DPPIR/protocol/party/party_handlers.cc"],
 [("Party::InitializeNoiseSamples / InitializeCounts / InitializeNoiseQueries", "DPPIR/protocol/party/party_initialization.cc"),
  ("Party::CollectQueries / SendQueries / HandleQuery", "DPPIR/protocol/party/party_online.cc")])
prop("C18", "Every query retrieves exactly the queried database row",
 "For every key and every chain of parties, the secret a client creates, the query it makes from it, the handling of that query by every party and the backend, and the unmasking of the response by every party and the client compose so that the client ends with exactly the database row of the key it asked for. Tags link consistently: each party looks the query up under the tag with which the previous hop forwarded it.",
 ["inputs", "configurations"], "all keys in the database, all party counts >= 2, all random choices",
 "No end-to-end test exists; main is not run by the test suite.",
 ["DPPIR/protocol/client/client_handlers.cc", "DPPIR/protocol/party/party_handlers.cc", "DPPIR/protocol/backend/backend_handlers.cc", "DPPIR/protocol/parallel_party/parallel_party_handlers.cc"],
 [("MakeSecret / MakeQuery / ReconstructResponse", "DPPIR/protocol/client/client_handlers.cc"), ("HandleQuery / HandleResponse", "DPPIR/protocol/party/party_handlers.cc"), ("BackendParty::HandleQuery", "DPPIR/protocol/backend/backend_handlers.cc")])
prop("C19", "Tags of all live queries are distinct",
 "Within one batch the tags of all secrets are pairwise distinct at every party: the clients of one deployment (same query count each) use disjoint tag ranges, and a party's noise tags never collide with each other or with the tags of its input.",
 ["inputs", "configurations"], "all server ids, query counts, input and noise counts whose totals fit 32 bits",
 "No test samples tags; collisions abort the process only at run time.",
 ["DPPIR/protocol/client/client_handlers.cc", "DPPIR/protocol/party/party_handlers.cc", "DPPIR/protocol/parallel_party/parallel_party_handlers.cc"],
 [("SampleTag", "DPPIR/protocol/client/client_handlers.cc and siblings")])
prop("C20", "Database rows and response comparison are exact",
 "For every database size, every key below it maps to its own row holding twice the key (modulo 2^32) and a signature filled with the key modulo 128, and a random row is always an existing key. Two responses compare equal exactly when all their bytes are equal.",
 ["inputs"], "all sizes, keys and pairs of responses",
 "Not tested directly.",
 ["DPPIR/types/database.cc", "DPPIR/types/types.cc"], [("Database", "DPPIR/types/database.cc"), ("operator==", "DPPIR/types/types.cc")])
prop("C21", "Per-sibling maps give every other server its own slot",
 "For every server count and own id, the per-sibling map gives each other server id a distinct slot inside its storage, writing one slot never changes another, filling sets every slot, and asking for the own id stops the process.",
 ["inputs", "configurations"], "all ids and counts in 1..255",
 "Not tested.",
 ["DPPIR/types/containers.h"], [("ServersMap", "DPPIR/types/containers.h")])
prop("C22", "Sibling exchange reads exactly what each sibling sends",
 "During an exchange with siblings every element of the local batch is handed to the sender exactly once and in order, all write buffers are flushed, and exactly the expected number of messages is read from each sibling, never more, under every interleaving of poll results and fragmentation.",
 ["schedules", "inputs"], "every order and content of poll results, every read split, every expected count",
 "Not tested; depends on thread and network scheduling.",
 ["DPPIR/protocol/parallel_party/parallel_party_util.inc", "DPPIR/sockets/parallel_socket.cc", "DPPIR/sockets/common.cc"],
 [("SendAndPoll", "DPPIR/protocol/parallel_party/parallel_party_util.inc"), ("ParallelSocket::Poll/IgnoreServer/ResetServers", "DPPIR/sockets/parallel_socket.cc")])
prop("C23", "Parallel parties split every batch consistently",
 "For all sibling input and noise counts, the batch sizes the parallel servers of a party announce to the next party add up to the sum of all their inputs and noise, and each server's announced size equals the size of the slice it receives from the shuffle.",
 ["inputs", "configurations"], "all server counts and input counts whose total fits 32 bits",
 "Not tested.",
 ["DPPIR/protocol/parallel_party/parallel_party_initialization.cc", "DPPIR/shuffle/parallel_shuffle.cc"],
 [("ParallelParty::InitializeCounts / InitializeShufflers", "DPPIR/protocol/parallel_party/parallel_party_initialization.cc")])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
