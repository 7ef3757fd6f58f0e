"""Writes /verif/properties.jsonl."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))


S = "fbpcf/scheduler/"
E = "fbpcf/engine/"
T = E + "tuple_generator/"
O = T + "oblivious_transfer/"
M = "fbpcf/mpc_std_lib/"

p("C01", "A secure computation opens exactly what the plaintext computation yields",
  "For every program built from private, public and combined boolean and integer values, every value opened to a party equals what evaluating the same program in the clear yields, modulo 2^64 for integers. The result does not depend on whether evaluation is eager, lazy or in the clear, on which correlated-randomness protocol is used, on the number of parties, or on how values are batched. A party to whom a value is not opened learns nothing in the form of a result from that opening. Combining batches of different sizes is an error and never yields a result.",
  ["programs", "inputs", "configurations"],
  "all straight-line programs over AND, XOR, NOT, plus, negation, multiplication with private and public operands, single and batched, opened to any party; eager, lazy, plaintext and networked-plaintext schedulers; dummy, classic and extended oblivious transfer; 2 or more parties",
  "the tests evaluate a few fixed gate patterns with fixed inputs, almost all with mocked or dummy engines; the space of programs x schedulers x engines is never sampled, and none of these tests is built here",
  [S + "IScheduler.h", S + "LazyScheduler.cpp", S + "EagerScheduler.cpp", S + "PlaintextScheduler.cpp", S + "NetworkPlaintextScheduler.cpp", E + "SecretShareEngine.cpp", S + "gate_keeper/GateKeeper.cpp"],
  [("gate evaluation", S + "gate_keeper/"), ("share arithmetic", E + "SecretShareEngine.cpp")],
  [("wires", "share of every live value", S + "WireKeeper.h")], ["scheduler API results"])
p("C02", "Typed integers, bits and bit strings behave like their plaintext counterparts",
  "Arithmetic, comparison, bitwise, selection and conversion operations on secure signed and unsigned integers of any supported width, on bits and on bit strings give the same result as two's-complement arithmetic of that width. This holds for secret and public operands in any combination, for single values and for batches element by element, and mixing operands never changes either operand.",
  ["inputs", "programs"],
  "all operand values (with carry, borrow and sign edges), widths 1 to 64, signedness, secrecy combinations and batch sizes",
  "tests use a handful of random values at a few widths and are not built here; edge operands and widths are not covered",
  ["fbpcf/frontend/Int.h", "fbpcf/frontend/Int_impl.h", "fbpcf/frontend/Bit.h", "fbpcf/frontend/Bit_impl.h", "fbpcf/frontend/BitString.h", "fbpcf/frontend/BitString_impl.h", "fbpcf/frontend/util.h", "fbpcf/frontend/mpcGame.h"],
  [("ripple-carry arithmetic over bits", "fbpcf/frontend/Int_impl.h")], observe=["opened values"])
p("C03", "Values live exactly as long as a handle to them",
  "A value stays readable and unchanged as long as any copy of its handle exists, under every history of copying, moving, overwriting (including onto itself) and destroying handles, before and after evaluation. When the last handle goes its storage is released and may be reused without affecting any other value; after all handles are gone nothing remains allocated. Using or releasing a value that is not allocated is reported, not performed.",
  ["histories", "programs"],
  "all histories of create, copy, move, assign, self-assign, evaluate and destroy over single and batched boolean and integer values and over the storage allocators",
  "allocator tests walk one short fixed sequence; reference counting across lazy evaluation is only seen through a few fixed programs",
  ["fbpcf/frontend/Bit_impl.h", S + "WireKeeper.h", S + "WireKeeper.cpp", S + "IAllocator.h", S + "UnorderedMapAllocator.h", S + "VectorArenaAllocator.h", S + "IWireKeeper.h"],
  [("reference counts", S + "WireKeeper.cpp"), ("slot allocators", S + "VectorArenaAllocator.h")],
  [("reference count", "number of handles and pending gates on a wire", S + "WireKeeper.h")], ["values read back", "allocator live counts"])
p("C04", "Deferred evaluation runs each operation once, after its inputs, in shared rounds",
  "Whatever the order in which operations are requested and whatever forces evaluation, every requested operation is evaluated exactly once and only after all of its operands. Operations that need no communication cause none, and all operations of equal communication depth that are pending together are executed in one shared exchange; the reported free and non-free operation counts equal the numbers requested. Evaluation is triggered by opening a value or by exceeding the pending-work limit, never loses work, and all parties perform the same exchanges in the same order.",
  ["programs", "schedules"],
  "all programs and all interleavings of requests and openings; any pending-work limit",
  "tests assert the level numbers of small fixed patterns with mocks; no test observes the sequence of exchanges of a generated program",
  [S + "LazyScheduler.cpp", S + "gate_keeper/GateKeeper.cpp", S + "gate_keeper/GateKeeper.h", S + "gate_keeper/INormalGate.h", S + "gate_keeper/ICompositeGate.h", S + "gate_keeper/RebatchingGate.h", S + "gate_keeper/IArithmeticGate.h"],
  [("levels of gates", S + "gate_keeper/GateKeeper.cpp"), ("level execution", S + "LazyScheduler.cpp")],
  [("pending levels", "gates not yet executed, alternating free and non-free", S + "gate_keeper/GateKeeper.h")], ["engine call trace", "gate statistics"])
p("C05", "Batching and unbatching values only rearranges them",
  "Joining batches yields the concatenation of their elements in order, and splitting a batch according to a list of sizes yields consecutive pieces of those sizes, for boolean and integer values, eager, lazy or in the clear, before or after the operands are evaluated. Splitting after joining with the same sizes is the identity, and splitting sizes that do not fit are rejected instead of producing invented elements.",
  ["inputs", "programs", "configurations"],
  "all lists of batches (including empty and single-element ones), split strategies, positions inside larger programs and schedulers",
  "tests join and split one or two fixed batches",
  [S + "gate_keeper/RebatchingGate.h", S + "gate_keeper/GateKeeper.cpp", S + "EagerScheduler.cpp", S + "PlaintextScheduler.cpp", "fbpcf/frontend/Bit_impl.h", "fbpcf/frontend/Int_impl.h", "fbpcf/frontend/BitString_impl.h"],
  [("rebatching gates", S + "gate_keeper/")], observe=["opened values"])
p("C06", "Secret shares of all parties always reconstruct the intended value",
  "For any number of parties, the shares the parties hold of an input, of a public constant and of every result of addition, negation, exclusive-or, conjunction and multiplication recombine to the intended boolean or 64-bit value, for single values, batches and many-with-one products, however many of each are scheduled together. Opening a value delivers it to the designated party only; the others get a placeholder that does not depend on the value. Inputs supplied by one party are taken from that party only. An engine made without one kind of multiplication refuses that kind.",
  ["inputs", "programs", "configurations"],
  "all values, batch sizes, mixes of scheduled operations, input owners, receivers and 2 or more parties",
  "tests use small fixed batches with dummy randomness; they are not built here",
  [E + "SecretShareEngine.cpp", E + "SecretShareEngine.h", E + "communication/SecretShareEngineCommunicationAgent.cpp", E + "SecretShareEngineFactory.h"],
  [("masked opening of tuples", E + "SecretShareEngine.cpp")], observe=["shares at the engine API"])
p("C07", "Messages on the wire do not depend on secrets except where opened",
  "For fixed public structure, the number, order and sizes of all messages between the parties are independent of secret inputs. The content a party receives while inputs are shared and operations are evaluated is masked with fresh randomness: it is statistically uniform for every fixed input, differs between executions, and no mask is used for two values. Only opening a value to a party sends data that determines it, and only to that party.",
  ["inputs", "programs", "histories"],
  "all secret inputs for a fixed program; repeated executions; all parties' transcripts",
  "no test looks at transcripts; a value sent unmasked or a mask used twice leaves every functional result correct",
  [E + "SecretShareEngine.cpp", T + "ProductShareGenerator.cpp", O + "RcotBasedBidirectionObliviousTransfer.cpp", E + "util/Masker_impl.h", E + "communication/SecretShareEngineCommunicationAgent.cpp"],
  [("one-time masks from per-party generators", E + "SecretShareEngine.cpp")], observe=["message transcripts"])
p("C08", "Multiplication tuples are correct, fresh and aligned across parties",
  "For any number of parties and any sequence of requested amounts and shapes, boolean, one-to-many and 64-bit multiplication tuples obtained by the parties recombine so that the third component is the product of the first two. The n-th tuple of one party matches the n-th of every other across all internal refills, and no tuple is handed out twice. Products of private values owned by different parties recombine to the product.",
  ["inputs", "histories", "configurations"],
  "all request sequences (sizes around buffer boundaries, zero), composite widths, buffer sizes, 2 or more parties, every randomness source",
  "tests request one or two fixed amounts that stay within one buffer",
  [T + "TupleGenerator.cpp", T + "TwoPartyTupleGenerator.cpp", T + "ArithmeticTupleGenerator.cpp", T + "ProductShareGenerator.cpp", T + "ITupleGenerator.h"],
  [("buffered generation", T + "TupleGenerator.cpp")], observe=["tuples of all parties"])
p("C09", "Oblivious transfer correlations hold for every request",
  "For every requested amount and repeated requests, the receiver of an oblivious transfer obtains exactly the sender's message selected by its choice bit, and correlated variants give messages that differ by the sender's fixed offset exactly where the choice bit is one. Single-point, multi-point and extended variants set exactly the intended positions, the sparse matrix step is the same linear map at both parties, and messages, choices and offsets do not repeat between requests. Parameters that cannot be served are refused.",
  ["inputs", "histories", "configurations"],
  "all sizes, repeated requests crossing internal extension boundaries, choice patterns, offsets, protocol parameters",
  "tests run fixed small sizes once per protocol and are not built here",
  [O + "ferret/RcotExtender.cpp", O + "ferret/SinglePointCot.cpp", O + "ferret/RegularErrorMultiPointCot.cpp", O + "ferret/TenLocalLinearMatrixMultiplier.cpp", O + "ExtenderBasedRandomCorrelatedObliviousTransfer.cpp", O + "IknpShRandomCorrelatedObliviousTransfer.cpp", O + "NpBaseObliviousTransfer.cpp", O + "RcotBasedBidirectionObliviousTransfer.cpp", M + "walr_multiplication/util/COTWithRandomMessage.cpp"],
  [("extension with reserved seeds", O + "ExtenderBasedRandomCorrelatedObliviousTransfer.cpp")], observe=["messages of both sides"])
p("C10", "Block cipher and pseudo-random streams are exact and position-faithful",
  "The block cipher equals AES-128 for every key and block. A pseudo-random generator's output is the AES-128 counter-mode stream of its seed: two generators with the same seed give the same stream however it is requested and whatever their buffering, and no part is skipped or repeated. Bit-level helpers on 128-bit blocks agree with their arithmetic definition.",
  ["inputs", "histories"],
  "all seeds, keys, blocks, request sequences (bits, bytes, words, blocks) and buffer sizes",
  "tests compare a few fixed vectors and one request size",
  [E + "util/aes.cpp", E + "util/aes.h", E + "util/AesPrg.cpp", E + "util/AesPrg.h", E + "util/util.h", E + "util/util.cpp"],
  [("counter mode", E + "util/AesPrg.h")], [("counter", "next block", E + "util/AesPrg.h")], ["generator output"])
p("C11", "Prefetched data is a once-only in-order stream under any timing",
  "Data obtained through a prefetching buffer is the generator's output in order, without loss, duplication or invention, for every sequence of request sizes, every buffer size and every timing of the background generation. Generation runs are never concurrent with each other and never outlive the buffer. A failing generation is reported to the consumer that needs it and does not bring the process down.",
  ["schedules", "histories", "fault_sequences"],
  "all request sequences, buffer sizes, generator timings and launch modes, and failure points",
  "the test reads a few fixed sizes with a generator that never fails or delays",
  [E + "util/AsyncBuffer.h"], [("future of the next buffer", E + "util/AsyncBuffer.h")], observe=["elements delivered"])
p("C12", "In-process channels deliver every message once, in order, to the right party",
  "Between any two parties of one process, data sent arrives complete, unmodified and in sending order, for every message size and type, in both directions at once and under every thread interleaving; a receiver waits until the data it asked for is there, independent of how the sender split it. Parties and separately created channels never see each other's data.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of senders and receivers, message sizes and splits, 2 or more parties, several channels per pair",
  "tests exchange two fixed messages between two parties",
  [E + "communication/InMemoryPartyCommunicationAgentHost.cpp", E + "communication/InMemoryPartyCommunicationAgentHost.h", E + "communication/IPartyCommunicationAgent.h", E + "communication/SecretShareEngineCommunicationAgent.cpp", E + "communication/InMemoryPartyCommunicationAgentFactory.h"],
  [("mutex and condition variable around a byte queue", E + "communication/InMemoryPartyCommunicationAgentHost.cpp")], observe=["bytes received"])
p("C13", "Network channels carry the same byte streams as in-process ones",
  "Over real sockets, with and without TLS, every pair of parties gets its own connection and data arrives complete, unmodified and in order for every size, in both directions at once. With TLS the client accepts only a server whose certificate verifies against the given root, and the payload does not appear on the wire in the clear. A server whose private key is encrypted starts with the passphrase stored for it, whatever characters it has, and refuses a wrong one. Connections created later with another name or port do not mix with earlier ones.",
  ["inputs", "schedules", "configurations"],
  "all message sizes and patterns, 2 or more parties, plain and TLS, several connections per pair, right and wrong certificates",
  "these tests are not built here and exchange a few bytes",
  [E + "communication/SocketPartyCommunicationAgent.cpp", E + "communication/SocketPartyCommunicationAgentFactory.cpp", E + "communication/SocketPartyCommunicationAgentFactory.h"],
  [("connection set-up and id exchange", E + "communication/SocketPartyCommunicationAgentFactory.cpp")], observe=["bytes received", "raw socket capture"])
p("C14", "A lost peer never turns into invented data",
  "When the peer of a network channel closes, resets or is cut off at any byte, every receive that was not completely served fails with an error within bounded time; it never returns with data the peer did not send. Sending to a lost peer eventually fails with an error rather than being reported as done forever. Data that arrived before the loss is still delivered correctly.",
  ["fault_sequences", "crash_points"],
  "all cut points in the byte stream, close and reset, plain and TLS",
  "no test severs a connection",
  [E + "communication/SocketPartyCommunicationAgent.cpp"], [("return codes of the stream calls", E + "communication/SocketPartyCommunicationAgent.cpp")], observe=["outcome of receive and send"])
p("C15", "Buffered reading returns the file, whatever the chunk size",
  "For every file content, chunk size and mix of line and block reads, the bytes returned are exactly the file's bytes in order: each line is returned once without its line break, blocks are exactly as long as asked while data remains, and end of file is reported exactly when nothing remains. Reading past the end and a source that fails are reported as errors; no data is ever invented or repeated.",
  ["inputs", "histories"],
  "all contents (empty, missing final newline, very long lines, NUL and non-ASCII bytes, line breaks at chunk borders), chunk sizes and read sequences over local, in-memory and remote sources",
  "tests read two fixed files with a few chunk sizes",
  ["fbpcf/io/api/BufferedReader.cpp", "fbpcf/io/api/LocalFileReader.cpp", "fbpcf/io/api/FileReader.cpp", "fbpcf/io/api/FileIOWrappers.cpp", "fbpcf/io/api/CloudFileReader.cpp", "fbpcf/io/api/SocketReader.cpp"],
  [("chunk refill", "fbpcf/io/api/BufferedReader.cpp")], [("buffer and position", "unread part of the current chunk", "fbpcf/io/api/BufferedReader.h")], ["returned bytes"])
p("C16", "What is written is what is stored",
  "For every content, chunk size and split into writes, a file written through the buffered writer, the file writer, the whole-file helpers or the local file manager holds exactly the bytes written, in order, once it is closed, and reads back identically by every reader, by range or whole. Nothing that was accepted is dropped: a failure to store is reported to the writer.",
  ["inputs", "histories", "fault_sequences"],
  "all contents including binary, chunk sizes, write and flush sequences, byte ranges; short and failing underlying writes",
  "tests write a few short text strings",
  ["fbpcf/io/api/BufferedWriter.cpp", "fbpcf/io/api/LocalFileWriter.cpp", "fbpcf/io/api/FileWriter.cpp", "fbpcf/io/api/FileIOWrappers.cpp", "fbpcf/io/LocalFileManager.cpp", "fbpcf/io/api/SocketWriter.cpp", "fbpcf/io/api/CloudFileWriter.cpp"],
  [("buffer flush", "fbpcf/io/api/BufferedWriter.cpp")], observe=["stored bytes"])
p("C17", "Cloud objects are stored whole or reported as failed",
  "Reading a remote object by range or whole returns exactly those bytes of the object; writing in parts produces an object equal to the concatenation of the parts. Under every sequence of transient and permanent failures of the store, an upload that is reported successful left the complete object, a part is retried a bounded number of times, and an upload that cannot finish is aborted and reported as failed, leaving no object and no dangling upload. Errors of the store reach the caller.",
  ["fault_sequences", "inputs"],
  "all part sequences and sizes, ranges, and failure patterns of create, upload, complete, abort, read, head and put requests for both supported stores",
  "tests use mocks that always succeed or fail once, and are not built here",
  ["fbpcf/io/cloud_util/S3FileUploader.cpp", "fbpcf/io/cloud_util/S3FileReader.cpp", "fbpcf/io/cloud_util/GCSFileUploader.cpp", "fbpcf/io/cloud_util/GCSFileReader.cpp", "fbpcf/io/S3FileManager.cpp", "fbpcf/io/GCSFileManager.h", "fbpcf/io/api/CloudFileReader.cpp", "fbpcf/io/api/CloudFileWriter.cpp", "fbpcf/io/cloud_util/CloudFileUtil.cpp", "fbpcf/io/cloud_util/S3Client.cpp"],
  [("multipart upload", "fbpcf/io/cloud_util/S3FileUploader.cpp")], observe=["object store contents", "request log"])
p("C18", "Secure AES equals AES",
  "Encryption and decryption evaluated as a secure circuit equal AES-128 for every key and block, for single and batched blocks, given the expanded key; counter-mode encryption equals AES-128 in counter mode for every counter block, and decryption inverts encryption. Bit order of inputs and outputs is preserved for any byte content.",
  ["inputs", "configurations"],
  "all keys, plaintexts, counters, block counts and batch sizes, signedness of the byte representation",
  "tests check a few vectors and are not built here",
  [M + "aes_circuit/AesCircuit_impl.h", M + "aes_circuit/AesCircuitCtr_impl.h", M + "aes_circuit/IAesCircuit.h", M + "aes_circuit/IAesCircuitCtr.h"],
  [("Boyar-Peralta S-box circuit", M + "aes_circuit/AesCircuit_impl.h")], observe=["opened blocks"])
p("C19", "Oblivious permutation applies exactly the chosen order",
  "For every size and every permutation known to one party, obliviously permuting a batch of bits, bit strings, integers or pairs yields at each position the element the permutation names, for every permuter. An order that is not a permutation of the positions is rejected before anything is computed. The input batch is not modified.",
  ["inputs", "configurations"],
  "all sizes from 1 up (including non powers of two), permutations (identity, reversal, cycles, random), element types, owners of the permutation, invalid orders",
  "tests permute one size per type and are not built here",
  [M + "permuter/IPermuter.h", M + "permuter/AsWaksmanPermuter_impl.h", M + "permuter/AsWaksmanPermuterForBitString_impl.h", M + "permuter/AsWaksmanPermuter.cpp", M + "permuter/DummyPermuter.h"],
  [("AS-Waksman network", M + "permuter/")], observe=["opened batch"])
p("C20", "Shuffling and compaction neither lose nor invent elements",
  "A shuffled batch is a permutation of the input in which pairs stay together; the order varies between runs and depends on randomness of both parties. Compaction returns exactly the elements whose label is set, with their multiplicities, and the number of them; locally drawn permutations are permutations and not biased towards positions.",
  ["inputs", "histories", "configurations"],
  "all sizes, label patterns (none, all, one), element types, owners, repeated runs",
  "tests check one fixed batch per type and are not built here",
  [M + "shuffler/PermuteBasedShuffler.h", M + "shuffler/NonShuffler.h", M + "compactor/ShuffleBasedCompactor.h", M + "compactor/DummyCompactor.h", M + "util/secureRandomPermutation.cpp"],
  [("two successive private permutations", M + "shuffler/")], observe=["opened batch"])
p("C21", "Oblivious memory behaves like an array",
  "After any sequence of oblivious additive updates at secret positions, reading any position, publicly or as shares, yields the sum of the updates addressed to it modulo the value width, and positions never addressed read as zero. This holds for every size, batch, value width and implementation, with the reader getting the value and the other party nothing. Requests of inconsistent shape are rejected.",
  ["histories", "inputs", "configurations"],
  "all update sequences, memory sizes including non powers of two, batch sizes, value types, owners of positions, readers",
  "tests apply one fixed batch and are not built here",
  [M + "oram/WriteOnlyOram.h", M + "oram/LinearOram.h", M + "oram/SinglePointArrayGenerator.cpp", M + "oram/ObliviousDeltaCalculator.h", M + "oram/DifferenceCalculator.h", M + "oram/WriteOnlyOramFactory.h", M + "oram/LinearOramFactory.h"],
  [("single-point arrays", M + "oram/")], [("shares of the memory", "per-party share of each cell", M + "oram/")], ["values read"])
p("C22", "Breakdown encoding is a consistent one-to-one numbering",
  "Encoding gives equal rows equal numbers, different retained rows different numbers, numbers dense from zero, and all filtered-out rows share one number; encoding later rows extends, never renumbers. Decoding a number returns the row that got it, and an unknown number is an error. The mapping survives being written out and read back exactly.",
  ["inputs", "histories"],
  "all row sequences, filters (single and combined) and successive calls; any mapping serialised and read back",
  "tests use a few fixed rows",
  [M + "oram/encoder/OramEncoder.cpp", M + "oram/encoder/OramEncoder.h", M + "oram/encoder/OramDecoder.cpp", M + "oram/encoder/IFilter.h", M + "oram/encoder/OramMappingConfig.h"],
  [("mapping table", M + "oram/encoder/OramEncoder.cpp")], observe=["encoded and decoded rows"])
p("C23", "Private matching results are turned into aligned row lists",
  "Given each party's mapping from union positions to its own rows, the two parties obtain lists of equal length containing each matched row exactly once, such that equal positions of the two lists refer to the same union element. The order reveals nothing of the original order, and maps that are out of range or repeat a row are rejected.",
  ["inputs", "configurations"],
  "all unions, intersections (empty, full, partial), row orders and sizes; invalid maps",
  "tests use one fixed map and are not built here",
  [M + "unified_data_process/adapter/Adapter_impl.h", M + "unified_data_process/adapter/IAdapter.h", M + "unified_data_process/adapter/AdapterFactory.h"],
  [("shuffle and compaction of positions", M + "unified_data_process/adapter/")], observe=["lists of both parties"])
p("C24", "Joined data is the owner's data at the matched rows",
  "When one party contributes plaintext rows and the other chooses which of them are wanted and in what order, the secret-shared result opens to exactly the chosen rows bit by bit, for every row width, number of rows and selection. The contributing party's other rows do not appear and sizes that do not agree are rejected.",
  ["inputs", "configurations"],
  "all data widths and contents, row counts, selections and orders, either direction, real and dummy processors",
  "tests run one random configuration and are not built here",
  [M + "unified_data_process/data_processor/DataProcessor_impl.h", M + "unified_data_process/data_processor/UdpUtil.cpp", M + "unified_data_process/data_processor/DummyDataProcessor_impl.h"],
  [("encrypt, transfer, decrypt in the circuit", M + "unified_data_process/data_processor/")], observe=["opened rows"])
p("C25", "Streamed row encryption decrypts to the selected rows, batch by batch",
  "Rows encrypted locally and streamed in any number and size of batches, with any selection of row numbers by the peer, are retained for exactly the selected rows in the order they were asked for, and decrypt to the original data. Encrypted results and keys survive splitting into shards and being written to and read from files. The same content never yields the same ciphertext in two runs, no two rows are hidden by the same mask, and using the steps out of order or with inconsistent sizes is an error.",
  ["inputs", "histories", "configurations"],
  "all batch splits, row widths, selections and shard counts; misuse sequences",
  "tests use one batch split and are not built here",
  [M + "unified_data_process/data_processor/UdpEncryption.cpp", M + "unified_data_process/data_processor/UdpUtil.cpp", M + "unified_data_process/data_processor/IUdpEncryption.h"],
  [("session state machine", M + "unified_data_process/data_processor/UdpEncryption.cpp")], [("selected rows", "order in which the peer asked", M + "unified_data_process/data_processor/UdpEncryption.h")], ["retained ciphertexts", "decrypted rows"])
p("C26", "Rows survive serialization bit by bit",
  "Serializing a table according to a row layout and reading the bytes back, in the clear or as secret values, yields every column's value unchanged for every layout of integers, arrays and packed bit fields, including negative values and padding to a byte. The declared row size is the number of bytes written, columns do not overlap, and tables that do not fit the layout are rejected.",
  ["inputs", "configurations"],
  "all layouts, column types and values, numbers of rows, padding sizes; malformed tables",
  "tests use one fixed layout and are not built here",
  [M + "unified_data_process/serialization/IntegerColumn.h", M + "unified_data_process/serialization/FixedSizeArrayColumn.h", M + "unified_data_process/serialization/PackedBitFieldColumn.h", M + "unified_data_process/serialization/RowStructureDefinition.h"],
  [("column offsets", M + "unified_data_process/serialization/RowStructureDefinition.h")], observe=["bytes", "deserialized values"])
p("C27", "Fixed-width values and batch adapters are lossless",
  "Fixed-width integers wrap around like two's complement of their width and reject values outside it. Converting values to bits and back, transposing batches of blocks to bits, batching, unbatching, swapping on a secret condition and opening of integers, aggregation values, bit strings and pairs returns the original values, for every width, sign and batch size. A value drawn from a random key depends on the key alone and falls on every value of its type alike.",
  ["inputs", "configurations"],
  "all values and widths, batch sizes, types and nesting of pairs",
  "tests sample a few widths and values",
  [M + "util/Intp_impl.h", M + "util/util.h", M + "util/util.cpp", M + "util/uint32_impl.h", M + "util/aggregationValue_impl.h", M + "util/bitstring_impl.h", M + "util/pairUtil.h"],
  [("bit decomposition", M + "util/")], observe=["round-trip values"])
p("C28", "Secure matrix products equal the noisy fixed-point product",
  "The feature owner's result of the secure feature-by-label product equals the sum of the feature columns selected by the secret labels plus the label owner's noise, up to the declared fixed-point precision, for every shape, label pattern and number of rounds; the label owner gets nothing, and what travels between them tells neither labels nor features. Columns of differing lengths, a wrong number of labels and the wrong role are refused. Number mapping round-trips within one unit of the precision and refuses scales beyond the type.",
  ["inputs", "histories", "configurations"],
  "all matrix shapes, label patterns, value magnitudes within range, divisors, repeated multiplications; dummy and oblivious-transfer implementations",
  "tests multiply a few fixed matrices and are not built here",
  [M + "walr_multiplication/OTBasedMatrixMultiplication_impl.h", M + "walr_multiplication/DummyMatrixMultiplication.h", M + "walr_multiplication/util/NumberMapper.h", M + "walr_multiplication/util/COTWithRandomMessage.cpp"],
  [("correlated transfer per label", M + "walr_multiplication/OTBasedMatrixMultiplication_impl.h")], observe=["result vector", "metrics"])
p("C29", "Message authentication codes equal their standards",
  "The message authentication code equals AES-CMAC of the standard and the synthetic initialization vector equals its standard construction, for every key and message of every length. Results depend on the whole message and key and are the same on every call.",
  ["inputs"],
  "all keys and messages, lengths 0 to several blocks around block boundaries",
  "tests check a few vectors and are not built here",
  ["fbpcf/primitive/mac/AesCmac.cpp", "fbpcf/primitive/mac/S2v.cpp"], [("sub-key derivation and padding", "fbpcf/primitive/mac/")], observe=["codes"])
p("C30", "Jointly drawn public randomness is common, fresh and cheat-evident",
  "Two honest parties drawing a public seed obtain the same value, which differs from run to run and depends on both contributions. A party whose revealed contribution does not match what it committed to is detected by the other, which then refuses to return a seed.",
  ["histories", "fault_sequences"],
  "all runs, and all single alterations of the revealed or committed message",
  "one test runs the honest case",
  [M + "util/secureSamplePublicSeed.cpp"], [("commit then reveal", M + "util/secureSamplePublicSeed.cpp")], observe=["seeds", "errors"])
p("C31", "The example applications compute what they say",
  "The wealth comparison tells the first party whether the second is strictly richer, computed over all listed assets without overflow, and tells the other nothing. The edit-distance application yields for every row pair the defined weighted distance and releases the message exactly where the distance passes the threshold, from parsed input files through recombination of the two result files; parameters, row counts and lines that do not fit are refused; the validator accepts exactly matching results.",
  ["inputs", "configurations"],
  "all asset lists and strings up to the supported length, message and threshold combinations, with lazy and eager evaluation",
  "tests use one fixed data set and are not built here",
  ["example/billionaire_problem/BillionaireProblemGame_impl.h", "example/edit_distance/EditDistanceResults.h", "example/edit_distance/EditDistanceCalculator_impl.h", "example/edit_distance/EditDistanceInputReader.cpp", "example/edit_distance/EditDistanceResults.h", "example/edit_distance/Validator.cpp", "example/edit_distance/AsciiString.h"],
  [("circuit over batches", "example/")], observe=["application results"])
p("C32", "Traffic and work statistics are exact and conserved",
  "Bytes reported as sent by one party equal bytes reported as received by its peers and the payload actually exchanged, for every channel, engine and protocol, once no exchange is under way, and totals never decrease or count an exchange twice. Gate counts match the requested operations, and live and allocated value counts match what exists. Tuple metrics match the tuples handed out and never show more consumed than generated. Collected metrics contain every registered recorder once under its name (one whose name is already taken gets a distinguishing suffix), and aggregation adds up equal names.",
  ["histories", "programs", "configurations"],
  "all programs and message sequences, all engines, any set of recorders",
  "tests check the statistics of one or two exchanges",
  [E + "communication/IPartyCommunicationAgent.h", E + "SecretShareEngine.cpp", S + "IScheduler.h", "fbpcf/util/MetricCollector.h", T + "ITupleGenerator.h", O + "IRandomCorrelatedObliviousTransfer.h"],
  [("counters on send and receive", E + "communication/")], observe=["statistics API"])
p("C33", "Concurrent parties and games are free of races and of each other",
  "Any number of parties and independent games running at once in one process, on different threads, each compute their own correct result without data races, undefined behaviour, invalid memory access or cross-talk. This includes background generation of correlated randomness, channel creation while others are in use, and repeated construction and destruction of whole games.",
  ["schedules", "configurations"],
  "all thread interleavings of 2 to 4 parties and several simultaneous games with real correlated-randomness generation",
  "tests are run without a race detector, one game at a time, and the multi-threaded ones are not built here",
  [S + "IScheduler.h", "fbpcf/frontend/mpcGame.h", S + "SchedulerHelper.h", E + "SecretShareEngineFactory.h", E + "communication/InMemoryPartyCommunicationAgentFactory.h", E + "util/AsyncBuffer.h"],
  [("one scheduler per game identity", S + "IScheduler.h")], observe=["race detector", "results"])
p("C34", "Vector, functional and parsing helpers equal their definitions",
  "Element-wise vector operations, map, reduce and apply helpers, conversions between integers and bits, and splitting of comma-separated lines into fields agree with their mathematical definition for every input, leave their arguments alone unless they are in-place, and reject operands of different sizes or malformed text.",
  ["inputs"],
  "all vectors and sizes including empty, all element values, all lines",
  "tests check a handful of short inputs each",
  ["fbpcf/common/FunctionalUtil.h", "fbpcf/common/VectorUtil.h", "fbpcf/io/api/IOUtils.h", "fbpcf/frontend/util.h", "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMatrixMultiplier.cpp"],
  [("header-only helpers", "fbpcf/common/")], observe=["results"])
p("C35", "Generated test data is consistent with its expected results",
  "For every option, the data generator writes two input files of the requested number of rows and an expected-result file in which each row's distance is the defined edit distance of the two strings and the message appears exactly where the distance passes the threshold, with all strings within the allowed alphabet and length. Files are well formed and re-readable.",
  ["inputs"],
  "all row counts, seeds and string shapes",
  "the test mocks the random source and checks a few calls",
  ["example/edit_distance/data_gen/"], [("reference edit distance", "example/edit_distance/data_gen/")], observe=["generated files"])
p("C36", "Legacy queue channel and executor are lossless",
  "The in-memory queue channel of the legacy framework delivers all bytes once and in order in both directions under any thread timing, and the executor runs every given application exactly once, up to the given concurrency at a time, and returns only when all have ended, in every execution. A game or application of that framework is played once with its own input, role and address, and its result is handed out unchanged; operand vectors keep their pairs in order and timed calls behave like the calls they wrap.",
  ["schedules", "inputs"],
  "all message sizes and timings, numbers of applications and concurrency levels",
  "tests exchange one message and are not built here",
  ["fbpcf/mpc/QueueIO.cpp", "fbpcf/mpc/QueueIO.h", "fbpcf/mpc/MpcAppExecutor.h", "fbpcf/mpc/EmpApp.h", "fbpcf/mpc/EmpGame.h", "fbpcf/mpc/IMpcGame.h", "fbpcf/mpc/EmpVector.h", "fbpcf/perf/PerfUtil.h"], [("synchronized queue", "fbpcf/mpc/QueueIO.cpp")], observe=["bytes received", "application runs"])
p("C37", "Storage addresses are understood the same way everywhere",
  "Every address of a documented form is recognised as the right kind of storage and parsed into exactly its region, bucket and key, whatever characters the key contains that the form allows; every other address is treated as a local path or refused. Reading, writing and file managers agree on the kind. A client is made for exactly the region of the address; options that are given go before the environment.",
  ["inputs"],
  "all addresses of the documented forms and near misses, bucket names with dots and dashes, nested keys, regions",
  "tests check one address per form and are not built here",
  ["fbpcf/aws/S3Util.cpp", "fbpcf/gcp/GCSUtil.cpp", "fbpcf/io/cloud_util/CloudFileUtil.cpp", "fbpcf/io/FileManagerUtil.cpp", "fbpcf/io/api/FileReader.cpp", "fbpcf/io/api/FileWriter.cpp"],
  [("address patterns", "fbpcf/io/cloud_util/CloudFileUtil.cpp")], observe=["parsed references"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, sch)
        assert len(x["title"]) <= 80, x["id"]
        for a in x["anchors"]["files"]:
            import os
            if not os.path.exists("/repo/" + a):
                print("missing anchor", x["id"], a)
    print(len(P), "ok")
except ImportError:
    print("no jsonschema")
