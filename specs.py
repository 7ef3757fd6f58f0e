"""What each check builds, runs and counts. Used by run.py and tools/gen_manifest.py."""
DRIVERS = {
    "asyncbuf": dict(src=["drivers/asyncbuf.cpp"]),
    "circuit": dict(src=["drivers/circuit.cpp"]),
    "fe": dict(src=["drivers/fe_%d.cpp" % i for i in range(10)] + ["drivers/fe_bits.cpp", "drivers/fe_main.cpp"], opt="-O0"),
    "lazy": dict(src=["drivers/lazy.cpp"]),
    "rebatch": dict(src=["drivers/rebatch.cpp", "drivers/rebatch_typed.cpp"], opt="-O0"),
    "engine": dict(src=["drivers/engine.cpp"]),
    "wire": dict(src=["drivers/wire.cpp"], opt="-O1"),
    "tuples": dict(src=["drivers/tuples.cpp"]),
    "ot": dict(src=["drivers/ot.cpp"]),
    "channels": dict(src=["drivers/channels.cpp"]),
    "sockets": dict(src=["drivers/sockets.cpp"], libs=["-lssl", "-Wl,--wrap=connect"]),
    "cut": dict(src=["drivers/cut.cpp"], flags=["-DNDEBUG"], libs=["-lssl", "-Wl,--wrap=connect"]),
    "reading": dict(src=["drivers/reading.cpp"], libs=["-lre2"]),
    "writing": dict(src=["drivers/writing.cpp"], libs=["-lre2"]),
    "cloud": dict(src=["drivers/cloud.cpp"], libs=["-lre2"]),
    "aes": dict(src=["drivers/aes.cpp"], opt="-O1"),
    "permute": dict(src=["drivers/permute.cpp"]),
    "shuffle": dict(src=["drivers/shuffle.cpp"]),
    "oram": dict(src=["drivers/oram.cpp"]),
    "encoder": dict(src=["drivers/encoder.cpp"], libs=["-lboost_serialization", "-lre2"]),
    "adapter": dict(src=["drivers/adapter.cpp"]),
    "udp": dict(src=["drivers/udp.cpp"], libs=["-lboost_serialization", "-lre2"]),
    "udpenc": dict(src=["drivers/udpenc.cpp"], libs=["-lboost_serialization", "-lre2"]),
    "rows": dict(src=["drivers/rows.cpp"]),
    "values": dict(src=["drivers/values.cpp", "drivers/values_more.cpp", "drivers/values_wide.cpp", "drivers/values_low.cpp", "drivers/values_high.cpp"]),
    "walr": dict(src=["drivers/walr.cpp"]),
    "mac": dict(src=["drivers/mac.cpp"]),
    "seed": dict(src=["drivers/seed.cpp"]),
    "apps": dict(src=["drivers/apps.cpp"], libs=["-lre2", "-lssl", "-Wl,--wrap=connect"]),
    "stats": dict(src=["drivers/stats.cpp"], libs=["-lssl", "-Wl,--wrap=connect"]),
    "races": dict(src=["drivers/races.cpp"], libs=["-lssl", "-Wl,--wrap=connect"]),
    "helpers": dict(src=["drivers/helpers.cpp"], std="c++17"),
    "legacy": dict(src=["drivers/legacy.cpp"]),
    "addresses": dict(src=["drivers/addresses.cpp"], libs=["-lre2"]),
    "lifetime": dict(src=["drivers/lifetime.cpp", "drivers/lifetime_prog.cpp"]),
    "prg": dict(src=["drivers/prg.cpp"]),
}


def run(driver, san="asan", **k):
    return dict(driver=driver, san=san, **k)


ORACLE = "runtime monitoring: generated workloads over the real code, "
CHECKS = {
    "C01": dict(
        runs=[run("circuit")],
        technique=ORACLE + "plaintext evaluation of generated programs as online oracle over every scheduler, engine and party count, ASan/UBSan build",
        rule="random programs (shape, operands, batch sizes, openings, value drops) over scheduler x engine x allocator x parties; every operation on batches of different sizes; distinct by world and structure",
        min_events=dict(operations=20000, values_opened=5000, shares_recombined=500, wide_values=50000, mismatches_refused=400),
        note="Every opened value and every set of extracted shares of every generated program is compared with the program's plaintext meaning; engines with shipped buffer sizes run in the thorough tier."),
    "C02": dict(
        runs=[run("fe")],
        technique=ORACLE + "two's-complement arithmetic as online oracle for every operation on Int, Bit and BitString over 1 to 3 parties, ASan/UBSan build",
        rule="every operation for 20 combinations of width, sign and batching x secret/public operands x scheduler, on edge-biased values and, in batches, every power of two with its neighbours and negatives; distinct by configuration and repetition",
        min_events=dict(results_compared=300000, lattice_sweeps=100),
        note="Each result of each operation is opened and compared; operands are re-read afterwards; values out of range, bad indices and mismatched lengths must be refused. Widths not instantiated are assumed to behave like the ones that are."),
    "C03": dict(
        runs=[run("lifetime")],
        technique=ORACLE + "shadow reference counts and values as online monitor over handle histories, ASan/UBSan build",
        rule="random allocate/write/hold/release histories of the three stores, of the wire keeper, and of handles (copy, move, self-assignment, containers, share round trips), plus whole programs; distinct by history",
        min_events=dict(allocator_reads=20000, wire_reads=20000, handle_operations=10000, handles_read=2000, live_counts_checked=5000, drains_checked=100, unallocated_uses=3000),
        note="The live count is compared with the shadow after every step where evaluation is not deferred, and after all handles are gone; misuse must be refused by the checking stores (the unsafe arena makes no such promise)."),
    "C04": dict(
        runs=[run("lazy")],
        technique=ORACLE + "engine tap as online monitor: every scheduled product, exchange and opening is recorded and compared with the program's operations and depths; plaintext oracle for values; ASan/UBSan build",
        rule="random programs, one to three in a row on the same schedulers of 2 to 4 parties, forced only at the end or at random points; pressure programs beyond the pending-work limit; distinct by structure",
        min_events=dict(operations_checked=50000, exchanges_observed=500, openings_observed=500, pressure_exchanges=1, early_evaluations=20),
        note="Exactly-once, one exchange per depth, identical order at all parties and exact statistics are decided on each run by the requests that reached the engine."),
    "C05": dict(
        runs=[run("rebatch")],
        technique=ORACLE + "plain lists as online oracle for random trees of joins and splits on every scheduler and every batched type, ASan/UBSan build",
        rule="random trees of joins, splits (empty pieces, single pieces, repeated operands), products in between, early openings and releases; misfitting size lists; distinct by history",
        min_events=dict(joins=1500, splits=1500, elements_compared=50000, misfits=200, size_queries=10000),
        note="Every element of every joined or split value is opened and compared; sizes are compared before evaluation; a misfit must be refused at once or, for deferred evaluation, at the latest when evaluated."),
    "C06": dict(
        runs=[run("engine"), run("engine", "plain", shards=5)],
        technique=ORACLE + "offline recombination of the shares recorded at all parties against plain values, plus an online monitor of openings and placeholders, ASan/UBSan build; a plain build for the engines with shipped buffer sizes",
        rule="random sessions of inputs, local operations, schedules of up to 200 products of every shape per exchange, immediate products and openings, for 2 to 5 parties and engines with refilling tuple generators; every engine the library's factory functions make, for 2 and 3 parties, with what it has and what it was made without; distinct by session",
        min_events=dict(values_recombined=100000, products_scheduled=5000, values_opened=5000, placeholders=5000, masked_values=20000, shipped_products=50000),
        note="Every share produced in a session is recombined over all parties; non-owners feed garbage as the others' input; non-recipients' results must be the same for every opened value."),
    "C07": dict(
        runs=[run("wire", "plain", shards=8)],
        technique=ORACLE + "transcript recorder with statistical monitors (balance, all-lag auto- and cross-correlation within and between executions) and size comparison between secrets",
        rule="random programs run with three sets of secrets; sessions of inputs, repeated products and openings with all-zero and all-one secrets over real tuple generators; chosen transfers with fixed choices and messages; distinct by session",
        min_events=dict(message_sizes_compared=2000, streams_tested=60, correlations_tested=50000, openings_observed=20, share_subsets=8, transfers_observed=4, offers_observed=50000, masked_bits=50000),
        note="Statistical tests reject at 7.5 standard deviations, so chance alarms do not occur; a bias below that, or a dependence between more than two streams, would not be seen. Computational indistinguishability itself is assumed of AES."),
    "C08": dict(
        runs=[run("tuples", shards=8)],
        technique=ORACLE + "offline recombination of the tuples collected at all parties (product, width, amount) plus freshness monitors (exact repeats of 64-bit components, balance and all-lag correlation of bit components), ASan/UBSan build",
        rule="random request sequences around buffer boundaries, composite widths 1 to 1000, buffer sizes 1 to 3000, 2 to 5 parties, IKNP, Ferret and dummy correlations, delayed messages; products and tuples beyond 65536 at once; distinct by session",
        min_events=dict(boolean_tuples=50000, composite_tuples=2000, integer_tuples=200, product_shares=1000, requests=500, freshness_values=200, composite_masks=100, large_requests=4),
        note="Every tuple obtained in a session is recombined over all parties. Freshness of single bits is statistical (7.5 standard deviations); 64-bit components must never repeat."),
    "C09": dict(
        runs=[run("ot", shards=8)],
        technique=ORACLE + "offline comparison of both sides' messages with the defining correlation, freshness monitors (exact 128-bit repeats, balance and all-lag correlation of choices), ASan/UBSan build",
        rule="random request sequences around extension boundaries and random parameters for base, correlated, single-point, multi-point, extended, chosen and chosen-bit transfers in both roles; matrix rows recovered through unit inputs; requests beyond 65536 at once; distinct by session",
        min_events=dict(stand_in_extended=300, base_transfers=500, correlations_checked=50000, point_positions=10000, matrix_rows=10000, chosen_transfers=10000, chosen_bit_transfers=2000, refusals=50, extension_inputs=5000, large_requests=6),
        note="Every position of every result is compared at both sides. The emp library is represented by a stand-in that implements its interface, so its own protocol is not examined. Shipped Ferret parameters run in the thorough tier."),
    "C10": dict(
        runs=[run("prg")],
        technique=ORACLE + "OpenSSL as online oracle, ASan/UBSan build",
        rule="random keys, blocks and request sequences from the seed; a case is non-trivial and distinct by its key or its seed, buffer size and request list",
        min_events=dict(stream_requests=500, blocks_compared=1000),
        note="Every block and stream byte produced in the run is compared with OpenSSL; assumes the sampled requests are representative."),
    "C11": dict(
        runs=[run("asyncbuf"), run("asyncbuf", "tsan")],
        technique=ORACLE + "sequence-numbered stream monitor under injected delays and failures, ASan/UBSan and ThreadSanitizer builds",
        rule="random buffer sizes, request lists, launch modes, delays and failure points; distinct by that tuple",
        min_events=dict(elements=10000, generator_failures=50, own_threads=2000),
        note="Order, loss and duplication are decided on every element delivered; races by ThreadSanitizer on the schedules that occurred."),
    "C12": dict(
        runs=[run("channels", shards=3), run("channels", "tsan", shards=3)],
        technique=ORACLE + "byte streams with known content compared at every receive under injected delays and independent splits at the two ends, plain sums for openings; ASan/UBSan and ThreadSanitizer builds",
        rule="random stream lengths, splits and typed messages in both directions at once over single hosts, networks of 2 to 5 parties with several channels per pair, and openings between them; messages of more than 2 and 4 GiB through a channel that measures what it is asked for and through the real one; distinct by configuration",
        min_events=dict(bytes_compared=500000, typed_messages_compared=3000, channels=50, values_opened=5000, keys_compared=50, refusals=50, large_messages=5),
        note="Every byte received is compared with the byte sent on that channel and direction; totals reported by both ends must agree; races by ThreadSanitizer on the schedules that occurred."),
    "C13": dict(
        runs=[run("sockets", shards=6)],
        technique=ORACLE + "byte streams with known content compared at every receive, relays capturing every connection searched for payload, handshakes with good and bad certificates; ASan/UBSan build",
        rule="networks of 2 to 4 parties, plain and TLS, 1 to 3 channels per pair, relayed in random pieces, next ports taken, every constructor of the factory; certificates taken from folders, usable and not; dialogues with sizes around TLS record borders up to 3 MB; 22 certificate and passphrase situations; distinct by configuration",
        min_events=dict(bytes_compared=5000000, channels=60, connections_captured=20, captured_bytes_searched=500000, handshakes=20, bad_certificates_refused=13, refusals=50, older_factories=10, folder_connections=3, unusable_folders_refused=5),
        note="Real loopback connections. TLS channels are used by one thread per end, as OpenSSL requires; plain ones in both directions at once. The relays see every byte of every client connection."),
    "C14": dict(
        runs=[run("cut", shards=6)],
        technique=ORACLE + "fault injection: relays that forward an exact number of bytes and then close, half-close or reset the connection, with every receive compared and timed; ASan/UBSan build with assertions compiled out",
        rule="random stream lengths, cut positions in plaintext or ciphertext (handshake included), kind of loss, direction, and whether everything was sent before; departures of the peer object; cuts of the connection that arranges further ones; distinct by scenario",
        min_events=dict(cut_streams=50, departures=20, receives_refused=80, sends_refused=40, receives_compared=800, lost_during_handshake=1, small_sends_refused=3),
        note="SIGPIPE is ignored in the harness, as the code's callers must; otherwise a send to a closed plain connection ends the process. After a reset only the absence of invented data and the error are required, since the system may drop what arrived."),
    "C15": dict(
        runs=[run("reading")],
        technique=ORACLE + "position-tracking monitor over known contents for every line, block and end-of-file answer, with sources and a stand-in object store that fail at chosen points; ASan/UBSan build",
        rule="random contents (empty, binary, NUL, long lines, missing final line break), chunk sizes and mixes of line and block reads over memory, local, file, S3 and GCS sources; sources that fail at a chosen byte in four ways; distinct by content, chunk and style",
        min_events=dict(lines_compared=50000, blocks_compared=2000, reads_past_end=1000, failures_reported=500, files_compared=200, csv_rows_compared=20000),
        note="Every byte returned is compared with the content. readFile is taken to end each line with a line break, also the last. The cloud client libraries are stand-ins; the default 1 GiB chunk of remote files is used once."),
    "C16": dict(
        runs=[run("writing")],
        technique=ORACLE + "comparison of the stored bytes with everything written, read back by every reader and by ranges, with failing sinks and a full device; ASan/UBSan build",
        rule="random contents, chunk sizes, splits, flushes and ways to close over memory, local, file, S3 and GCS sinks, replacing longer files and creating directories; sinks failing at the k-th write or on close, /dev/full; whole-file helpers and the local file manager; distinct by content and configuration",
        min_events=dict(pieces_written=50000, files_read_back=500, ranges_compared=1000, failures_reported=300, full_device_writes=30, flushes_compared=1000),
        note="Every file is compared in full. transferFileInParts is taken to end each line with a line break, also the last. Failures surfacing only in a destructor are not examined (they end the process)."),
    "C17": dict(
        runs=[run("cloud")],
        technique=ORACLE + "request log and contents of an in-memory object store as oracle under generated fault schedules (request lost, answer lost, download broken off), ASan/UBSan build",
        rule="random contents, part sizes, callers (uploader, writers, helpers, file managers; stop, go on or drop after a failure) and fault schedules per request kind for S3 and GCS; ranges, whole objects and lengths with faults; clients by region from several threads; distinct by caller, content and schedule",
        min_events=dict(store_requests=10000, failed_uploads=300, finished_uploads=500, downloads_compared=300, download_errors=300, failed_aborts=50, clients_compared=300),
        note="The AWS and Google client libraries are represented by stand-ins with the same interface whose store answers as documented (part numbers, etags, ranges, minimum part size). An object may exist after a reported failure only when the answer to the final request was lost."),
    "C18": dict(
        runs=[run("aes")],
        technique=ORACLE + "OpenSSL as oracle for the circuits in the clear and evaluated by two and three parties, ASan/UBSan build",
        rule="random and patterned keys, blocks and counters (carries included), 0 to 40 blocks in the clear, 1 to 3 blocks of up to 9 lanes with different keys as secret single and batched bits on every scheduler, all four operations; wrong sizes; distinct by case",
        min_events=dict(blocks_compared=2000, secure_blocks_compared=60, refusals=500),
        note="Every bit of every result is compared. The circuit takes the expanded key, so the key schedule comes from the library's own expansion, which C10 compares with OpenSSL."),
    "C19": dict(
        runs=[run("permute", shards=3)],
        technique=ORACLE + "plain indexing as oracle for every permuted batch, traffic counters watched while bad orders are refused, ASan/UBSan build",
        rule="every permutation up to 6 positions (8 thorough) in the clear; random, identity, reversed and rotated orders of 1 to 300 positions (and of more than 65536 in the clear) of bits, strings of 1 to 128 bits, integers and pairs, ordered by either party, on every scheduler and both permuters; distinct by session",
        min_events=dict(permutations=1500, elements_compared=100000, refusals=100, wide_permutations=2),
        note="Every element of the result and of the input afterwards is opened and compared."),
    "C20": dict(
        runs=[run("shuffle", shards=4)],
        technique=ORACLE + "multiset comparison of every shuffled or compacted batch, freshness monitor for orders with one or both parties' randomness fixed, statistical fairness monitors, ASan/UBSan build",
        rule="random batches of 1 to 40 elements with repeats, of five kinds, label densities from none to all, every shuffler, compactor and scheduler; permutations of up to 4000 positions, and of more than 65536, from good and constant generators; fairness over all orders of up to 5 positions and all positions of up to 33; distinct by case",
        min_events=dict(shuffles=200, compactions=150, empty_compactions=20, orders_compared=30, fairness_draws=20000, permutations_checked=500),
        note="Fairness is statistical (7.5 standard deviations per cell). Stand-in permuter and compactor, meant for tests only, are not run on bit strings, which they do not support."),
    "C21": dict(
        runs=[run("oram", shards=2)],
        technique=ORACLE + "plain array as oracle for every position after every history of accesses, share-randomness monitor, ASan/UBSan build",
        rule="random sizes (1 to 40), widths, batch sizes, ids (repeats and all-equal included) and histories of obliviousAddBatch and secretRead on both kinds of ORAM, both roles, real and stand-in helpers; mismatched sizes; distinct by history",
        min_events=dict(array_positions=300, reads_compared=400, refusals=100, shares_compared=250, updates=1000),
        note="The whole array is reconstructed from both parties' shares and compared; indices outside the array are not examined."),
    "C22": dict(
        runs=[run("encoder")],
        technique=ORACLE + "a plain dictionary as oracle for every encoded row, decoded index and filter decision over histories of batches, ASan/UBSan build",
        rule="random rows of 0 to 5 columns (also of mixed lengths) with values that read alike when joined, edge values and repeats; several batches per encoder; every filter type and combination; decoding of every assigned, unassigned and filtered index; distinct by rows and filters",
        min_events=dict(filters_applied=300, mappings_reread=800, refusals=3000, rows_decoded=20000, rows_encoded=30000, rows_filtered=10000),
        note="Every row of every batch is compared."),
    "C23": dict(
        runs=[run("adapter")],
        technique=ORACLE + "plain join of the two maps as oracle for every aligned list, traffic counters watched while bad maps are refused, statistical monitor of the order, ASan/UBSan build",
        rule="random unions of 1 to 90 elements with empty, full, single, one-sided and random intersections, own rows in any order and with gaps, either party in either role, several rounds per adapter, every shuffler and scheduler; out of range, negative, repeated and empty maps; 2800 draws of the order; distinct by session",
        min_events=dict(empty_intersections=20, matches_compared=600, orders_drawn=1000, refusals=1000, unions=100, unions_of_one=20),
        note="Every element of both lists is compared. Fairness of the order is statistical (7.5 standard deviations per order)."),
    "C24": dict(
        runs=[run("udp")],
        technique=ORACLE + "the owner's rows as oracle for every opened bit, search of the owner's traffic for its rows, share-randomness monitor, ASan/UBSan build",
        rule="random and patterned rows of 1 to 70 bytes (36 for the real processor), 1 to 40 rows, selections of one to all in any order, several rounds in either direction on one processor, real and stand-in processors, every scheduler; rows of differing widths, no rows, rows asked for that do not exist; distinct by session",
        min_events=dict(rows_compared=250, refusals=15, rows_sought=15, share_bits=4000),
        note="Every bit of every chosen row is compared. Sizes only the peer could know to be wrong are not examined; the real processor is given distinct rows."),
    "C25": dict(
        runs=[run("udpenc", shards=3)],
        technique=ORACLE + "the owner's rows as oracle for what streamed results decrypt to after shards and files, repetition monitor for ciphertexts, nonces and keys, misuse interleaved with good use, ASan/UBSan build",
        rule="random batches, widths, row numbers (beyond 32 bits and alike in the low bits included) and selections, several sessions per object in both directions interleaved at random with refused misuse; rows that never come; any shard count; distinct by session",
        min_events=dict(ciphertexts_examined=250, masks_compared=300, files_reread=300, refusals=400, rows_compared=300, shards_compared=500),
        note="Every row is decrypted by both parties from what was written to and read from files, and compared; selections name distinct rows."),
    "C26": dict(
        runs=[run("rows")],
        technique=ORACLE + "the table itself as oracle for every opened value, ownership map of every bit of a row built by changing one column at a time, ASan/UBSan build",
        rule="random layouts of 0 to 24 columns of all types (many, one and no bits included), array lengths 0 to 5, 1 to 60 rows with edge values, on every scheduler; nine kinds of tables that do not fit, rows too narrow to read; packed fields alone; distinct by layout and case",
        min_events=dict(bits_attributed=500000, columns_compared=700, refusals=1200, values_compared=12000),
        note="Every value of every column is compared. Strings wider than the layout are not examined."),
    "C27": dict(
        runs=[run("values")],
        technique=ORACLE + "128-bit arithmetic as oracle for integers of every width, the values themselves for every conversion, swap, rebatching and opening, ASan/UBSan build",
        rule="every width 1 to 64 of both signs: all pairs of values up to 7 bits, edges and random values above, chains of operations, values outside; blocks of 0 to 300; bits, words, aggregation values, strings of 1 to 128 bits, integers and (nested) pairs in batches of 1 to 90 on every scheduler; distinct by case",
        min_events=dict(blocks_compared=900, elements_compared=12000, rebatches=90, recoveries=50, refusals=500, sums_compared=50000, swaps=200, words_compared=1000),
        note="Every element is compared. Conversion from fewer bits than the width is not examined."),
    "C28": dict(
        runs=[run("walr", shards=3)],
        technique=ORACLE + "plain arithmetic on the owners' inputs as oracle for every result, exact on the fixed-point grid; metrics and traffic against what was exchanged; uniformity and repetition monitor on everything that travels between the owners, ASan/UBSan build",
        rule="1 to 150 labels by 0 to 120 features, label patterns (all, none, computed from both parties' bits), values up to the range of 8 to 64 bit fixed-point types on and off the grid, any divisor, 1 to 6 rounds on 1 or 2 objects of a factory, classic, extended and stand-in transfers, the stand-in implementation; misuse in between (wrong role, label count, ragged columns); distinct by session",
        min_events=dict(products=100, results_compared=1700, metrics_checked=290, numbers_mapped=12000, refusals=400, streams_tested=36, traffic_checked=66),
        note="Every result of every round is compared. Sums outside the range of the fixed-point type, and noise of another length than the features (which only the peer could know), are not examined."),
    "C29": dict(
        runs=[run("mac")],
        technique=ORACLE + "the standards computed block by block (and by OpenSSL's AES-SIV, and the published vectors) as oracle for every code, collision monitor over texts that look alike, ASan/UBSan build",
        rule="random and patterned keys; texts of every length 0 to 70 (300 thorough) and up to 100 kB, each with its padded, zero-extended, truncated and one-bit-changed versions; two keys in use at once; keys of other lengths; distinct by key",
        min_events=dict(codes_compared=10000, codes_compared_with_openssl=5000, published_vectors=4, refusals=16),
        note="Every code is compared in both forms."),
    "C30": dict(
        runs=[run("seed")],
        technique=ORACLE + "the documented protocol played by hand against either real party, with cheating; order monitor on what is said when; repetition and uniformity monitor over all contributions, ASan/UBSan build",
        rule="both orders of speaking, one to four draws per channel, delays; every single bit of the commitment and of what it opens to changed on the way; fifteen ways for the first party to cheat; distinct by session",
        min_events=dict(alterations=240, contributions=400, orders_checked=33, protocols_followed=100, seeds_compared=160),
        note="All 512 single-bit alterations of the checked messages are run."),
    "C31": dict(
        runs=[run("apps", "plain", shards=6), run("apps", shards=2)],
        technique=ORACLE + "64-bit totals, the textbook recursion for the distance and the release rule as oracle from parsed files to recombined result files; correlation monitor on what the party without result is told; plain build, and a smaller run with ASan/UBSan",
        rule="asset lists with edge values, equal and nearly equal totals, up to 500 at once and single, on every scheduler; word pairs of length 0 to 15 over several alphabets, costs including 0, thresholds that a distance meets or just misses, files with columns in any order; eight ways to change expected results and shares; parameters, row counts and lines that do not fit; strings alone; distinct by case",
        min_events=dict(comparisons=1200, rows_compared=90, strings_compared=60, validations=60, refusals=6, told_bits=500, programs_started=2),
        note="Every row is compared. Words are ASCII; the emp based millionaire example is not run (emp is a stand-in here); the applications' classes are run over in-memory channels and, once, as their programs start them over loopback sockets; option parsing in main() is not run."),
    "C32": dict(
        runs=[run("stats", "plain", shards=6), run("stats", "tsan", shards=2)],
        technique=ORACLE + "byte counts recorded at the channels, the generator's own count of operations and values, and the requests made of tuple generators as oracles for every statistic and metric, while and after work is done; reads from other threads under ThreadSanitizer",
        rule="random programs on every scheduler and engine kind with 2 to 4 parties, all counts compared after every operation and all totals at rest; games and their keepers; thirteen protocols and four oblivious memories alone; tuple generators of three kinds, alone and in pairs, with ordinary and composite requests around the expansion threshold; collectors with random recorders, names repeated or not; engines over real sockets; distinct by case",
        min_events=dict(totals_compared=130, borrowed_read=40, live_counts_compared=2500, gate_counts_compared=20, statistics_read=3000, protocol_rounds=70, tuple_metrics=60, reports_compared=100, collections_compared=700, sums_compared=1800, socket_metrics_compared=80, metrics_read=500, memories_checked=5),
        note="At rest means every byte sent has arrived; traffic of a prefetch that ends while an engine is being deleted is not in the total it leaves. The collector itself is filled by one thread."),
    "C33": dict(
        runs=[run("races", "tsan", shards=6)] +
             [run(d, s, shards=6, tier="thorough", counts="quick") for d, s in [("races", "plain"), ("races", "asan"), ("oram", "tsan"), ("permute", "tsan"), ("shuffle", "tsan"), ("engine", "tsan"), ("lazy", "tsan"), ("tuples", "tsan"), ("ot", "tsan"), ("walr", "tsan"), ("udp", "tsan"), ("sockets", "tsan"), ("cut", "tsan")]],
        technique=ORACLE + "ThreadSanitizer over many computations at once, every result compared with its own plaintext reference; in the thorough tier also the workloads of other checks under ThreadSanitizer and this one under ASan/UBSan",
        rule="two to six computations at once with 2 to 4 parties, any scheduler, allocator and engine kind with small buffers, injected delays; three pairs of game identities repeatedly built and destroyed beside a computation; tuple generators created, drained and destroyed over a factory whose other channels are in use and prefetching; permutation, shuffling and oblivious memories at once; socket networks at once; distinct by case",
        min_events=dict(computations=30, values_opened=4000, game_values=250, games=25, tuples=700, library_uses=20, socket_computations=1, most_at_once=4),
        note="The happens-before race detector sees races in the schedules that ran; OpenSSL is not instrumented, so the race detector runs on connections without TLS. Ferret runs at reduced size here; each party and each game is used by one thread, as everywhere in this library."),
    "C34": dict(
        runs=[run("helpers")],
        technique=ORACLE + "the textbook definition computed element by element as oracle; kept copies of every argument, order and number of function calls recorded, ASan/UBSan build in the dialect the library is built in (C++17)",
        rule="vectors of eight element types (with edge values; empty, single, up to 3000 elements, equal and unequal sizes), reductions with order-revealing functions, functions that throw in the middle; every line of up to six characters over a small alphabet and random lines with quotes, brackets, blanks; paths; all 64 combinations of type traits; blocks of bits and their refusals; bit matrix products against per-bit sums; distinct by case",
        min_events=dict(and_gates=600000, blocks_converted=900, elements_compared=800000, equalities=20000, lines_compared=24000, paths_compared=600, processor_facts=3, reductions=800, refusals=1700, type_kinds=64),
        note="The remaining conversions between values and bits are compared by C10, C26 and C27. Splitting a line trims the line it is given, as documented by its non-const parameter."),
    "C35": dict(
        runs=[dict(cmd="drivers/datagen.py", label="datagen")],
        technique=ORACLE + "the generator is run with its own command line and every cell of the files it leaves is compared with the textbook recursion and the release rule; coverage and repetition monitor on what it draws",
        rule="the shipped dictionary and random ones of 1 to 40 words (blanks, capitals, with and without a last line break), 0 to 400 rows and 3000, costs given or not, thresholds met exactly, leftover files of an earlier run; word pairs over several alphabets with costs from 0 to 1000 for the distance alone; free operations; options that cannot be served; the shipped data; distinct by case",
        min_events=dict(distances_compared=1200, rows_at_a_limit=250, rows_compared=4000, told_all=1200, told_half=400, told_nothing=1200, repeated_runs=3, dictionaries_covered=12, refusals=8, words_checked=9000),
        note="Dictionaries hold words without commas, quotes or line breaks, as the comma-separated files need."),
    "C36": dict(
        runs=[run("legacy"), run("legacy", "tsan")],
        technique=ORACLE + "every byte compared with a position-coded stream; applications count their own runs and who runs beside them; ASan/UBSan and ThreadSanitizer builds with injected delays",
        rule="one to three queue pairs at once, each end of each direction on a thread of its own or both on one, different splits at the two ends, empty pieces, delays; messages stored before anybody reads; executors of 1 to 20 threads with 0 to 60 applications, used once or repeatedly, applications that wait for each other or fail; games over the queue channel and applications over a connection with their inputs, roles and addresses; operand vectors; timed calls; a message of more than 2 GB (thorough); distinct by case",
        min_events=dict(applications_run=7000, bytes_compared=900000, receives=15000, receives_that_waited=300, executions_again=100, executions_with_overlap=150, games=100, network_applications=1000, operands=1000, refusals=60, timed_calls=60),
        note="emp and folly's thread pool are stand-ins (the pool follows folly's documented behaviour, including that a joined pool runs nothing more). Each direction has one reader, as everywhere in the library."),
    "C37": dict(
        runs=[run("addresses")],
        technique=ORACLE + "the parts an address was composed of as oracle for every parser, kind test and manager, and for the region, bucket and key of every request that reaches the (stand-in) stores; nothing outside the addressed object may change, ASan/UBSan build",
        rule="the seven documented forms with bucket names of dots, dashes, underscores and words that occur in hosts, keys of any depth with blanks, escapes, UTF-8 and parts that look like addresses; read and written through every reader, writer, uploader and manager; near misses (each dot of the host replaced, longer and shorter hosts, hosts in the path, no bucket, no key); local paths that resemble addresses; a missing default region; client options against the environment; distinct by address",
        min_events=dict(addresses_parsed=1300, clients_checked=250, crossed=400, local_paths=100, objects_read=8000, objects_written=5000, refusals=4000, regions_checked=60, requests_checked=16000),
        note="Keys with '?' or '#' (which end the path of an address), ports, user names and upper-case hosts are not examined. folly::Uri, the AWS and the Google SDK are stand-ins."),
}
