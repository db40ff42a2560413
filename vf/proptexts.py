BYTES = "src/util/bytes.c"
p("U01", "Hex decoding is strict and never writes beyond the target",
  "Decoding hexadecimal text (optional 0x prefix, odd digit counts padded on the left) yields exactly the bytes the digits denote. Any non-hex character anywhere, or a result that does not fit the target, is reported as an error; whatever the text, nothing beyond the given target size is ever written.",
  ["inputs"], "every text and every target size",
  "Tests decode a handful of well-formed strings; they never try every character position, odd lengths, or a target that is too small by one.",
  [BYTES, "src/util/bytes.h"], [("hex digit validation and size check before writing", BYTES + ": hex_to_bytes, hexchar_to_int")],
  "All texts of up to 8 (thorough 12) arbitrary bytes, all target sizes up to 5 (7): result, error code, and the bytes behind the target.",
  observe=["hex_to_bytes return value and target"])
p("U02", "Buffers keep capacity and content; integer codecs are exact inverses",
  "Appending to, splicing or formatting into a buffer never writes behind a fixed limit, never loses or reorders what is already there, and a growable buffer holds exactly the concatenation of what was appended. Big- and little-endian integer codecs are mutually inverse and agree with positional notation for every value, and byte-string equality is exact.",
  ["inputs", "histories"], "every buffer state, operation and argument",
  "Tests exercise roomy buffers with friendly values; the last byte of a fixed buffer, escape characters at the limit and formatting that just does not fit are not sampled.",
  [BYTES, "src/util/bytes.h"], [("capacity check of every append", BYTES + ": buffer_append, buffer_add_chars, buffer_splice, bprintf"), ("integer codecs", BYTES + ": uint64_from_le, uint64_from_be, bytes_as_be, uint64_to_be")],
  "One arbitrary operation from an arbitrary state of a 5 byte fixed buffer; two-step histories of growable buffers; all 64 bit values for the codecs.",
  observe=["buffer content after any call"])
J = "src/util/json.c"
p("U03", "Reading untrusted JSON text stays inside the text and finds the right value",
  "Whatever text a remote peer supplies as JSON, parsing and iterating it never reads outside the text or loops forever, and every value handed out is a slice of that text. Looking up an object property or array element returns exactly the value stored under that name or index and nothing else when it is absent.",
  ["inputs"], "every NUL-terminated text, every name and index",
  "Tests parse well-formed documents; truncated strings, stray escapes and unbalanced brackets at every position are an input space, not a list of samples.",
  [J, "src/util/json.h"], [("cursor based scanner bounded by the terminator", J + ": json_parse, parse_object, parse_number, find_end, next_non_whitespace_token"), ("lookup", J + ": json_get, json_at, json_next_property, json_next_value")],
  "Every text of up to 6 (thorough 8) bytes; lookups over arbitrary names, digits and indexes.",
  observe=["json_parse, json_get, json_at, json_next_*"])
p("U04", "JSON scalars convert to exactly the value they denote",
  "Turning a JSON scalar into a number, byte string or text gives exactly the value it denotes: decimal and 0x-hex numbers, 0x-hex byte strings, and string escapes including unicode. A value that does not fit the requested type or target is never silently truncated into another value that looks valid, and nothing is written beyond the target.",
  ["inputs"], "every scalar text and target size",
  "Tests convert a few constants; overflow boundaries, odd digit counts and escapes at the end of a string are not reached.",
  [J, BYTES], [("number conversion", J + ": json_as_uint64, json_as_uint32, json_to_uint64"), ("byte conversion", J + ": json_as_bytes, json_to_bytes"), ("text conversion", J + ": json_as_string")],
  "All hex texts of 1..18 digits, decimals of up to 20 digits, strings of up to 8 bytes with every escape.",
  observe=["json_as_* results"])
p("U05", "Schema validation of JSON accepts exactly the documented value set",
  "Validating JSON against a schema accepts a value if and only if it belongs to the documented set: fixed-size hex values have exactly the stated number of hex digits, hex quantities and hex byte strings are 0x-prefixed and within their size, block identifiers are known tags, block numbers or block hashes. Objects must contain every required property with an acceptable value, wildcard objects and arrays must have only acceptable elements, and optional properties may be missing but not malformed.",
  ["inputs"], "every JSON value against every schema primitive and composite",
  "Tests try a few valid and invalid constants per type; off-by-one lengths, missing prefixes and a bad element behind a good one are not enumerated.",
  ["src/util/json_validate.c", J], [("type predicates", "src/util/json_validate.c: is_hex, check_hex, check_block, json_validate"), ("object and array checks", "src/util/json_validate.c: check_object, check_array")],
  "Every string of the lengths around each limit (0..68 characters) against each primitive; two-property objects and three-element arrays. Error texts are not modelled.",
  observe=["json_validate result"])

SZ = "src/util/ssz.c"
p("S01", "SSZ validation accepts exactly well-formed data; reads stay inside it",
  "Validating untrusted bytes against an SSZ definition accepts them if and only if they are a well-formed encoding: exact fixed part, offsets that start at the fixed part, never decrease and stay inside the data, list limits, boolean and bit-list delimiters, known union selectors. From accepted data every field, list element, union value, length and bit is read at exactly its place, and no read leaves the data.",
  ["inputs"], "every byte string for every kind of SSZ type and their compositions",
  "Proof data comes from an untrusted prover. Tests decode genuine recordings; crafted offsets, selectors and limits are an input space.",
  [SZ, "src/util/ssz.h"], [("structural validation", SZ + ": ssz_is_valid"), ("field access", SZ + ": ssz_get_field, ssz_get, ssz_at, ssz_len, ssz_union, ssz_bit")],
  "14 type shapes (uint, bool, vectors, lists, bit fields, byte lists, nested containers, unions), every byte string of up to 8..16 (thorough 12..24) bytes; unions inside containers by selector and offsets.",
  observe=["ssz_is_valid result, ssz_get/ssz_at/ssz_union slices"])
p("S02", "Building SSZ data produces the canonical encoding that reads back",
  "Whatever values are put into the SSZ builder, the bytes it produces are the canonical encoding: fixed fields in order and little endian, one offset per dynamic field or element, followed by the dynamic parts in order, unions prefixed by their selector. The result is accepted by the validation and reading it returns exactly the values that were put in.",
  ["inputs"], "every field value and every dynamic length",
  "Tests build a few objects; offset arithmetic with empty or several dynamic parts and wide integers is not sampled.",
  ["src/util/ssz_builder.c", SZ], [("fixed/dynamic split with offsets", "src/util/ssz_builder.c: ssz_add_builders, ssz_add_bytes, ssz_add_uint64, ssz_add_dynamic_list_bytes, ssz_builder_to_bytes")],
  "Containers with fixed and dynamic fields, lists of dynamic elements, unions; arbitrary content, all tested combinations of lengths 0..3.",
  observe=["ssz_builder_to_bytes result"])
M = "src/util/ssz_merkle.c"
p("S03", "SSZ hash tree roots follow the specification for every type and content",
  "The hash tree root of SSZ data equals the one the SSZ specification defines: packing into 32-byte chunks with zero padding, merkleization to the limit of the type with zero subtrees, mixing in list and bit-list lengths (the bit-list delimiter excluded), and field roots in order for containers. Two pieces of data that the specification gives different roots never share one because bytes were skipped or padded wrongly.",
  ["inputs"], "every content of every type kind",
  "Tests compare roots of a few recorded objects; content bytes at chunk boundaries, partially filled chunks and empty lists are not enumerated.",
  [M, SZ], [("recursive merkleization", M + ": ssz_hash_tree_root, hash_tree_root, merkle_hash, set_leaf, calc_leafs")],
  "35 combinations of type and length (0..174 bytes) with arbitrary content against an independent reference; sha256 is an uninterpreted function.",
  observe=["ssz_hash_tree_root output"])
p("S04", "Merkle proofs bind leaves to the root; generated proofs always verify",
  "Combining leaves and witnesses to a root gives the true root of a tree only if every given leaf is the node at its stated position; incomplete, surplus or truncated witness data never yields a root. This holds for single branches, for multi-proofs over distinct non-nested positions in any order, and for combined generalized indexes above 32 bits. Every proof the library creates for existing fields verifies against the hash tree root.",
  ["inputs"], "every leaf, witness and position",
  "Soundness is a statement about all forged witnesses; tests only check genuine ones.",
  [M, SZ], [("witness consumption in gindex order", M + ": ssz_verify_multi_merkle_proof, ssz_verify_single_merkle_proof, ssz_create_multi_proof, ssz_add_gindex")],
  "Trees of 8 leaves with up to 4 positions, single branches up to depth 9, arbitrary leaves and witnesses; sha256 is an uninterpreted collision-free function.",
  observe=["return value and root of the verify functions"])

BH = "src/chains/eth/verifier/beacon_header.c"
p("V01", "Beacon headers count only if signed by 2/3 of their sync committee",
  "A beacon block header is accepted only if the BLS signature over its signing root (header root, fork version of the slot, genesis root of the chain) was verified with the keys of the sync committee of its period or the one before, and at least 2/3 of the 512 members signed. It may be linked to the signed header only by an unbroken chain of parent roots, or by a Merkle branch from the block-root history of the signed state at the position of its own slot. A remembered header is one that was verified before, and a genuinely signed and linked header is accepted.",
  ["inputs", "histories"], "every header, slot, participation, link and sequence of verifications",
  "Tests replay genuine recordings only: no forged link, no insufficient participation, no other fork or committee.",
  [BH, "src/chains/eth/ssz/beacon_types.c"], [("signature gate", BH + ": c4_verify_blockroot_signature, calculate_signing_message, eth_calculate_domain"), ("links to a signed header", BH + ": c4_verify_header, c4_verify_headers_proof, c4_verify_historic_proof"), ("memory of verified roots", BH + ": is_already_validated, add_to_blockhash_cache")],
  "Arbitrary headers on all four chains, slots below 2^44, participation around the threshold, chains of up to 1 (thorough 2) intermediate headers, all gindexes, two verifications in sequence. BLS is an arbitrary predicate, sha256 an uninterpreted collision-free function.",
  observe=["c4_verify_header and c4_verify_blockroot_signature results"])

SC, SS = "src/chains/eth/verifier/sync_committee.c", "src/chains/eth/verifier/sync_committee_state.c"
p("L01", "Sync committees are learned only from fully verified light client updates",
  "A sync committee taken from a light client update is stored only if the attested header's signature was verified, the new committee's root is proven by its branch at the fork's next-committee position in the attested state, and the finalized header is proven at the fork's finality position; it is stored for the period after the attested slot, with exactly the keys of the update and the hash of the keys that signed. Updates are processed in order and the first failing one stops the sync with an error; bootstrap data is only used against the trusted checkpoint of an otherwise empty state.",
  ["inputs", "histories"], "every update, slot, fork, chain and sequence of updates",
  "Tests replay genuine updates; none has a valid signature but a wrong branch, committee, position or order.",
  [SC], [("gating of an update", SC + ": update_light_client_update, c4_update_from_sync_data"), ("fork dependent positions", "src/chains/eth/verifier/sync_committee.c and beacon_types: next sync committee and finality gindex")],
  "Single updates on all four chains and sequences of up to 2 updates with and without bootstrap data; arbitrary slots, roots and verdicts of the sub-checks, which are decided by V01, S03, S04 and L03.",
  observe=["c4_update_from_sync_data result and what is stored"])
p("L02", "Update streams from beacon nodes are read within their bounds",
  "A stream of light client updates as delivered by a beacon node (length-prefixed entries, in the standard or the lighthouse format) is split into exactly its complete entries, in order; truncated entries, lengths that are too large, overflow or are too small never lead to a read outside the stream or an endless loop, and are reported instead of being silently treated as success. The fork of an update is determined from its slot only if the slot lies within the data.",
  ["inputs"], "every byte string a node may deliver",
  "The streams come from the network; tests only use complete recordings.",
  [SC, SS], [("entry splitting", SC + ": c4_handle_client_updates"), ("fork detection", "src/chains/eth/ssz/beacon_types.c: c4_eth_get_fork_for_lcu")],
  "Every stream of 0, 12, 13, 20, 28 and 40 bytes in both formats, every update prefix of 0..20 bytes; validation and processing of a single update are arbitrary functions here (S01, L01).",
  observe=["c4_handle_client_updates result, entries handed on"])
p("L03", "Stored sync committees survive crashes and are returned unchanged",
  "Whatever periods are stored, storing a committee keeps the list and the key entries consistent at every crash point: each listed period has its keys, at most the configured number of periods is kept, storing a period again lists it once, and cleaning up keeps the oldest and the latest period. Reading a period returns exactly its 512 keys and the recorded hash of the previous keys, also after they were converted to their uncompressed form, and entries of any other size are refused. The chain state round-trips, and setting a checkpoint never replaces trusted state.",
  ["inputs", "histories", "crash points"], "every list of periods, limit, new period and crash point",
  "Tests never stop between two storage writes, never reach the limit with unordered periods, and never reread a converted entry.",
  [SS], [("storage and cleanup", SS + ": c4_set_sync_period, cleanup_old_periods, store_sync_period"), ("state", SS + ": c4_get_chain_state, c4_set_chain_state, c4_state_deserialize, c4_eth_set_trusted_checkpoint"), ("reading", SS + ": get_validators_from_cache, c4_get_validators")],
  "18 stored lists of 0..8 periods in various orders with limits 1..9, every new period 1..12 and every crash point; entries of 8 sizes; states with 0, 1, 3, 8 periods or a checkpoint. Storage writes are atomic.",
  observe=["storage plugin content, c4_get_validators result"])
p("L04", "The first sync committee comes only from the trusted checkpoint",
  "Bootstrap data is accepted only if it is well-formed for the fork of its slot, its header hashes to the trusted checkpoint, and the current sync committee is proven by its branch at the fork's current-committee position in that header's state. Exactly the keys of that committee are stored, for the period of the header's slot and with no predecessor; anything else is an error and stores nothing.",
  ["inputs"], "every bootstrap data, checkpoint, slot, fork and chain",
  "Tests bootstrap from a genuine recording; a header, committee or branch of another block, and the fork boundary, are not sampled.",
  [SS, SC], [("bootstrap gate", SS + ": c4_handle_bootstrap"), ("position by fork", SC + ": c4_current_sync_committee_gindex, c4_eth_get_fork_for_lcu")],
  "All four chains in the Deneb and the Electra layout, arbitrary slots, roots and checkpoints. Roots, branch evaluation, validation and storage are decided by S03, S04, S01, L03.",
  observe=["c4_handle_bootstrap result and what is stored"])
p("L05", "ZK sync data needs a valid proof for its inputs and all witness signatures",
  "Keys from zk sync data are stored only if the Groth16 equation was checked for the registered program and exactly the public inputs trusted root, root of these keys, period after the header's slot, header root and domain; if the signed checkpoint is the header itself or descends from it by an unbroken chain of parent roots; and if every configured witness key signed the checkpoint and no signature is invalid. A period that is already known is left untouched, and sync data is applied once.",
  ["inputs"], "every proof, header chain, signature set and witness configuration",
  "Tests verify one genuine proof; missing or repeated witnesses, foreign headers or swapped inputs are not sampled.",
  [SC, "src/chains/eth/zk_verifier/zk_verifier.c"], [("public inputs and storage", SC + ": update_from_zk_sync_data"), ("witness signatures and header chain", SC + ": verify_signatures, c4_eth_eip191_digest_32"), ("Groth16 equation", "src/chains/eth/zk_verifier/zk_verifier.c: c4_verify_zk_proof")],
  "0..2 headers in between, 0..17 signatures, 0..33 witness keys, four chains, proofs of 0..261 bytes; curve arithmetic, signature recovery and hashes are functions of their inputs, not encoded.",
  observe=["c4_update_from_sync_data, c4_verify_zk_proof"])
RL, PT = "src/chains/eth/verifier/rlp.c", "src/chains/eth/verifier/patricia.c"
p("R01", "RLP decoding stays in bounds; encoding is canonical and reads back",
  "Decoding RLP from untrusted bytes returns exactly the kind and the payload slice of the requested item, or the exact number of items; an item whose header or payload is not completely part of the data is reported as out of range, a missing one as not found, and nothing outside the data is ever read. Encoding items, lists and numbers of any size produces the canonical encoding (minimal length prefix, no leading zeros, single small bytes as themselves), which decodes to what was encoded.",
  ["inputs"], "every byte string, index, payload size and number",
  "Proof nodes and transactions are attacker-chosen bytes; tests decode genuine ones and encode small payloads.",
  [RL], [("header parsing", RL + ": rlp_decode, rlp_get_uint64"), ("encoding", RL + ": encode_length, rlp_add_item, rlp_add_list, rlp_add_uint64, rlp_to_list")],
  "Every string of up to 5 bytes at indexes -1..2, every 2/6 (thorough 10) bytes behind each long-form prefix; payload sizes around every prefix boundary up to 2^24; every 64 bit number.",
  observe=["rlp_decode, rlp_add_*"])
p("R02", "A Patricia proof shows exactly what it proves",
  "Verifying a Merkle-Patricia proof answers \"found\" with a value only when the witnesses form an unbroken chain of hashes along the nibbles of the key, starting at the returned root and ending with the last witness in a leaf or branch holding exactly that value; it answers \"not existing\" only when that chain ends in an empty branch slot, an empty branch value or a diverging leaf or extension; every other list of witnesses - truncated, with surplus witnesses, with a wrong hash, short hashes, malformed or cut RLP, misplaced embedded nodes, or no witness at all - is invalid. Nodes embedded in their parent are followed like hashed ones, and nothing outside the witnesses is read.",
  ["inputs"], "every witness list and every key",
  "Account, storage and receipt proofs are attacker-chosen; tests contain a few genuine proofs and hardly any malformed one.",
  [PT, RL], [("walk", PT + ": patricia_verify, handle_node")],
  "Up to 4 witnesses with the shapes leaf, extension, branch, embedded nodes, keys of 2 or 4 nibbles; node contents, hashes and keys arbitrary where the shape allows; every witness of up to 3 bytes; single arbitrary bytes in a leaf and a branch; keccak is an arbitrary function of the witness.",
  observe=["patricia_verify"])
VF, EV, EA = "src/verifier/verify.c", "src/chains/eth/verifier/eth_verify.c", "src/chains/eth/verifier/eth_account.c"
p("V02", "Success is reported only for a proof of the requested method that verified",
  "Verifying a request returns success only if the request is well-formed for the chain type of the caller's chain, the chain is supported, its sync data was applied, the proof in it is of the type the requested RPC method needs, the data it carries is of the type of that method's result (or absent where the verifier creates the result), and exactly that method's verifier accepted it. Without a request only methods computed locally succeed. Every failure is reported as an error, missing data as pending - never as success - and an accepted request as success.",
  ["inputs", "history"], "every method, proof type, data type, chain and outcome of the sub-checks, also when the context was used before",
  "Tests verify matching method and proof pairs; a valid proof of one method presented for another, or a verifier failing without an error text, are not sampled.",
  [VF, EV], [("parsing and result", VF + ": c4_verify_init, c4_verify"), ("choice of the verifier", EV + ": c4_eth_verify, c4_eth_get_method_type")],
  "All 16 provable methods, 7 local ones, 11 others; each with all 10 proof types times 10 data types, four supported and four other chains; the verifiers themselves are decided by V01, V03-V08.",
  observe=["c4_verify_from_bytes result, ctx.success"])
p("V03", "Account results are the proven values of the requested address, key and block",
  "eth_getBalance, eth_getTransactionCount, eth_getCode, eth_getStorageAt and eth_getProof succeed only if the account proof is valid for the hash of the requested address, its root is the state root proven (together with the requested block number or hash, when one is given) by the merkle proof against the body root of the header, that header is verified, and the storage proofs are for exactly the requested keys and lead to the account's storage root. The result is exactly the proven value: the account's field, the storage word, code with the proven hash; a missing account or key gives zero, the empty code or the empty storage, never a neighbour's value. A valid proof is accepted.",
  ["inputs"], "every proof content, root, result of the sub-checks, address, key and block argument",
  "Tests replay genuine recordings for one address and block; diverging proofs, foreign keys, other blocks and missing accounts are not sampled.",
  [EA, "src/chains/eth/verifier/verify_account_proof.c"], [("account and storage", EA + ": eth_verify_account_proof_exec, verify_storage, eth_account_verify_data"), ("block binding", EA + ": eth_verify_state_proof"), ("sequence", "src/chains/eth/verifier/verify_account_proof.c: verify_account_proof")],
  "0..2 storage proofs, accounts with short numbers, storage values of 1..40 bytes, tags, numbers and hashes as block argument; tags such as latest are not bound to a block (freshness is not provable here).",
  observe=["verify_account_proof result, ctx.data"])
ET = "src/chains/eth/verifier/eth_tx.c"
p("V04", "Transaction results are the proven transaction of the requested hash or position",
  "eth_getTransactionByHash and eth_getTransactionByBlock{Hash,Number}AndIndex succeed only if the merkle proof shows block number, block hash, base fee and the raw transaction - at its index inside of the transactions list - under the body root of the header, that header is verified, and the transaction is the requested one: its keccak hash, or its block and index, equal the arguments. Every field of the result (type, nonce, value, gas and fee fields, to, input, access list, blob hashes, authorisations, v, r, s, chain id, sender, effective gas price, position) is the one decoded from the raw transaction and the proven block values; the sender is recovered from the signing hash of exactly the signed fields. Undecodable transactions are reported as errors, and nothing is read outside of them.",
  ["inputs"], "every proof content, every transaction of every type, every request",
  "Tests replay a few genuine transactions; other types, wide chain ids, field lengths, indexes beyond the list and malformed RLP are not sampled.",
  [ET, "src/chains/eth/verifier/verify_tx_proof.c"], [("proof and request", "src/chains/eth/verifier/verify_tx_proof.c: verify_tx_proof"), ("decoding", ET + ": c4_write_tx_data_from_raw, get_and_remove_tx_type"), ("sender", ET + ": c4_tx_create_from_address"), ("position", ET + ": c4_eth_create_tx_path, c4_tx_verify_tx_hash")],
  "Types legacy (with and without EIP-155), 1, 2, 3, 4 and deposits; field lengths fixed per harness, contents arbitrary; up to 2 access list entries, blob hashes and authorisations; truncation at given positions.",
  observe=["verify_tx_proof result, ctx.data"])
p("V05", "Receipt results are the proven receipt of the requested transaction",
  "eth_getTransactionReceipt succeeds only if the raw transaction hashes to the requested hash and is proven, with block number, block hash and receipts root, at its index under the body root of the verified header, the Patricia proof at that index leads to the receipts root, and every provable field of the returned receipt - block, index, hash, type, sender, to, contract address of a creation, cumulative gas, status, bloom, and of each log its address, topics, data, block, index and transaction, no log more or less - equals what transaction and receipt say. A matching receipt is accepted.",
  ["inputs"], "every proof, receipt, transaction and claimed result",
  "The result is supplied by the prover and compared; tests only supply correct ones, so a comparison that is missing or inverted is not noticed.",
  [ET, "src/chains/eth/verifier/verify_receipt_proof.c"], [("comparison", ET + ": c4_tx_verify_receipt_data"), ("proof", "src/chains/eth/verifier/verify_receipt_proof.c: verify_receipt_proof"), ("Patricia proof", ET + ": c4_tx_verify_receipt_proof")],
  "Receipts with 0..3 logs, 0..4 topics, arbitrary contents, one arbitrary deviation anywhere; gasUsed, effectiveGasPrice, logIndex and removed are not derivable from this proof and not covered.",
  observe=["verify_receipt_proof, c4_tx_verify_receipt_data"])
p("V06", "Every returned log is proven and matches the requested filter",
  "eth_getLogs and eth_verifyLogs succeed only if every block's header is verified, the receipts root, number, hash and each listed transaction (at its index inside of the list) are proven under its body root, each receipt proof leads to that receipts root, and every returned log is one of the logs of such a receipt with the same address, topics, data, block and transaction; for eth_getLogs each log also satisfies the block range or hash, addresses and topics of the request. Logs without a proof are refused, malformed receipts end in an error, and matching logs are accepted.",
  ["inputs"], "every set of blocks, transactions, logs, filters and proofs",
  "Tests contain matching logs; a foreign log, a log outside of the filter, or a block whose header is not checked are not sampled.",
  [ET, "src/chains/eth/verifier/verify_logs_proof.c"], [("blocks and filter", "src/chains/eth/verifier/verify_logs_proof.c: verify_logs_proof, verify_block, verify_tx, has_proof"), ("log in receipt", ET + ": c4_tx_verify_log_data, matches")],
  "0..2 blocks, 0..2 transactions each, 0..2 logs, 0..2 filter topics and addresses; receipts with 1..3 logs; whether logs are missing (completeness) and tags are not provable here.",
  observe=["verify_logs_proof, c4_tx_verify_log_data"])
p("V07", "A returned block is the requested block and exactly the proven payload",
  "eth_getBlockByHash and eth_getBlockByNumber succeed only if the hash tree root of the execution payload is proven as the payload of the verified header's body and the payload has the requested hash or number; every field of the result is the payload's (or the header's parent root, or computed from the payload: transactions root, transaction hashes or fully decoded transactions, withdrawals root), whatever data came with the proof. eth_blockNumber returns the number proven in the body of a verified header. Everything else is an error, and valid proofs are accepted.",
  ["inputs"], "every payload, header, proof and request",
  "Tests replay genuine blocks; foreign blocks, supplied data, failing transactions and missing nodes are not sampled.",
  ["src/chains/eth/verifier/verify_block.c"], [("proof and request", "src/chains/eth/verifier/verify_block.c: verify_block_proof, matches_blocknumber"), ("result", "src/chains/eth/verifier/verify_block.c: eth_set_block_data, create_txs_builder"), ("number", "src/chains/eth/verifier/verify_block.c: verify_block_number_proof")],
  "0..3 transactions, 0..2 withdrawals, extra data of 0, 3 or 32 bytes, arbitrary contents; tags (latest, safe, ...) are not bound to a block, the withdrawals root is the SSZ root.",
  observe=["verify_block_proof, ctx.data"])
