#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

V, VR, RD = "bencode/src/value.rs", "bencode/src/value_ref.rs", "bencode/src/reader.rs"
# ---------------------------------------------------------------- bencode
p("B01", "Bencode round trip loses nothing",
  "For every value that can be built through the API (integers over the whole signed 64-bit range, byte strings of any content and length including empty, lists, dictionaries with any UTF-8 keys, arbitrarily mixed and nested), encoding it and decoding the bytes yields an equal value. This holds for the owned and for the borrowed representation, for a value at top level as well as nested, and through the text-parsing entry point when the encoding is valid UTF-8.",
  ["inputs"], "all constructible values x {owned, borrowed}",
  "The tests decode or encode a few fixed literals; only two documents are ever round-tripped, none with an empty string at top level, binary data, extreme integers or large containers.",
  [V, VR, RD], [("encode/decode pair with explicit stacks", V), ("encode/decode pair with explicit stacks", VR), ("length-delimited reads", RD)],
  observe=["Value::encode/to_vec/decode/from_str", "ValueRef::encode/to_vec/decode"])
p("B02", "Encoder emits exactly the canonical bencoding",
  "The encoding of every value is exactly its canonical bencoding: minimal decimal integers, strings prefixed by their byte length, list items in order, dictionary entries in ascending byte order of keys, and no other bytes. Writing to a stream, encoding to a byte vector and textual display (lossy for non-UTF-8) agree, equal values encode to identical bytes, and re-encoding any accepted document gives a canonical document that decodes and re-encodes to itself.",
  ["inputs"], "all constructible values and all accepted documents",
  "Info-hashes and signatures depend on byte-exact canonical form for every value; tests compare the encoding of five small values.",
  [V, VR], [("Token stack emission, BTreeMap key order", V), ("Token stack emission, BTreeMap key order", VR)],
  observe=["encode", "to_vec", "Display"])
p("B03", "Decoder accepts exactly complete well-formed documents, and reads them right",
  "Without limits, decoding a byte sequence succeeds if and only if it is exactly one complete bencoded value with no trailing bytes, where integers are an optional sign and one or more decimal digits that fit 64 signed bits, string lengths are decimal digits, and dictionary keys are valid UTF-8 strings; leading zeros, unsorted keys and duplicate keys are tolerated. The result is then the value those bytes denote, with the first entry kept for a duplicated key. Every other input gives an error and no value.",
  ["inputs"], "all byte sequences",
  "About twenty fixed documents are tested; the language of malformed, truncated and mutated documents that come from the network is unbounded.",
  [V, VR, RD], [("container/value stack machine", V), ("container/value stack machine", VR), ("bounds-checked reads", RD)],
  observe=["decode result"])
p("B04", "Owned and borrowed bencode representations agree",
  "For any bytes and any limits, decoding into the owned and into the borrowed representation gives equal values or the same error. Converting a value from one representation to the other and back preserves it and its encoding, and strings of a borrowed decode are slices of the input buffer itself.",
  ["inputs", "configurations"], "all byte sequences x all limit settings",
  "Tests run the same fixed examples on both types but never compare the two implementations with each other, which are duplicated code.",
  [V, VR, "bencode/src/lib.rs"], [("to_owned / as_ref conversions", "bencode/src/lib.rs"), ("duplicated decoders", V)],
  observe=["Value::decode_with_limits", "ValueRef::decode_with_limits", "to_owned", "as_ref"])
p("B05", "Decode depth and item limits are enforced exactly",
  "With a depth limit D, a document that is otherwise acceptable is decoded if and only if none of its elements lies inside more than D containers, and is otherwise rejected with the depth-limit error; with an item limit N it is decoded if and only if it has at most N elements besides the top-level one (strings used as dictionary keys count), and is otherwise rejected with the item-limit error. The limits take effect at the first element exceeding them, whatever follows it, and limits that are not exceeded never change the result.",
  ["inputs", "configurations"], "all documents x all pairs of optional limits",
  "Tests try one nested-list document and one flat list with three limit values each, never both limits together, dictionaries, or malformed tails.",
  [V, VR], [("limit checks before each token", V), ("limit checks before each token", VR)],
  observe=["decode_with_limits result and error"])
p("B06", "Hostile bencode cannot crash, hang or exhaust memory",
  "Decoding any byte sequence, with or without limits, returns normally, and so do displaying, re-encoding, converting, comparing and dropping what was decoded. The time is finite and the heap used is at most proportional to the input length, in particular however large the string lengths that the input announces.",
  ["inputs", "configurations"], "all byte sequences, including adversarial ones",
  "Tests have five overflowing lengths and a nesting of 1024; crashes, hangs and allocation are not observed for anything else.",
  [V, VR, RD], [("no recursion and checked lengths while decoding", V), ("end-of-buffer checks", RD)],
  observe=["process survival", "CPU time per input", "allocator"])
p("B07", "Typed accessors return exactly the stored content",
  "Every accessor of a bencode value (type tests, conversions to int, bytes, text, list and dictionary, lookups by key and by index, lengths, mutable and consuming forms) returns the content if the value has the requested type and the key or index exists, and nothing otherwise. Text accessors additionally require valid UTF-8, and no accessor panics or changes the value.",
  ["inputs"], "all values x all keys, indices and accessors, on both representations",
  "One test queries four keys of one dictionary.",
  [V, VR, "bencode/src/lib.rs"], [("inner_if!/impl_is_ty! macros", "bencode/src/lib.rs"), ("dict_find_*/list_* helpers", V)],
  observe=["accessor return values"])
p("B08", "Encoding reports every write failure and never corrupts the stream",
  "When the destination accepts only part of each write, or is interrupted, the complete canonical encoding still arrives exactly once and in order. When it fails at any point, encoding returns that error, and what was written is exactly a prefix of the canonical encoding.",
  ["inputs", "fault_sequences"], "all values x all sequences of short writes, interruptions and failures at every byte offset",
  "Tests only encode into an in-memory vector, which never fails or writes short.",
  [V, VR], [("write!/write_all with ? on each token", V), ("write!/write_all with ? on each token", VR)],
  observe=["bytes received by a faulty io::Write", "returned io::Error"])
p("B09", "Decoding errors name the first fault of the document",
  "The error of a rejected document names its first fault in reading order, the same for the owned and the borrowed representation. A byte that can start no value, or an 'e' that closes nothing, gives InvalidChar with that byte; a number (everything up to its terminator, wherever that is) that is malformed or does not fit gives ParseInt; a number without its terminator in the rest of the document gives ExpectedChar with that terminator, or EOF if the document ends directly after its 'i'; a string that runs past the end, an empty document or one with open containers gives EOF; a dictionary closed with an odd number of entries, or with a key that is no UTF-8 string, gives ParseDict when it is closed; an exceeded limit gives DepthLimit, else ItemLimit, before the exceeding element is looked at. Bytes after the value give some error. As an io::Error, EOF is UnexpectedEof, IO is Other and all others are InvalidData.",
  ["inputs", "configurations"], "all rejected byte sequences x limits",
  "Tests compare the errors of a few short documents with one fault each.",
  [V, VR, RD, "bencode/src/error.rs"], [("error returns of the two decoders", V), ("error returns of the two decoders", VR), ("read_until / read_exact / read_int", RD)],
  observe=["the Err of decode and decode_with_limits", "kind of the io::Error made from it"])
p("B10", "Values compare, order and clone by content alone",
  "Two bencode values are equal exactly if they have the same type and content, and their order is total and consistent with that: integers before byte strings before lists before dictionaries, integers by number, byte strings and lists lexicographically, dictionaries by their sorted entries. Owned and borrowed values agree on this, and it does not matter how a value came about (built, decoded, converted, cloned, changed and changed back). A clone is equal to its origin, and changing one never changes the other.",
  ["inputs", "histories"], "all pairs of values x ways to make them",
  "Tests compare a value with an equal one only, and clone none.",
  [V, VR], [("derived PartialEq / PartialOrd / Clone", V), ("derived PartialEq / PartialOrd / Clone", VR)],
  observe=["==, !=, <, <=, >, >=, partial_cmp", "clone"])
# ---------------------------------------------------------------- common
HX, S1, BF = "common/src/hex.rs", "common/src/sha1.rs", "common/src/bloom_filter.rs"
p("H01", "Hex encoding and decoding are exact inverses",
  "Encoding bytes to hex gives two lowercase digits per byte, and decoding that text, in any letter case, into a buffer of sufficient size gives back exactly those bytes and leaves the rest of the buffer alone. Decoding reports failure exactly for text of odd length or with a character that is not a hex digit, and the hex-digit test and digit-value functions agree with that.",
  ["inputs"], "all byte strings and all candidate hex texts",
  "The decoding test only checks that decoding one string reports success, not what it decodes to.",
  [HX], [("hex_to_int / from_hex / to_hex", HX)], observe=["from_hex output buffer and result", "to_hex"])
p("S01", "Hash shifts equal 160-bit shifts and stay inside the hash",
  "Shifting a 160-bit hash left or right by any amount gives exactly the 160-bit big-endian integer shifted with zero fill, which is zero for amounts of 160 or more. No memory outside the hash is read or written.",
  ["inputs"], "all hashes x all shift amounts x {left, right}",
  "Tests shift the all-ones hash by six amounts; memory neighbouring the hash is not observed.",
  [S1], [("byte move by unsafe pointer copy, then bit carry", S1)], observe=["hash value", "surrounding memory (ASan, Miri, canaries)"])
p("S02", "Hash operators and ordering are those of 160-bit integers",
  "On hashes, XOR, AND, OR and complement, in every owned, borrowed and assigning form, are the bitwise operations on all 160 bits, and operands taken by reference are unchanged. Comparison, equality and hashing are those of the big-endian integer, the number of leading zeros, the all-zero test, clearing, the minimum and maximum constants and the byte iterators agree with it.",
  ["inputs"], "all pairs of hashes and all operator forms",
  "Tests use constant-filled hashes and mostly one operator form.",
  [S1], [("impl_binary_op! macro, derived Ord, leading_zeros", S1)], observe=["operator results"])
p("S03", "Digests are SHA-1 and hashes convert to and from bytes and text faithfully",
  "The digest of any byte string is its SHA-1, and the digest of an IP address is the SHA-1 of its 4 or 16 network-order bytes. A hash is created from a byte slice if and only if the slice has exactly 20 bytes, keeps those bytes, and is displayed as their 40 lowercase hex digits.",
  ["inputs"], "all byte strings of all lengths, all addresses",
  "No test computes a digest of more than a few bytes or compares one with a reference.",
  [S1], [("update / from_address / from_bytes / Display", S1)], observe=["digest bytes", "from_bytes", "to_string"])
p("F01", "Bloom filters never forget a member, and survive serialization",
  "After a hash is added to a bloom filter, every later lookup of it succeeds until the filter is cleared, whatever else is added; adding sets only the (at most two) bits that hash selects from its first four bytes as two little-endian 16-bit numbers modulo the filter's bit count, and a lookup succeeds exactly when those bits are set. A filter rebuilt from its bytes answers every lookup identically, a new or cleared filter contains nothing.",
  ["inputs", "histories"], "all histories of add, look up, clear and serialize, for both filter sizes",
  "Tests add two keys to test-only 4- and 32-byte filters; the 128- and 256-byte filters that the DHT uses are not tested.",
  [BF], [("set_bits / has_bits and conversions", BF)], observe=["find results", "as_bytes"])
p("F02", "Bloom filter size estimate follows the fill level",
  "The size estimate of a bloom filter with m bits of which c are zero is ln(min(c, m-1)/m) / (2 ln(1-1/m)): a positive number for any filter with a zero bit left, which never decreases as hashes are added and depends on nothing but the number of zero bits. For distinct random hashes well below saturation it is close to the number of hashes added.",
  ["inputs", "histories"], "all filter contents reachable by any additions",
  "The estimate is not tested at all; only the zero-bit count of one 4-byte array is.",
  [BF], [("size / count_zero_bits", BF)], observe=["size()"])
p("R01", "Random numbers, seeds and key pairs are in range and fresh",
  "A random index drawn below a bound is always less than the bound, and every index below it can occur, about equally often whatever was drawn before. Filling a buffer overwrites every position of it with bytes of the generator, and seeds and key pairs created independently differ from each other.",
  ["inputs", "histories"], "all bounds, buffer lengths and sequences of draws",
  "There are no tests of the random helpers.",
  ["common/src/random.rs", "common/src/ed25519.rs"], [("random_usize / fill_bytes", "common/src/random.rs"), ("create_seed / create_keypair", "common/src/ed25519.rs")],
  observe=["drawn values"])
p("M01", "No safe API call causes undefined behaviour",
  "No sequence of calls through the safe API of the four crates, with any arguments and from one or several threads, reads or writes outside live objects, uses uninitialised or freed memory, breaks aliasing rules, races or otherwise has undefined behaviour.",
  ["inputs", "histories"], "all API call sequences",
  "Tests run without sanitizers; out-of-bounds accesses inside stack frames often go unnoticed.",
  [S1, V, VR, "dht/src/storage.rs", "src/magnet_uri.rs", "src/str_utl.rs"], [("safe Rust plus the unsafe copies in hash shifts", S1)],
  observe=["AddressSanitizer reports", "ThreadSanitizer reports", "Miri reports"], hook="src/lib.rs vp_hooks exports the private modules of the root crate")
# ---------------------------------------------------------------- dht
ST, DT, SE, SG, ND = "dht/src/state.rs", "dht/src/detail.rs", "dht/src/settings.rs", "dht/src/storage.rs", "dht/src/node.rs"
p("D01", "Saved DHT state is restored completely",
  "Saving a DHT state (any list of node ids with IPv4 or IPv6 addresses, and any lists of IPv4 and IPv6 nodes), encoding it, decoding it and reading it back yields the same node ids with their addresses and the same endpoints, in the same order and the same lists. Empty parts come back empty, and a cleared state equals a fresh one.",
  ["inputs"], "all states",
  "The dht crate has no tests.",
  [ST, DT], [("save / read, compact address codec", ST)], observe=["DhtState::save/read/clear"])
p("D02", "Reading DHT state tolerates arbitrary saved data",
  "Reading DHT state from any bencode value succeeds without panicking. Exactly the well-formed entries are restored, in order (node ids of 20 bytes plus a 4- or 16-byte address, or a single bare 20-byte id taken as localhost; endpoints of 6 or 18 bytes), and malformed entries, wrong types and unknown keys are ignored without affecting the others.",
  ["inputs"], "all bencode values",
  "The dht crate has no tests; state files can be truncated, edited or written by other versions.",
  [ST, DT], [("length checks per entry", ST)], observe=["DhtState::read"])
p("D03", "Saved DHT settings are restored completely",
  "Saving DHT settings and reading them back through their encoding reproduces every option, for every combination of values.",
  ["configurations"], "all values of all 21 options",
  "The dht crate has no tests.",
  [SE], [("set_int!/set_bool! and read_int!/read_bool! lists", SE)], observe=["DhtSettings::save/read"])
p("D04", "Reading DHT settings tolerates arbitrary saved data",
  "Reading DHT settings from any bencode value returns settings without panicking: options present as integers take that value (modulo 2^64; for switches, whether it is non-zero), and every option that is missing or of another type keeps its default. Unknown keys and the content of one option never affect another, and a value that is not a dictionary gives the defaults.",
  ["inputs"], "all bencode values",
  "The dht crate has no tests.",
  [SE], [("read_int!/read_bool!", SE)], observe=["DhtSettings::read"])
p("D05", "Compact address encoding is exact and self-delimiting",
  "Writing an IP address or endpoint gives its 4 or 16 network-order bytes followed, for endpoints, by the 2-byte big-endian port, and reading those bytes gives it back, consuming exactly them and leaving the following ones for the next read. If the source ends early or fails, or the destination fails, an error is returned; short and interrupted reads and writes do not change the result.",
  ["inputs", "fault_sequences"], "all addresses and ports x all fragmentations, truncations and failures of the stream",
  "The dht crate has no tests.",
  [DT], [("write_address/write_socket_addr/read_v4.../read_v6...", DT)], observe=["bytes written", "addresses read", "reader position"])
p("D06", "Node distance classes are those of the XOR metric",
  "For two different node ids, the distance exponent n satisfies 2^n <= XOR distance < 2^(n+1); it is symmetric, and 0 for equal ids. The minimum distance exponent to a non-empty set of ids is the smallest of the individual ones, and no ids make either of them panic.",
  ["inputs"], "all pairs of ids and all non-empty id sets",
  "The dht crate has no tests.",
  [ND, S1], [("distance_exp / min_distance_exp over leading zeros", ND)], observe=["distance_exp", "min_distance_exp"])
p("D07", "Lower bound finds the insertion point in a sorted sequence",
  "For every ascending sequence and value, the lower bound is the number of elements less than the value, so that inserting there keeps the sequence sorted and places the value before its equals.",
  ["inputs"], "all ascending sequences, with duplicates, and all values",
  "The dht crate has no tests.",
  [DT], [("lower_bound", DT)], observe=["lower_bound"])
p("D08", "Message verification finds every required key or rejects",
  "Verifying a message against a list of required keys succeeds if and only if the message is a dictionary that has all of them, and then yields for each listed key, in order, the value the message has under that key. It never panics.",
  ["inputs"], "all messages x all key lists",
  "The dht crate has no tests.",
  ["dht/src/msg.rs"], [("verify_message_impl", "dht/src/msg.rs")], observe=["verify_message_impl result"], hook="dht/src/msg.rs vp_verify: key descriptions cannot be constructed from outside")
p("P01", "Peer lookups return current announced peers, each once, and no others",
  "A peer lookup without scrape returns only endpoints (an IP address and a port, whatever IPv6 scope or flow label they came with) that were accepted by an announce for that torrent and of the requester's address family, each at most once, in compact form; a lookup that excludes seeds returns none whose latest announce was as a seed, and a re-announce updates the entry instead of adding one. It returns min(eligible peers, reply limit) of them, where the reply limit is quartered for IPv6, together with the torrent's name if known, and a torrent nobody announced gives no peers. Entries and peers that the caller's reply already has stay as they were.",
  ["histories", "configurations"], "all histories of announces and lookups over several torrents, families and settings",
  "The dht crate has no tests.",
  [SG, DT], [("sorted peer vectors with binary search; selection loop", SG)], state=[("peers4/peers6", "stored peers per torrent, sorted by address", SG)], observe=["get_peers reply", "announce_peer"])
p("P02", "Torrent and peer capacities hold and never harm existing entries",
  "The store never holds more torrents than its torrent limit nor more peers per torrent and address family than its peer limit, for any limits including zero; announces beyond them never add, displace or alter a peer (an announce within the torrent limit makes its torrent known even if its peer is dropped), while known peers of known torrents can still be re-announced. A lookup reports \"full\" exactly when the torrent is unknown and the torrent limit is reached, or the torrent is known, its peer limit for the requester's family is reached and the requester's endpoint (address and port) is not among its stored peers.",
  ["histories", "configurations"], "all announce/lookup histories x all limit settings",
  "The dht crate has no tests.",
  [SG], [("capacity checks in announce_peer, full flag of get_peers", SG)], state=[("map", "torrent table", SG)], observe=["get_peers result flag and reply", "announce_peer"])
p("P03", "Every eligible peer can be returned, with equal chance",
  "When more peers are eligible than a reply may carry, each eligible peer has the same chance of being in the reply, so over repeated lookups every stored eligible peer is eventually returned, about equally often.",
  ["histories", "configurations"], "all peer sets, reply limits and seed filters",
  "The dht crate has no tests, and a single lookup cannot show bias.",
  [SG], [("selection sampling loop of get_peers", SG)], observe=["get_peers replies over many lookups"])
p("P04", "Scrape replies summarise exactly the stored peers",
  "A scrape lookup of a known torrent returns two bloom filters, one containing exactly the bits of the IP addresses of its stored non-seeds and one those of its seeds, for the requester's address family, and no peer list is added. The name returned by any lookup is the first non-empty name announced for the torrent since it is known (also by an announce whose peer is dropped), cut to its first 100 characters, and never changes afterwards.",
  ["histories"], "all announce and scrape histories",
  "The dht crate has no tests.",
  [SG, BF], [("scrape branch of get_peers; name handling of announce_peer", SG)], observe=["get_peers reply BFpe, BFsd, n"])
p("I01", "Immutable items are stored once and returned unchanged",
  "An immutable item, once put under a target, is returned by every get of that target as exactly the value first put, until it is evicted; putting again never changes it. A target never put or evicted gives nothing and leaves the reply untouched, and items under other targets are never affected.",
  ["histories", "configurations"], "all put/get histories over both item kinds",
  "The dht crate has no tests.",
  [SG], [("put_immutable_item / get_immutable_item", SG)], state=[("immutable_table", "items by target", SG)], observe=["get_immutable_item"])
p("I02", "Item tables keep to their limit by evicting the least important item",
  "Neither item table ever holds more items than the configured limit, for any limit including zero; nothing is evicted while the table is below its limit or when the put target is already stored. Otherwise exactly one item is evicted per new item, and it is one that minimises (number of distinct announcing addresses / 5, rounded down) minus (smallest distance exponent from our node ids to its target), where an address counts as already seen if a 1024-bit two-hash bloom filter of the item's addresses contains it.",
  ["histories", "configurations"], "all put histories, announcer sets, node-id sets and limits",
  "The dht crate has no tests.",
  [SG, ND], [("pick_least_imp and the capacity check of both puts", SG), ("touch_item", SG)], observe=["which targets are still found after each put"])
p("I03", "Mutable items move forward only and stay internally consistent",
  "The sequence number stored for a mutable target never decreases while the item is stored; a put with a higher number replaces value, signature and number together, and a put with an equal or lower number changes none of them. A get always returns the number, and adds value, signature and key of that same put exactly when forced or when the caller's number is non-negative and lower than the stored one. (A target stands for one public key and salt, as it is their digest.)",
  ["histories"], "all put/get histories with arbitrary sequence numbers",
  "The dht crate has no tests.",
  [SG], [("put_mutable_item / get_mutable_item / get_mutable_item_seq", SG)], state=[("mutable_table", "items by target", SG)], observe=["get_mutable_item", "get_mutable_item_seq"])
p("I04", "Store counters equal the store's contents",
  "After any history, the counters of the store equal the number of torrents, peers (both families), immutable items and mutable items it actually holds.",
  ["histories", "configurations"], "all operation histories and limits",
  "The dht crate has no tests and the counters are not readable yet.",
  [SG], [("counter updates next to each insert and remove", SG)], state=[("counters", "numbers of torrents, peers, immutable and mutable items", SG)], observe=["counters, against contents found by querying every key"], hook="dht/src/storage.rs vp_counters: the counters have no public reader yet")
p("V01", "No store operation can panic",
  "Announces, lookups, puts and gets return normally for any arguments and in any history and with any settings, provided that at least one node id was set before the first put, stored items are valid bencode, and item replies are dictionaries. In particular a peer lookup without scrape of a stored torrent fills in a reply that lacks a peer list, and returns an error for a reply that is not a dictionary or whose peer list is not a list.",
  ["inputs", "histories", "configurations"], "all operation histories, arguments and settings",
  "The dht crate has no tests.",
  [SG, ND], [("checked lookups and arithmetic", SG)], observe=["panics and results of every operation"])
# ---------------------------------------------------------------- root crate
MG, SU, TR = "src/magnet_uri.rs", "src/str_utl.rs", "src/torrent.rs"
HK = "src/lib.rs vp_hooks exports the private modules of the root crate"
p("U01", "Any magnet URI is parsed or rejected, without crash or hang",
  "Parsing any text as a magnet link returns parameters or an error in finite time without panicking, with memory bounded by a constant plus a multiple of the text's length. Text that is not a URL, has another scheme, or has no valid BitTorrent info-hash is rejected.",
  ["inputs"], "all texts",
  "The unit tests of the root crate do not even compile (missing fixture), and none parses a magnet link.",
  [MG, SU], [("parse_magnet_uri", MG)], observe=["result, CPU time, allocation"], hook=HK)
p("U02", "Magnet info-hashes are decoded exactly",
  "The exact-topic value of a magnet link yields an info-hash if and only if it is \"urn:btih:\" followed by 40 hex digits or by 32 base32 characters (letters of any case, digits 2 to 7, and '1' read as 'I'; no padding), and then the 20 bytes they denote; any other btih value makes the parse fail, other topics are ignored, and the last of several wins. The magnet text produced from parameters parses back to the same info-hash.",
  ["inputs"], "all info-hashes, encodings, letter cases and malformed topics",
  "No test parses a magnet link.",
  [MG, HX, SU], [("xt branch, from_hex, base32_decode; Display", MG)], observe=["info_hash of parsed parameters"], hook=HK)
p("U03", "Magnet parameters are all kept, decoded and in order",
  "Parsing a magnet link keeps every tracker, web seed, peer endpoint and DHT node of it, percent-decoded, in order and without loss or duplication, numbers the trackers' tiers consecutively from zero, and takes the last display name. What the parameters being filled had before stays in front of it (the tiers being brought to one per earlier tracker, missing ones as 0), the name unless the link has one. Unknown parameters are ignored, and a peer that is not an IP endpoint or a DHT node whose text after the last colon is not a port makes the parse fail (a DHT node without any colon is ignored).",
  ["inputs"], "all sequences of parameters and contents",
  "No test parses a magnet link.",
  [MG], [("query_pairs loop", MG)], observe=["trackers, tracker_tiers, url_seeds, peers, dht_nodes, name"], hook=HK)
p("U04", "Magnet file selection selects exactly the listed files",
  "A file selection made of comma-separated indices and ranges marks exactly the files it lists for download and leaves all other file priorities at \"don't download\", the list reaching to the highest selected index; several selections accumulate, and the priorities of other files that were there before stay. Empty, open-ended, inverted and out-of-range (above 10000, but fitting a machine word) tokens are skipped without affecting the rest, any other malformed token selects nothing or makes the parse fail, and a selection with any character other than digits, '-' and ',' is ignored as a whole.",
  ["inputs"], "all selections",
  "No test parses a magnet link.",
  [MG, SU], [("so branch", MG), ("split_string", SU)], observe=["file_priorities"], hook=HK)
p("U05", "A rejected magnet link is told its first fault",
  "When parsing a magnet link fails, the error names its cause, and of several the first in the order of the link: InvalidUrl for text that is no URL, UnsupportedUrlProtocol for another scheme, then InvalidInfoHash for a malformed BitTorrent topic, ParseEndpoint for a peer that is no IP endpoint, ParseInt for a DHT node's port that is no port number or a number of a file selection that fits no machine word, and MissingInfoHash only if there is no other fault and no BitTorrent topic. Both ways to parse a link agree.",
  ["inputs"], "all rejected links, with one or several faults in any order",
  "No test parses a magnet link.",
  [MG, SU, "src/error.rs"], [("error returns of parse_magnet_uri", MG)], observe=["the error of parse_magnet_uri and of TorrentParams::from_str"], hook=HK)
p("T01", "Torrent files are parsed faithfully or rejected",
  "Parsing a torrent file succeeds if and only if it is well-formed bencode with a valid announce URL, a text name, a positive piece length, piece hashes of a multiple of 20 bytes, and either a single file length or a list of files with lengths and text paths but not both, no length being negative and no name or path being empty, absolute or having a '..' component (safe paths that are no plain names, such as 'a/b' or with an empty segment, may be accepted or not). The result then has exactly those values, in file order; anything else gives nothing and never panics.",
  ["inputs"], "all byte sequences",
  "The only parser test needs a fixture that is not in the repository and does not compile.",
  [TR], [("Torrent::parse", TR)], observe=["parsed torrent"], hook="src/torrent.rs vp_hooks exposes the private parser and its result")
p("T02", "No torrent file can name a path outside its download directory",
  "Whatever a torrent file contains, every file path of a parsed torrent, and its suggested name, is a non-empty relative path without root, drive or parent-directory components, so that joining it to a download directory stays inside. Paths made of ordinary names are kept unchanged.",
  ["inputs"], "all torrent files, including hostile names and path segments",
  "No test parses a torrent file with hostile paths.",
  [TR], [("path assembly in Torrent::parse", TR)], observe=["paths of the parsed torrent"], hook="src/torrent.rs vp_hooks exposes the private parser and its result")
p("L01", "Splitting and trimming strings lose and invent nothing",
  "Splitting a string at a separator gives a token and a rest such that token, at most one separator, and rest are the input; the token ends at the first separator that is not inside a leading quoted section, or at the end (a leading quote without a closing one protects everything up to the last byte). Trimming removes exactly the leading and trailing spaces, tabs and line breaks.",
  ["inputs"], "all byte strings and separators",
  "The eight examples in the unit tests do not compile here for want of a fixture, and cover no general law.",
  [SU], [("split_string / trim", SU)], observe=["returned slices"], hook=HK)
p("L02", "Percent and base32 decoding invert their encodings and reject garbage",
  "Percent-decoding any encoding of a byte string (any choice of escaped characters, any hex case, '+' for space) gives back that string, and fails exactly when a '%' is not followed by two hex digits or, for text, the result is not UTF-8. Base32-decoding any encoding of a byte string, padded or not and in any letter case, gives back that string, a character outside the alphabet gives the empty result, and neither panics on any input.",
  ["inputs"], "all byte strings and encodings",
  "The examples in the unit tests do not compile here for want of a fixture.",
  [SU], [("unescape_bytes / unescape_string / base32_decode", SU)], observe=["decoded bytes"], hook=HK)
p("X01", "Results depend on arguments and own history only",
  "Every call of the four crates that draws no random numbers gives a result that depends on its arguments and, for an object, on the calls made on that object: repeating it, reordering it with others, what else was parsed, encoded or stored before, other stores or filters (also over the same keys, or with other settings, or in the place of a dropped one), and the thread it runs in make no difference.",
  ["histories", "schedules"], "all call sequences over several objects and threads",
  "Every test looks at one call or one object, in a fixed order and once.",
  [V, VR, S1, BF, MG, TR, SU, SG], [("no statics or thread locals but the random generators", "common/src/random.rs"), ("per-store maps", SG)],
  observe=["results of repeated, reordered and concurrent calls", "several stores and filters used in turns, each against its own model"], hook=HK)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
