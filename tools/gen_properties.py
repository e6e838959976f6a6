#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Packet framing round-trips for every body length and header format",
  "A packet with any tag and any body, written in the old or the new header format, is exactly the header an independent RFC 4880 reader expects followed by the body, and reading it back - alone or anywhere in a sequence, from a buffer or from a stream - gives the same tag, format and body and consumes exactly its own bytes. Bodies sent in partial-length chunks are reassembled, and the buffer reader and the stream reader agree on every well-formed sequence.",
  ["inputs"], "all tags 1..63 (1..15 in the old format), bodies of every length including the length-encoding boundaries 0,191/192,255/256,8383/8384,65535/65536,2^24, all chunkings, all sequences",
  "The unit tests parse a handful of fixed packets; length encodings change at boundaries no fixed sample visits.",
  ["pgp/packets/packets.py", "pgp/packets/parsers.py", "pgp/utils.py"],
  [("header and length writer", "pgp/packets/packets.py Packet.__bytes__; pgp/utils.py *_packet_length_to_bytes"),
   ("buffer reader", "pgp/packets/packets.py packet_from_packet_data"),
   ("stream reader", "pgp/packets/packets.py packet_from_packet_stream")],
  ["bytes(packet)", "parse_binary_packet_data", "parse_binary_packet_stream"])

p("C02", "Packet bodies of every non-key kind parse and re-serialise faithfully",
  "For session-key, one-pass-signature, compressed, encrypted, marker, literal, trust, user-ID, user-attribute, comment, control and modification-detection packets, parsing a well-formed body yields the field values laid out in RFC 4880, and serialising the parsed packet gives back the same bytes. Building a packet from field values and serialising it gives exactly the RFC 4880 layout of those values. Packets of different bodies do not compare equal and packets of the same body do.",
  ["inputs"], "all well-formed bodies / field values of each packet kind (any key ID, algorithm octets, file names, dates, contents)",
  "The tests only look at a few packets inside two fixed messages.",
  ["pgp/packets/packets.py", "pgp/packets/user_attribute_subpackets.py", "pgp/s2k.py"],
  [("packet classes", "pgp/packets/packets.py from_packet_content / content of each class"),
   ("user attribute subpackets", "pgp/packets/user_attribute_subpackets.py")],
  ["bytes(packet)", "packet attributes"])

p("C03", "ASCII armor round-trips and detects corruption",
  "Armoring any binary data with any data type, part numbers and header values, then reading the text back, returns the same data, type, part numbers and headers, including when the armor has CRLF line ends, leading blank lines, unknown headers or other line widths. The text is standard armor (line width, CRC-24, matching tail line) as an independent decoder reads it, and armor whose data or checksum was altered so that they disagree, or whose head and tail lines disagree, is refused.",
  ["inputs"], "all byte strings, header sets, line layouts, single-character corruptions",
  "Only fixed armored samples are read by the tests; no generated armor is ever written or corrupted.",
  ["pgp/armor.py", "pgp/crc24.py", "pgp/packets/parsers.py"],
  [("armor reader/writer", "pgp/armor.py ASCIIArmor"), ("CRC-24", "pgp/crc24.py")],
  ["ASCIIArmor.from_ascii", "str(ASCIIArmor)", "is_armor"])

p("C04", "Signature packets and subpackets keep every byte and every field meaning",
  "Parsing any well-formed version 3 or version 4 signature packet, with any mix of known, unknown, critical and private subpackets in the hashed and unhashed areas, and serialising it again gives identical bytes. Each parsed field has the value RFC 4880 assigns to those octets, and a subpacket built from field values serialises to the RFC 4880 layout and parses back to equal fields. A packet or subpacket whose fields were changed is written with its new values. Subpackets of different octets, and packets that differ in a value, do not compare equal.",
  ["inputs"], "all subpacket types, lengths (1-, 2- and 5-octet), critical bits, field values, orders and multiplicities",
  "The hashed area must survive byte for byte or good signatures stop verifying; the tests see only the subpackets in a few fixed signatures.",
  ["pgp/packets/packets.py", "pgp/packets/signature_subpackets.py"],
  [("signature packet", "pgp/packets/packets.py SignaturePacket"),
   ("subpackets", "pgp/packets/signature_subpackets.py signature_subpacket_from_data and classes")],
  ["bytes(packet)", "subpacket attributes"])

p("C05", "Key packets round-trip and have the standard fingerprint and key ID",
  "Parsing any well-formed public or secret (sub)key packet, of version 3 or 4 and of RSA, DSA or ElGamal type, and serialising it again gives identical bytes, directly and through the high-level key objects. The fingerprint and key ID reported for it are those defined by RFC 4880 for its public part, the same for the public and the secret form and in every time zone. The keygrip reported for it, by which agents know a key, is the one GnuPG computes.",
  ["inputs"], "all key parameters, including values next to powers of two and with long runs of zero bits, creation times, secret key protection forms",
  "Two fixed keys cannot reveal an encoding error that only some numbers or dates trigger.",
  ["pgp/packets/packets.py", "pgp/utils.py", "pgp/transferrable_keys.py", "pgp/s2k.py"],
  [("key packets", "pgp/packets/packets.py PublicKeyPacket, SecretKeyPacket"),
   ("fingerprint", "pgp/utils.py key_packet_fingerprint"),
   ("key objects", "pgp/transferrable_keys.py BasePublicKey")],
  ["bytes(packet)", "fingerprint", "key_id"])

p("C06", "Number encodings are exact and mutually inverse",
  "Encoding any non-negative integer as a multi-precision integer or as bytes gives the minimal big-endian form with the exact bit count, and decoding it, at any offset of a larger buffer, returns the integer and the position just after it. The fixed-width, hexadecimal, length-field and iteration-count conversions are likewise exact inverses over their whole range, and the armor checksum equals the reference CRC-24.",
  ["inputs"], "all integers up to several thousand bits, all widths, offsets, length values and iteration-count octets",
  "Bit counts computed in floating point fail only next to powers of two; samples do not reach them.",
  ["pgp/utils.py", "pgp/crc24.py"],
  [("integers", "pgp/utils.py int_to_mpi, mpi_to_int, int_to_bytes, bytes_to_int"),
   ("S2K count", "pgp/utils.py s2k_count_to_int, int_to_s2k_count"),
   ("hex", "pgp/utils.py int_to_hex, hex_to_bytes, bytearray_to_hex")],
  ["pgp.utils functions"])

p("C07", "Passphrase-to-key derivation follows RFC 4880 for every parameter",
  "For the simple, salted and iterated-salted methods, every supported hash and cipher, every passphrase, salt and iteration count, the derived key equals the one an independent implementation of RFC 4880 section 3.7 derives and has the cipher's key length. The parameters survive serialisation and parsing unchanged.",
  ["inputs"], "all modes x hashes x ciphers x passphrases (including empty, and longer than the count) x salts x coded counts",
  "The tests use one derivation setting inside fixed keys; counts, key lengths above the hash length and short counts are never tried.",
  ["pgp/s2k.py", "pgp/utils.py"],
  [("derivation", "pgp/s2k.py to_key"), ("specifier encoding", "pgp/s2k.py __bytes__, parse_s2k_bytes")],
  ["to_key", "bytes(s2k)", "parse_s2k_bytes"])

p("C08", "Ciphers agree with independent references in every mode and chunking",
  "For every supported symmetric algorithm, with a key of that algorithm's length, each block transformation equals the independent reference cipher, and encryption in CFB, CBC, OFB, CTR or ECB mode equals the textbook mode over that cipher. Decrypting what was encrypted returns the data, however the data is split into calls. Key, IV, segment, counter or data sizes and settings that do not fit the mode are errors.",
  ["inputs", "histories"], "all keys, IVs, messages, segment sizes and splits of a message into successive calls",
  "The known-answer tests cover single blocks of three ciphers, not modes or call histories.",
  ["pgp/cipher/base.py", "pgp/cipher/aidea.py", "pgp/cipher/camellia.py", "pgp/cipher/twofish.py", "pgp/cipher/wrapper.py", "pgp/utils.py"],
  [("modes", "pgp/cipher/base.py"), ("IDEA", "pgp/cipher/aidea.py"), ("selection", "pgp/utils.py get_symmetric_cipher")],
  ["encrypt/decrypt of objects from get_symmetric_cipher"])

p("C09", "Secret keys unlock only with their passphrase and lock again",
  "A secret key protected with any supported cipher, hash and derivation method is unlocked by its passphrase to exactly the original secret numbers, whatever the kind of integrity check, and a wrong passphrase or a damaged protected part raises an error and leaves the key locked. A locked key refuses to sign or decrypt, and any sequence of lock, unlock and failed unlock steps leaves the key as usable as its last successful step says, with its serialised form unchanged. A key unlocked for a block of code is locked after it, however the block ends, and the block's exception is passed on.",
  ["inputs", "histories"], "all protection settings, passphrases, near-miss passphrases, damaged portions, lock/unlock histories",
  "The tests unlock one fixed key with its right passphrase.",
  ["pgp/packets/packets.py", "pgp/transferrable_keys.py", "pgp/s2k.py"],
  [("protection", "pgp/packets/packets.py SecretKeyPacket.encrypt_key_values, decrypt_encrypted_key_portion"),
   ("lock state", "pgp/transferrable_keys.py BaseSecretKey.unlock, lock, is_locked")],
  ["unlock", "lock", "is_locked", "secret attributes", "to_packet"])

p("C10", "Every signature made verifies, here and in an independent implementation",
  "Signing any message or key element with any unlocked signing key, hash algorithm and signature version or type yields a signature that the corresponding public key verifies, directly and after serialising, armoring and parsing the whole signed message back. A message signed without naming a hash algorithm uses the first that the signing key's preferences name. An independent OpenPGP implementation accepts the signature, and signatures that it makes are accepted here.",
  ["inputs"], "all message contents, key sizes and values, hashes, types, nesting of compression and signatures",
  "About one RSA signature in 256 has a leading zero octet and subpacket content varies per signature; fixed samples miss such cases.",
  ["pgp/transferrable_keys.py", "pgp/signature.py", "pgp/message.py", "pgp/utils.py"],
  [("sign/verify", "pgp/transferrable_keys.py BaseSecretKey.sign, BasePublicKey.verify"),
   ("hash input", "to_signable_data in pgp/signature.py, pgp/message.py, pgp/transferrable_keys.py"),
   ("primitive", "pgp/utils.py sign_hash, verify_hash")],
  ["verify", "gpg --verify"])

p("C11", "No signature verifies after anything it covers is altered",
  "If the signed content, the signature type, algorithms, hashed attributes, signature numbers or the signing key is changed, or a signature is presented for a different message, user ID, key or subkey than it was made for, verification raises an error or reports failure; it never succeeds. Neither does a signature that names another key or whose check octets are wrong. Changes to parts a signature does not cover leave it verifying.",
  ["inputs"], "all single and combined mutations of signed content, hashed data, signature values, target element and key",
  "Soundness is a statement about all forgeries; the tests only check that a good signature verifies.",
  ["pgp/transferrable_keys.py", "pgp/signature.py", "pgp/message.py", "pgp/utils.py"],
  [("verify", "pgp/transferrable_keys.py BasePublicKey.verify; pgp/utils.py verify_hash"),
   ("hash input", "to_signable_data methods")],
  ["verify"])

p("C12", "Public-key encryption round-trips for exactly the chosen recipients",
  "A message encrypted to any set of named or hidden recipients with any symmetric algorithm, with or without integrity protection, decrypts with each recipient's unlocked secret key to an equal message, after serialising and parsing too, and an independent OpenPGP implementation can decrypt it. A key that is not a recipient does not obtain a message.",
  ["inputs"], "all messages, recipient sets, RSA and ElGamal keys, symmetric algorithms, session keys, nested compression and signatures",
  "About one RSA ciphertext in 256 starts with a zero octet; the tests encrypt one message to two keys.",
  ["pgp/message.py", "pgp/packets/packets.py", "pgp/utils.py"],
  [("session key", "pgp/packets/packets.py PublicKeyEncryptedSessionKeyPacket; pgp/message.py PublicKeySessionKey"),
   ("data", "pgp/message.py SymmetricallyEncryptedMessageData, EncryptedMessageWrapper")],
  ["public_key_encrypt", "get_message", "gpg --decrypt"])

p("C13", "Passphrase encryption round-trips for every parameter choice",
  "A message encrypted under a passphrase with any symmetric algorithm and any derivation method, hash, salt, count and session key decrypts with that passphrase to an equal message, after serialising and parsing too, and an independent OpenPGP implementation can exchange such messages in both directions. A different passphrase does not yield a message.",
  ["inputs"], "all messages, passphrases, ciphers, derivation settings, with and without a separate session key, with and without integrity protection",
  "The tests do not encrypt under a passphrase at all.",
  ["pgp/message.py", "pgp/packets/packets.py", "pgp/s2k.py"],
  [("session key", "pgp/message.py SymmetricSessionKey; pgp/packets/packets.py SymmetricKeyEncryptedSessionKeyPacket"),
   ("data", "pgp/message.py SymmetricallyEncryptedMessageData")],
  ["symmetric_encrypt", "get_message", "gpg --decrypt"])

p("C14", "Integrity-protected data that was modified is never released",
  "If any part of an integrity-protected encrypted message body is altered, truncated, extended or reordered, decrypting it with the right key raises an error; it never returns a message. Integrity-protected data whose plaintext lacks a correct modification detection code is refused as well.",
  ["inputs"], "all bit flips, truncations, extensions, block swaps and code removals of the encrypted data",
  "The property speaks about every modified ciphertext; the tests only decrypt intact ones.",
  ["pgp/message.py"],
  [("integrity check", "pgp/message.py SymmetricallyEncryptedMessageData.decrypt")],
  ["get_message"])

p("C15", "Compressed data decompresses to exactly what was compressed",
  "Compressing any message or packet sequence with any supported algorithm and level and decompressing it returns the same messages and bytes, however the data is fed in, and the compressed form is the standard stream for that algorithm that an independent decompressor reads. Compressed packets made by an independent compressor are read back correctly.",
  ["inputs", "histories"], "all data, algorithms (none, ZIP, ZLIB, BZip2), levels, call splits",
  "The tests compress one short message with one algorithm.",
  ["pgp/utils.py", "pgp/packets/packets.py", "pgp/message.py"],
  [("compressors", "pgp/utils.py get_compression_instance and classes"),
   ("compressed packet", "pgp/packets/packets.py CompressedDataPacket; pgp/message.py CompressedMessageWrapper")],
  ["compress", "get_message", "decompress_data"])

p("C16", "Text signatures ignore line-ending style and nothing else",
  "The data covered by a canonical-text signature is the text's UTF-8 form with every line ending (LF, CR or CRLF) turned into CRLF and no other octet changed, so two texts give the same signed data exactly when they differ only in line-ending style. A text signature therefore keeps verifying when line endings are converted and fails on any other change.",
  ["inputs"], "all texts, mixtures of LF, CR and CRLF, leading, trailing and consecutive line ends, non-ASCII text",
  "Losing a character next to a line end makes different texts collide; only generated texts expose it.",
  ["pgp/message.py"],
  [("canonicalisation", "pgp/message.py TextMessage.to_signable_data")],
  ["to_signable_data", "verify"])

p("C17", "Signature attributes read back what was set",
  "On a version 4 signature, setting any attribute (times, preferences, flags, trust, notations, revocation data, issuers and the like) and reading it back gives the value set, leaves all other attributes unchanged, and survives serialising and parsing. List-valued attributes hold exactly the items last set, with earlier items that are not in the new list removed. Items and signatures are equal, and count as one in sets, exactly when they say the same, and reading notations of which one is marked critical is an error.",
  ["histories"], "all sequences of attribute assignments and reads, with serialise/parse steps in between",
  "Interference between attributes needs sequences; no test sets an attribute.",
  ["pgp/signature.py", "pgp/packets/signature_subpackets.py"],
  [("attribute accessors", "pgp/signature.py BaseSignature properties")],
  ["signature properties", "to_packet/from_packet"])

p("C18", "Transferable keys parse into the right structure and serialise unchanged",
  "Reading any well-formed transferable public or secret key attaches every signature, user ID, user attribute and subkey to the element it follows, in order, and writing the key out again gives identical packets. Deriving the public key from a secret key keeps the public material, identities, subkeys and signatures and contains no secret material.",
  ["inputs"], "all well-formed packet sequences: counts and orders of direct signatures, revocations, user IDs, attributes, subkeys and their signatures, both header formats",
  "The two test keys have one shape each.",
  ["pgp/transferrable_keys.py", "pgp/shortcuts.py"],
  [("reader", "pgp/transferrable_keys.py TransferablePublicKey.from_packets"),
   ("writer", "to_packets"), ("conversion", "to_public_key")],
  ["read_key", "to_packets", "signatures/user_ids/user_attributes/subkeys"])

p("C19", "Only packet sequences allowed by the standard are accepted as keys",
  "A packet sequence is accepted as a transferable key exactly when it matches the RFC 4880 section 11.1 and 11.2 grammar: one primary key first, its revocations and direct signatures, then any number of user IDs and user attributes in any order, each followed by its certifications and certification revocations, then, for version 4 keys only, subkeys each followed by binding signatures and then optional revocations. Any other order, kind of signature or foreign packet raises an error rather than giving a key; a trust packet behind another packet of the key is local data and is ignored.",
  ["inputs"], "all short packet sequences over the packet and signature types, valid and invalid",
  "The space of orders is combinatorial and the tests only use valid keys.",
  ["pgp/transferrable_keys.py"],
  [("validator", "pgp/transferrable_keys.py validate_transferrable_key")],
  ["TransferablePublicKey.from_packets", "TransferableSecretKey.from_packets"])

p("C20", "Key properties come from the newest applicable self-signature",
  "Each property a key, user ID, user attribute or subkey reports (preferences, usage flags, expiry, primary mark, features and the like) is that of its most recently created self-signature of the kind that applies to it, whatever the order of the signatures and whatever other parties' signatures are attached. Signatures by other keys never influence these properties, and an element counts as revoked exactly when its owner's revocation for that kind of element is attached. A single certification counts as revoked exactly when its issuer's revocation that names it, or can mean no other, is attached and it was not made irrevocable, and as expired exactly after its expiration time.",
  ["inputs", "histories"], "all sets and orders of self- and third-party signatures with arbitrary times and attribute values",
  "Selecting the newest among many signatures needs many signatures; the test keys have one each.",
  ["pgp/transferrable_keys.py", "pgp/signature.py"],
  [("selection", "pgp/transferrable_keys.py SignedMixin.get_most_recent_selfsig, self_signatures, revoked"),
   ("attributes", "SignedMixin attributes")],
  ["key/user_id/subkey properties"])

p("C21", "Regular expressions are judged by the standard's grammar",
  "The validator for trust-signature regular expressions accepts a string exactly when it is derivable from the regular-expression grammar in RFC 4880 section 8, and always terminates with a yes or no answer.",
  ["inputs"], "all strings, built from the grammar or mutated from it",
  "A hand-written recogniser has many states that a few examples do not reach; there are no tests for it.",
  ["pgp/regex.py"], [("validator", "pgp/regex.py")], ["validator result"])

p("C22", "The key database behaves as a durable map of keys",
  "After any sequence of adding, updating, deleting and searching keys, closing and reopening, a key database file holds exactly the keys a simple map would hold, each byte-identical to what was stored, and operations on one key never lose, duplicate or change another. Public and secret keys stay in their own files, operations that must fail (adding a key that exists, changing one that does not, writing to a read-only database) raise an error and change nothing, and lookup by fingerprint, key ID and user ID returns exactly the matching keys. Processes, and threads of one process, changing one file at the same time take turns without losing a change, and a lock left behind by a process that died neither blocks those that come next nor lets two of them in at once; waiting for the lock of a living process ends when the time allowed is over.",
  ["histories", "schedules"], "all operation sequences over several keys with interleaved reopen, failing operations, several processes and several threads",
  "Data loss appears only with several keys and later operations; the database has no tests.",
  ["pgp/db/gpg.py", "pgp/db/__init__.py"],
  [("keyring file", "pgp/db/gpg.py"), ("lock", "pgp/db/gpg.py Lock")],
  ["add_key", "update_key", "delete_key", "search", "the keyring file"])

p("C23", "User IDs split into name, comment and address and recompose",
  "A conventional user ID built from any name, comment and e-mail address is split into exactly those parts, absent parts are reported absent, and no string makes the splitter fail. Replacing one part of a user ID changes that part and keeps the others.",
  ["inputs"], "all name/comment/address triples, missing parts, arbitrary strings",
  "Quoting, nesting and absence interact; there are no tests for user IDs.",
  ["pgp/user_id.py", "pgp/transferrable_keys.py"],
  [("parser", "pgp/user_id.py parse_user_id"), ("setters", "pgp/transferrable_keys.py UserID")],
  ["parse_user_id", "user_name/user_email/user_comment"])

p("C24", "Key server index answers are read completely and exactly",
  "For any machine-readable index answer, the search result lists every key in it, in order, with the key ID, algorithm, size, creation and expiry times, flags and percent-decoded user IDs stated there, empty fields being reported as unknown. Requests carry the search text, options and key material intact, and the key downloaded for a result is the one the server sent. Requests go to the server, port and transport the address names, only the public part of a key is ever uploaded, and an error answer is never taken for a result.",
  ["inputs"], "all index documents (any number of keys and user IDs, empty fields, percent-escapes, flags), search strings and keys",
  "The key server client has no tests, and answers vary freely.",
  ["pgp/keyserver/hkp.py", "pgp/keyserver/__init__.py"],
  [("index reader", "pgp/keyserver/hkp.py"), ("requests", "pgp/keyserver/hkp.py")],
  ["search", "get", "requests a local HTTP server receives"])

p("C25", "Readers survive hostile input: they answer or raise, and terminate",
  "Feeding any bytes or text to the packet, message, key, signature, armor and user ID readers either gives a result or raises an ordinary exception within bounded work and memory, never a hang, crash or runaway allocation from a length field. What a reader does return for input it accepts as a complete packet sequence covers the whole input: truncated packets, damaged framing, subpackets that overrun their area and octets left over are refused, the data and the stream reader agree, and serialising the packets reproduces their bodies (but for the bit counts of numbers).",
  ["inputs"], "all byte strings, in particular truncations, mutations and splices of valid packets, messages, keys and armor",
  "Hostile input is unbounded; the tests only feed valid input.",
  ["pgp/packets/packets.py", "pgp/packets/parsers.py", "pgp/message.py", "pgp/armor.py", "pgp/transferrable_keys.py", "pgp/shortcuts.py"],
  [("readers", "pgp/packets/parsers.py, pgp/shortcuts.py, pgp/armor.py")],
  ["return or exception of each reader"])

p("C26", "Messages keep their content through every nesting and serialisation",
  "A text or binary message with any content, file name and date, wrapped in any nesting of compression, signing and encryption (signing what is not encrypted), serialised (and optionally armored) and parsed back, has the same nesting and in the end the same content, file name, date and kind. The packets written form an RFC 4880 section 11.3 message that an independent implementation reads to the same content.",
  ["inputs"], "all contents, file names, dates and nestings, both header formats where offered",
  "The tests run one nesting over one short text.",
  ["pgp/message.py", "pgp/packets/packets.py", "pgp/shortcuts.py"],
  [("message classes", "pgp/message.py"), ("literal packet", "pgp/packets/packets.py LiteralDataPacket")],
  ["to_packets", "read_message", "get_message"])

p("C27", "Keys and messages are read and written whole, from and to any place",
  "A key or message gives the same object whether it is read from memory or from a file, binary or in ASCII armor with any header texts, as text or as octets, and whether or not it was said to be armored. Writing a key to a file, armored or not, leaves exactly that key in the file whatever the file held before, and a key that cannot be written leaves the file alone. What is not a key is refused as a key, and what is not a message is refused as a message.",
  ["inputs"], "all keys, messages, armor headers, ways of reading, and earlier file contents",
  "The tests never use the file functions and read only fixed ASCII armor.",
  ["pgp/shortcuts.py", "pgp/armor.py", "pgp/packets/parsers.py"],
  [("high-level readers and writers", "pgp/shortcuts.py read_message, read_key, read_message_file, read_key_file, serialize_key, write_key_file")],
  ["return values", "the file written"])

p("C28", "A key database survives writers that die or fail part-way",
  "When a process adding, updating or deleting a key dies at any point, or its writing is cut off by a full disk, the key file holds afterwards exactly the keys it held before the interrupted operation, or exactly those it should hold after it, and is readable; an operation that reported success is never undone, one that reported an error changed nothing. The next process can work on the file, and the file keeps its place and its access rights.",
  ["histories", "crash_points"], "all operations and database contents, a kill at every line of the database code, every size at which writing is cut off",
  "A crash or a full disk in the middle of a write never happens in a unit test.",
  ["pgp/db/gpg.py"],
  [("keyring writer", "pgp/db/gpg.py Keyring"), ("GDBM writer", "pgp/db/gpg.py GDBM"), ("lock", "pgp/db/gpg.py Lock")],
  ["the key file after the crash", "the next operation"])

p("C29", "Only packet sequences allowed by the standard are accepted as messages",
  "A packet sequence is accepted as a message exactly when it matches the RFC 4880 section 11.3 grammar, at every level: what a compressed or encrypted packet holds is judged when it is opened. A literal, compressed or encrypted packet stands alone but for the session keys in front of encrypted data and the signatures around a message; missing or surplus one-pass signatures and signatures, session keys without data, anything after the message, and packets that belong to keys raise an error rather than giving a message. Marker packets are ignored wherever they are. What is accepted has exactly the session keys, signatures and content of the sequence, in order.",
  ["inputs"], "all packet sequences, nested through compression and encryption",
  "The tests read a few correct messages only.",
  ["pgp/message.py", "pgp/packets/parsers.py"],
  [("message readers", "pgp/message.py open_pgp_message_from_packets, SignedMessageWrapper.from_packets, EncryptedMessageWrapper.from_packets")],
  ["read_message", "get_message", "to_packets"])

p("C30", "Passphrases come from the agent or the user exactly, or not at all",
  "Asking the passphrase agent sends it exactly the cache ID, texts and options asked for, on one line, and returns exactly the passphrase it answers, of any characters, however the answer is escaped, divided into data lines and pieces, and mixed with comments and status lines. An error answer or a connection that ends early is an error, never a passphrase and never an endless wait. Clearing a passphrase has been done by the agent when it returns. At the terminal the passphrase returned is the one typed and confirmed as often as asked for, with new rounds until confirmations match; it is remembered under its cache ID, and only there, until it is cleared, and nobody is asked when asking is forbidden.",
  ["inputs", "histories"], "all passphrases and texts, all divisions of answers, errors and broken connections, histories of asking and clearing",
  "No test runs a dialogue; one answer says nothing about escapes, several lines or a connection that breaks.",
  ["pgp/pinentry/gpg_agent.py", "pgp/pinentry/getpass.py"],
  [("agent client", "pgp/pinentry/gpg_agent.py GPGAgentPinentry"), ("terminal", "pgp/pinentry/getpass.py GetPassPinentry")],
  ["get_passphrase", "clear_passphrase", "the lines the agent receives"])

p("C31", "Times and revocations that speak against a signature are noticed",
  "Checking a signature's times against its key reports as an error a signature from before its key, and a key or a signature from the future. A key that has expired by the time of the check, or that its owner or a revoker designated by the owner has revoked, is reported, in strict mode as an error; a revocation does not count against a signature that is irrevocable. Signatures by anybody else on the key change nothing, and what does not apply is never reported.",
  ["inputs", "histories"], "all creation and expiry times around each other and the current time, all sets of own, designated and foreign signatures on primary keys and subkeys",
  "No test runs these checks; each depends on the order of several times and on who made which of many signatures.",
  ["pgp/signature_verification.py"],
  [("chronology", "pgp/signature_verification.py check_signature_values")],
  ["exceptions and result of check_signature_values"])

p("C32", "The octets a signature covers are those of the standard",
  "For any document, message, key, subkey, user ID, user attribute or signature, any signature type and signature version 3 or 4, the octets given out to be hashed are those RFC 4880 section 5.2.4 prescribes: the document (line endings normalised for text), or the public key octets, followed by the element with the prefix its version calls for, or the signature without its unhashed part, and then the trailer of the signature, with any subpackets. The objects, their packets and the hash helpers agree on them in every time zone, and wrapping a message changes nothing.",
  ["inputs"], "all documents, keys of every version and algorithm, user IDs, attributes, signatures with any subpackets",
  "An error in octets that both the signer and the verifier here compute shows only elsewhere, and only for some contents.",
  ["pgp/utils.py", "pgp/signature.py", "pgp/transferrable_keys.py", "pgp/message.py", "pgp/packets/packets.py"],
  [("signed octets", "pgp/utils.py get_signable_data, hash_packet_for_signature; to_signable_data in pgp/signature.py, pgp/transferrable_keys.py, pgp/message.py; pgp/packets/packets.py get_signature_hash_trailer, get_content_for_signature_hash")],
  ["to_signable_data", "get_signable_data", "hash_packet_for_signature", "get_content_for_signature_hash"])

p("C33", "Keys and messages answer from what they hold now and change only when told",
  "After any history of edits - user IDs, attributes, subkeys and signatures added, replaced, reordered or removed, names, times, images, contents and properties set, keys locked and unlocked - every answer of a key, of each of its parts and of a message (identifiers, self-signatures, properties, revocation, signed octets, serialisation) is the one an object freshly read from its present packets gives; it does not depend on what was asked before. Each edit changes the packets it is about and no other. Reading, verifying, signing, encrypting, compressing, writing in another format and making copies change nothing; public copies, objects made of the same packets, copies of signatures, packets written earlier and lists given to callers are independent of the object in both directions.",
  ["histories"], "all transferable keys and messages, all histories of edits, reads and copies",
  "A test asks once or twice; stale answers and shared state show only after particular orders of asking, copying and changing.",
  ["pgp/transferrable_keys.py", "pgp/signature.py", "pgp/message.py"],
  [("keys and their parts", "pgp/transferrable_keys.py"), ("signatures", "pgp/signature.py BaseSignature from_packet, to_packet, copy and properties"), ("messages", "pgp/message.py")],
  ["properties of keys, parts, signatures and messages", "to_packets", "to_public_key", "get_message"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
