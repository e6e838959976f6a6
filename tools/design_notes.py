"""Per property: (oracle and how the cases decide, what is not judged).
tools/gen_design.py puts them into DESIGN.md."""
N = {}

def n(pid, oracle, limits):
    N[pid] = (oracle, limits)

n('C01', 'A framing reader and writer written from RFC 4880 section 4.2 (vlib/ref.py). Bytes written must be exactly the reference header plus body; bytes of the reference writer - canonical lengths, wider lengths, partial-length chunkings, indeterminate lengths - must be read to the same (format, tag, body) by the buffer reader and the stream reader, consuming exactly their own octets. Lengths are biased to the encoding boundaries and +-1; bodies of 2^24 octets have a sub-check of their own.',
  'Streams must be seekable. On writing, the code uses partial lengths only above 4 GiB; that is not run end to end.')
n('C02', 'A writer of our own lays out each packet body from field values; parsing must give the fields and serialising the octets back; building from the values must give the same octets. Equality is checked both ways: equal octets are equal objects, a changed body is an unequal one.',
  'Non-canonical MPI bit counts, unknown literal formats on writing.')
n('C03', 'An armor reader and writer with a bitwise CRC-24, written from RFC 4880 section 6. Texts written here are read by it; its texts in every layout (line width, CRLF, blank lines, unknown headers, surrounding text) are read here. Corruptions - characters, bits, head and tail lines - must be refused unless the reference decoder finds data and checksum in agreement.',
  'A missing checksum line (RFC: MAY), headers with a colon but no space, trailing white space on head and tail lines, header octets that are not UTF-8.')
n('C04', 'Signature packets of versions 2, 3 and 4 from our own writer with every subpacket kind, unknown and private kinds, critical bits, each length form, in both areas. Fields, octets, equality, and the effect of changing one value of one subpacket.',
  'Which of several equal subpackets of one area counts (RFC: SHOULD be the last).')
n('C05', 'Key packets from our own writer; fingerprints and key IDs from hashlib over the RFC 4880 section 12.2 octets; keygrips from libgcrypt (gcry_pk_get_keygrip). Creation times over the whole 32-bit range under several TZ settings including repeated and skipped local hours.',
  'MPI bit counts are normalised on writing.')
n('C06', 'int.to_bytes / int.from_bytes, a bitwise CRC, RFC formulas. Integers are biased to 2^k-1, 2^k, 2^k+1, where floating-point logarithms go wrong.',
  'Negative numbers must be refused; nothing else is outside.')
n('C07', 'Derivation written from RFC 4880 section 3.7 with hashlib, and libgcrypt (gcry_kdf_derive) as a second reference. Coded counts over the whole range, the larger ones in their own sub-check.',
  'Counts above 2^21 octets only in the thorough tier.')
n('C08', 'libgcrypt (block transformation of every cipher) and textbook CFB/CBC/OFB/CTR and the OpenPGP CFB variant on top of it, in any split into calls.',
  'IDEA has no second block implementation besides libgcrypt.')
n('C09', 'Secret keys protected by libgcrypt with any cipher, derivation and passphrase must unlock to the original numbers; wrong passphrases and damage must raise and leave the key locked with no secret numbers readable; histories of lock/unlock/failed unlock over a key with subkeys against a model; what is written back is decrypted by libgcrypt.',
  'RSA encrypt-only keys (algorithm 2) cannot verify, rightly. MD5-only 16-bit checksums recognise damage only with probability 1 - 2^-16 (a wrong passphrase that passes by chance is counted as such by recomputing the checksum).')
n('C10', 'Three judges of signatures made here: an independent verifier (vlib/keys.py, pow() arithmetic and DigestInfo of its own), gpgv/gpg, and the code itself; and the other way round for signatures made by the independent signer and by gpg.',
  'gpg refuses MD5, hashes shorter than q for DSA, and version 3 public keys, and drops NULs and CRs at line ends in text mode (vlib/gpg.gpg_text knows). Adjacent layers of non-one-pass signatures cannot be told from one layer with several. Keys must be loaded in the time zone in which they are used (naive datetimes). Signing an encrypted wrapper and timestamp (0x40) signatures are not covered.')
n('C11', 'One change to a genuine signature: the content, any signed field, the numbers, the padding, the key, the element it is presented for. The 16-bit prefix is recomputed so that it cannot be what refuses. The oracle decides whether the altered thing still hashes to the same octets (then it must verify) or not (then it must not); the independent verifier confirms.',
  'Malleability inherent in the algorithms (s -> q-s does not apply to DSA here; r, s + q are refused).')
n('C12', 'Messages decrypt for each chosen recipient and nobody else; the session key packets and the body are opened by an independent implementation; messages of the independent implementation and of gpg are opened here.',
  'Without integrity protection a wrong key is recognised only by two octets.')
n('C13', 'The same for passphrases: every derivation, cipher and count; several passphrases; messages without session key packets.',
  'gpg is not given empty passphrases or several passphrases. Without integrity protection a wrong passphrase is recognised only by two octets.')
n('C14', 'Bodies altered in every way, or plaintexts made with the right session key but without a correct modification detection code, must raise and release nothing - judged by an independent decryption that says whether the code is right.',
  'A wrong repeated prefix with a right MDC; the downgrade SEIPD -> SED, which RFC 4880 cannot detect.')
n('C15', "Python's zlib and bz2 modules and a raw-deflate reader as independent ends, in pieces of random size, both ways; truncated streams must raise.",
  'Decompression bombs.')
n('C16', 'A line-ending normaliser of our own; injectivity is tested with pairs of texts that differ in anything but line endings.',
  'Nothing.')
n('C17', 'A dictionary model of the attributes; the octets are decoded by our own reader after each change, so both the reading side and the written subpackets are compared. Times in several time zones.',
  'Which of several equal-kind subpackets in one area counts; hashed area wins over unhashed.')
n('C18', 'Every packet written by the independent writer must be attached to the element it follows and come back in place, octet for octet; publication of a secret key is compared packet by packet with the public parts computed by the reference; independence of copies by changing either side.',
  'Changed data of user attribute items that are no images.')
n('C19', 'A recogniser of the RFC 4880 section 11.1 grammar over packet kinds; all short sequences at random, valid ones, and valid ones with up to three edits.',
  'Marker packets; version 3 keys with attributes.')
n('C20', 'A table of the signatures on each element: the newest own applicable one must decide every property, whatever the order, with foreign, revoked-by-others and noise signatures added and removed. Revocation and expiry states by the rules of RFC 4880 section 5.2.3.',
  'Own subkeys as issuers, designated revokers, equal creation times, expired revocations, revocations that name no target where several certifications could be meant, targets with another public-key algorithm.')
n('C21', 'A recogniser of our own of the grammar in RFC 4880 section 8; every string of up to four (thorough: six) significant characters is enumerated, longer ones are derived and edited.',
  'An unescaped ] outside a range, reversed ranges, the error position.')
n('C22', 'A dictionary per file; after every operation the files are read by our own packet reader. GnuPG reads files written here and the other way round. Several processes and threads run scripts on keys of their own with random pauses at their file operations and calls. `default_files` opens the database of a scratch home in a forked child; `key_boxes` gives files of kinds that are not supported, which must be refused and stay as they were.',
  'Deleting or updating a key held only by a later file of the same kind; subkey IDs; searches by user ID while others delete; reading key boxes.')
n('C23', 'User IDs composed by our own writer from known parts; splitting must give the parts. Histories of replacing parts against a triple.',
  'Runs of spaces; text outside the conventional forms; several comments.')
n('C24', 'A real HTTP server on 127.x.y.z serves index documents of our own writer and records requests; uploads are parsed by our own armor reader.',
  'Fields beyond the draft, unescaped separators, invalid UTF-8 in escapes, key IDs with 0x.')
n('C25', 'Every reader either returns or raises an ordinary exception within time and memory limits (20 s, 3 GB address space); what it returns must serialise; and both packet readers must agree with the reference on damaged framings. A coverage-guided search (line coverage through sys.settrace) keeps inputs that reach new lines.',
  'Decompression bombs; RecursionError counts as an ordinary exception.')
n('C26', 'Trees of layers with content known beforehand, written here and read by the independent reader and by gpg; written by the independent writer with every framing, and by gpg, and read here. Incomplete messages must not give shorter content.',
  "The packet header format of a message that was read is not kept; local formats 'l'/'1' come back as 'b'; gpg cannot do compression algorithm 0 inside signatures, nested signed messages, empty passphrases.")
n('C27', 'The octets on disk are read by our own packet and armor readers.', 'What a file holds after a write that failed part-way.')
n('C28', 'Crash injection: a child process is killed after a random number of executed lines of the database code, or its writes are cut off at a random size (RLIMIT_FSIZE) by a signal or with an error. The file must hold the state before or after the interrupted operation, and the next process must be able to go on.',
  'GDBM files only between lines (the library itself is not crash-atomic); shortcuts.write_key_file.')
n('C29', 'A recogniser of the RFC 4880 section 11.3 grammar, applied at every level of nesting.',
  'Agreement of one-pass packets with their signatures, the nested flag, private packet types as ignorable.')
n('C30', 'An agent of our own that writes its lines in any legal form and in any pieces; a real gpg-agent in a scratch home; a terminal stand-in that types.',
  "The texts 'X' alone and those starting with '--', INQUIRE dialogues, passphrases that are not UTF-8, the wording on the terminal.")
n('C31', 'A table of the applicable errors and warnings computed from the times and from who made each signature on the key; whatever is raised must be in it, and nothing may be raised (and the two flags must be right) when it is empty.',
  'Which of several applicable errors is raised; expiry at the very second of the check; designated revokers named by the primary key for a subkey; validate_signatures and the functions below it, which fail for every input (see Scope).')
n('C32', 'The octets of section 5.2.4 put together by our own code from the serialised packets (which C04/C05/C18 decide), compared with what the objects, their packets and utils give out, and through hashlib with the digest of hash_packet_for_signature.',
  'Timestamp signatures (0x40).')
n('C33', 'Several objects at once - a key or message, its public copies, others made of the same packets - each with a model of the packets it consists of. Each edit is made to the object and to its model; then every object must write the packets of its model, and every computed attribute (found by reflection) of it and all its parts must equal that of an object read afresh from them. Packets taken out earlier and those read from must keep their octets.',
  'The order of user IDs among user attributes after either was changed; properties set on version 3 signatures (which cannot hold them); octets of a literal message changed in place; elements moved between keys.')
