import json
P=[]
M={
"C01":[("key schedules, S-box tables and round functions","lib/block/*.c: <cipher>_setup/_create, <cipher>_encrypt, <cipher>_decrypt"),("dispatch","lib/block.c: kripto_block_create/encrypt/decrypt/tweak"),("word packing","include/kripto/loadstore.h, rotate.h")],
"C02":[("inverse round functions and inverse schedules","lib/block/*.c: <cipher>_decrypt, dk[] setup"),("load-all-before-store discipline","lib/block/*.c: encrypt/decrypt bodies")],
"C03":[("re-keying in place or by replacement when the round count changes","lib/block/*.c: <cipher>_recreate"),("tweak state","lib/block/threefish*.c, trax_*.c: _tweak, _recreate")],
"C04":[("compression functions, padding, length counters, output extraction","lib/hash/*.c: <hash>_process/_input/_finish/_output"),("dispatch","lib/hash.c")],
"C05":[("buffer index and counters across input/output calls","lib/hash/*.c: s->i, s->len, _input, _output"),("state reset","lib/hash/*.c: _recreate"),("one-shot wrapper","lib/hash/*.c: _hash_all; lib/hash.c: kripto_hash_all")],
"C06":[("HMAC inner/outer keys","lib/mac/hmac.c: hmac_create/recreate/tag"),("subkey derivation by doubling, last-block padding","lib/mac/omac.c, lib/mac/xcbc.c"),("keyed sponge / Skein UBI","lib/mac/keccak.c, lib/mac/skein*.c")],
"C07":[("buffering of the last block","lib/mac/*.c: _input, _tag"),("verification","lib/mac.c: kripto_mac_verify; lib/memory.c: kripto_memory_equals")],
"C08":[("keystream generation and counters","lib/stream/chacha.c, salsa20.c, rc4.c, keccak.c, skein*.c"),("block modes","lib/stream/cbc.c, cfb.c, ctr.c, ecb.c, ofb.c")],
"C09":[("keystream position across calls","lib/stream/*.c: s->i / s->used, _crypt/_encrypt/_decrypt/_prng"),("state reset","lib/stream/*.c: _recreate")],
"C10":[("EAX composition","lib/ae/eax.c: eax_create/recreate/encrypt/header/tag"),("EAX2 composition","lib/ae/eax2.c: key derivation, nonce MAC, header MAC")],
"C11":[("encrypt-then-MAC order","lib/ae/eax.c, eax2.c: _encrypt, _decrypt"),("verification","lib/ae.c: kripto_ae_verify; lib/memory.c")],
"C12":[("iteration and block XOR","lib/pbkdf2.c: kripto_pbkdf2"),("salsa20/8, BlockMix, ROMix","lib/scrypt.c")],
"C13":[("padding","lib/pkcs7.c: kripto_pkcs7_add, kripto_pkcs7_rem")],
"C14":[("allocation sizes and index arithmetic","lib/*/*.c: _create, _input, _output, _crypt")],
"C15":[("null checks and unwinding","lib/*/*.c: _create, _recreate; lib/pbkdf2.c; lib/scrypt.c; lib/hash.c, mac.c one-shots")],
"C16":[("kripto_memory_wipe before free","lib/memory.c; lib/*/*.c: _destroy and stack/heap temporaries in one-shots")],
"C24":[("seeding, reseeding and failure paths of the built-in generator","lib/random.c: seed, create, kripto_random_gen, kripto_random_destroy (builds without KRIPTO_UNIX and KRIPTO_WINDOWS)")],
"C25":[("the public interface","include/kripto/*.h and below"),("the library's global names","lib/*.c and below: every definition without static")],
"C17":[("accumulating comparison","lib/memory.c: kripto_memory_equals, kripto_memory_wipe"),("callers","lib/mac.c, lib/ae.c: verify")],
"C18":[("per-object state only; const descriptors and tables","lib/*.c, lib/*/*.c")],
"C19":[("device read loop and source selection","lib/random.c: kripto_random_create/gen/destroy"),("statistical self-test","lib/random.c: kripto_random_test")],
"C20":[("KRIPTO_LITTLE_ENDIAN and assembler branches","include/kripto/loadstore.h, rotate.h"),("assert-only checks","lib/*/*.c, NDEBUG")],
"C21":[("LOAD/STORE/ROL/ROR macros and array helpers","include/kripto/loadstore.h, include/kripto/rotate.h")],
"C23":[("kripto_memory_wipe of local variables","lib/block/*.c: _setup and key-schedule functions; lib/hash/*.c: _process and _hash one-shots; lib/mac/hmac.c: hmac_tag; lib/stream/keccak.c, skein*.c")],
"C22":[("descriptor tables and constructors","lib/*/*.c: descriptor structs; lib/mac/hmac.c, omac.c, xcbc.c, lib/stream/*.c, lib/ae/*.c constructors"),("limit accessors","lib/block.c, hash.c, mac.c, stream.c, ae.c: kripto_*_size/maxkey/maxiv/maxtag/maxout/multof/name")],
}
def p(id,title,st,over,text,why,files,syms=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in M[id]])))
p("C01","Block ciphers compute the published algorithm",
"For every block cipher in the library, every key of 1..maxkey bytes, every supported round count and every block, kripto_block_encrypt yields exactly the ciphertext the published algorithm specifies for that key (keys shorter than a size the algorithm defines being zero-extended to the next key unit), and kripto_block_decrypt yields exactly what the published inverse specifies. Tweakable ciphers honour tweaks of 1..maxtweak bytes the same way.",
["inputs","configurations"],"all ciphers x key bytes x key lengths 1..maxkey x supported explicit round counts and the default x tweaks x blocks",
"The tests compare a handful of fixed vectors per cipher at the standard key sizes and default rounds; the claim ranges over all keys, lengths, round counts and blocks (table entries, key-schedule paths and carries that those vectors never touch).",
["lib/block.c","lib/block/*.c","include/kripto/loadstore.h","include/kripto/rotate.h"])
p("C02","Block decryption exactly inverts encryption, in any aliasing",
"For every block cipher, key length, supported round count, tweak and block, decrypting an encrypted block returns the original block and encrypting a decrypted block returns the original block. The result is the same whether input and output are separate, identical or arbitrarily aligned buffers, exactly block-size bytes are written, and neither operation alters the input buffer (when separate) or the cipher object.",
["inputs","histories"],"all ciphers x keys x key lengths x rounds x tweaks x blocks x aliasing/alignment, any interleaving of encrypt and decrypt on one object",
"The tests decrypt only their fixed vectors with separate aligned buffers; no test covers non-default rounds, odd key lengths, in-place use or state carried between calls.",
["lib/block.c","lib/block/*.c"])
p("C03","Re-keying a block cipher is equivalent to creating it afresh",
"After any history of create, recreate, tweak, encrypt and decrypt calls, a block cipher object behaves exactly like a freshly created object with the last rounds/key given (and the last tweak given since that key, none otherwise), keeps reporting the same descriptor, and is unaffected by operations on any other object.",
["histories"],"all finite histories over several live objects of all ciphers with changing key lengths and round counts",
"No existing test calls recreate with a different round count or key length, sets a tweak and then re-keys, or interleaves objects.",
["lib/block.c","lib/block/*.c"])
p("C04","Hash functions compute the published digest",
"For every hash function in the library, every message, every supported output length, salt and round count, the digest equals the one the published algorithm specifies, including messages whose length is any multiple or near-multiple of the block or word size and messages longer than 2^32 bits.",
["inputs","configurations"],"all hash descriptors x messages of any length x output lengths x salts x rounds",
"The tests use short fixed messages for some hashes and have none for BLAKE, BLAKE2, Skein or Keccak-800; padding boundaries, counter carries, salts, and output lengths are unbounded families.",
["lib/hash.c","lib/hash/*.c"])
p("C05","Hashing is independent of how input and output are split",
"For every hash function, feeding the message in any sequence of input calls (including empty ones) and, where arbitrary-length output is supported, drawing the digest in any sequence of output calls gives the same bytes as the one-shot kripto_hash_all; a recreated object behaves exactly like a fresh one whatever it processed before, and concurrent objects do not influence each other.",
["histories","inputs"],"all partitions of messages and of outputs, all histories of recreate over several objects",
"Existing tests feed each message in a single or a fixed repeated chunking and never compare partitions or reuse an object in mid-message.",
["lib/hash.c","lib/hash/*.c"])
p("C06","MACs compute the published tag",
"For every MAC construction (HMAC over every hash, OMAC/CMAC and XCBC over every block cipher, Keccak and Skein MACs), every key length, message and tag length accepted, the tag equals the one the construction's specification defines for that primitive; a tag shorter than the full length is the specification's truncation (or the keyed variable-length output for Keccak and Skein). For HMAC the tag length given at creation selects the instance of the hash exactly as out_len does for the hash itself.",
["inputs","configurations"],"all MAC descriptors x underlying primitives x keys x messages x tag lengths",
"The tests contain a few fixed vectors with two or three primitives; the construction must hold for every primitive, key longer or shorter than a block, and message length.",
["lib/mac.c","lib/mac/*.c"])
p("C07","MAC tags are chunking-independent, reusable, and verified exactly",
"For every MAC, any partition of the message into input calls gives the same tag as kripto_mac_all, a tag taken in pieces (for all but HMAC) is the same tag, a recreated object behaves exactly like a fresh one after any history, and kripto_mac_verify accepts exactly the correct tag: it succeeds on it and fails on any tag that differs in at least one bit, message or key.",
["histories","inputs"],"all partitions, histories over several objects, and single- or multi-bit modifications of tag/message/key",
"Tests never call verify with a wrong tag, never split messages arbitrarily and never recreate an object mid-message.",
["lib/mac.c","lib/mac/*.c","lib/memory.c"])
p("C08","Stream ciphers and block modes compute the published keystream",
"For every stream cipher (ChaCha, Salsa20 and their X variants, RC4, Keccak, Skein) and every block mode (CBC, CFB, CTR, ECB, OFB over every block cipher), for every key, IV and length accepted, kripto_stream_encrypt, decrypt and prng produce exactly the bytes the published algorithm specifies, including counters that carry across bytes and words.",
["inputs","configurations"],"all stream descriptors x underlying block ciphers x keys x IV lengths/values x data lengths",
"Only ChaCha, Salsa20 and CTR have fixed vectors; CBC, CFB, OFB, ECB, RC4, Keccak and Skein streams have no test, and no vector makes a counter carry.",
["lib/stream.c","lib/stream/*.c"])
p("C09","Stream encryption round-trips under any chunking, aliasing and reuse",
"For every stream cipher and mode, decrypting what was encrypted with the same key and IV returns the plaintext, whatever multiples of kripto_stream_multof the data is split into on either side and whether done in place or not; prng output equals the keystream; a recreated object behaves exactly like a fresh one after any history; nothing is written outside the given length.",
["histories","inputs"],"all partitions on both sides, aliasing choices, recreate histories over several objects",
"Tests run one encrypt call of a fixed length per vector; decryption of more than one block, partial-block calls, in-place use and recreate are never exercised for most modes.",
["lib/stream.c","lib/stream/*.c"])
p("C10","Authenticated modes compute the specified ciphertext and tag",
"For EAX over every block cipher and EAX2 over every stream cipher and MAC combination, every key, nonce, header, message and tag length accepted, ciphertext and tag equal those the construction specifies, and they are a function of those inputs only, however header and message are split into calls.",
["inputs","histories","configurations"],"all underlying primitives x keys x nonce/header/message/tag lengths x partitions",
"EAX has ten fixed vectors with full-block nonces over one cipher; EAX2 has no test at all.",
["lib/ae.c","lib/ae/*.c"])
p("C11","Authenticated modes round-trip and reject every modification",
"For EAX and EAX2, decrypting a genuine ciphertext under the same key, nonce and header returns the plaintext and kripto_ae_verify succeeds; if the key, nonce, header, ciphertext or tag is changed in at least one bit (or header/ciphertext truncated or extended), verify fails (for EAX2, whose tag does not depend on the stream half of the key by construction, the key means its MAC half); a recreated object behaves exactly like a fresh one.",
["inputs","histories"],"all primitives x inputs x modifications x partitions x recreate histories",
"Tests never verify a forged message; acceptance is universally quantified over forgeries.",
["lib/ae.c","lib/ae/*.c","lib/memory.c"])
p("C12","PBKDF2 and scrypt derive the specified key",
"For every MAC usable as PRF and every password, salt, iteration count and output length, kripto_pbkdf2 returns the bytes of RFC 2898/8018 for that PRF, and kripto_scrypt returns the bytes of RFC 7914 generalised to that PRF for every N (a power of two), r and p; both report success exactly when the output was produced, also on processors with 32-bit addresses, where parameters too large for them are refused.",
["inputs","configurations"],"all PRFs x passwords x salts x iteration counts x (N, r, p) x output lengths",
"The tests have a handful of fixed RFC vectors with one PRF; memory-hard mixing depends on data-dependent indices that a few vectors do not exercise, and output lengths straddling PRF blocks are not covered.",
["lib/pbkdf2.c","lib/scrypt.c"])
p("C13","PKCS#7 padding is exact, bounded and validated",
"For every message and block size 1..255, kripto_pkcs7_add appends 1..pad bytes each equal to the number appended, making the length a multiple of the block size, and refuses without writing when the result would exceed the stated capacity; kripto_pkcs7_rem returns the original length for every padded buffer and reports failure, never an out-of-range length, for buffers whose padding is not valid.",
["inputs"],"all lengths x block sizes x capacities x buffer contents (valid and corrupted)",
"There is no test for padding at all; the claim is over every length/block-size pair and every malformed buffer.",
["lib/pkcs7.c"])
p("C14","No call touches memory outside the documented buffers, or leaks",
"For every documented call sequence with valid arguments, the library reads and writes only the byte ranges its arguments describe, never uses freed or uninitialised memory for its results, performs no undefined operation, terminates, and after every object is destroyed all memory it allocated has been released.",
["inputs","histories"],"all API call sequences within the asserted preconditions, over every algorithm, with exactly sized buffers",
"The tests run without sanitizers or leak accounting, with oversized static buffers and standard key lengths; out-of-bounds accesses at other lengths stay silent.",
["lib/*.c","lib/*/*.c"])
p("C15","Allocation failure is reported cleanly",
"If any memory allocation made during a create, recreate, one-shot or key-derivation call fails, the call reports failure (null or non-zero), nothing is leaked or freed twice, no crash occurs, and other live objects and later calls work normally.",
["fault_sequences"],"every API entry point that allocates x every allocation index (and pairs) failing",
"No test injects allocation failures, and each failure point selects a distinct cleanup path.",
["lib/*.c","lib/ae/*.c","lib/mac/*.c","lib/stream/*.c","lib/block/*.c","lib/hash/*.c"])
p("C16","No secret survives in memory the library releases",
"Whenever the library releases heap memory (destroy, recreate, one-shot and key-derivation calls), the released bytes do not depend on any key, password, plaintext or message that was processed: all such material has been erased first.",
["histories","inputs"],"all objects, keys and histories, at every release of heap memory",
"Erasure is invisible to functional tests; it must hold for every object size that depends on rounds, key length or primitive.",
["lib/memory.c","lib/block/*.c","lib/hash/*.c","lib/mac/*.c","lib/stream/*.c","lib/ae/*.c","lib/pbkdf2.c","lib/scrypt.c"])
p("C17","Comparison and verification are exact and take no secret-dependent path",
"kripto_memory_equals returns true exactly when all len bytes are equal, for every length, alignment and position of the difference, and it, kripto_mac_verify and kripto_ae_verify follow the same control-flow path whatever bytes differ and wherever; kripto_memory_wipe zeroes exactly len bytes.",
["inputs"],"all buffer contents, lengths, alignments and mismatch positions/values",
"Tests never call these with differing buffers; a comparison that stops early, wraps or ignores certain bits passes every existing vector.",
["lib/memory.c","lib/mac.c","lib/ae.c"])
p("C18","Objects are independent and usable concurrently from different threads",
"Operations on distinct objects running in different threads yield the same results as when run alone, with no data race, for all algorithms: the library keeps no hidden mutable state shared between objects.",
["schedules","histories"],"all interleavings of operation sequences on distinct objects",
"Tests are single-threaded and use one object at a time.",
["lib/*.c","lib/*/*.c"])
p("C19","Random source fills requests fully and its self-test discriminates",
"kripto_random_gen returns exactly the bytes delivered by the operating system source, in order and without repetition, for any request size and any sequence of requests, and returns the number of bytes actually obtained (short only when the source is); kripto_random_test accepts a uniformly random source and rejects grossly biased or constant ones.",
["inputs","fault_sequences"],"all request-size sequences x source behaviours (short reads, end of data, absence) x source distributions",
"There is no test of the random module.",
["lib/random.c"])
p("C20","Results do not depend on build configuration",
"Every algorithm yields identical results whichever of the supported build options is chosen: generic, little-endian or big-endian load/store paths, assembler or portable rotations, assertions on or off, optimisation level and compiler, and whatever the byte order, word size and alignment rules of the processor.",
["configurations","inputs"],"build option combinations and processors x algorithms x inputs",
"The tests are built once with one configuration on one processor; other #ifdef branches are never compiled, and nothing runs where bytes or words are laid out differently.",
["include/kripto/loadstore.h","include/kripto/rotate.h","include/kripto/cast.h","build.sh"])
p("C21","Load/store and rotate primitives match their arithmetic definition",
"For every value, byte offset, length and rotation amount, the 16-, 32- and 64-bit little- and big-endian load/store helpers (scalar and array) and the fixed and variable rotations of 8 to 64 bits give exactly the value of their arithmetic definition and touch only the bytes named.",
["inputs","configurations"],"all words x offsets x byte counts x rotation amounts, in each load/store and rotation configuration",
"They are exercised only through cipher vectors, which use a few offsets and rotation amounts each.",
["include/kripto/loadstore.h","include/kripto/rotate.h"])
p("C22","Descriptors report truthful limits and identities",
"For every descriptor, the reported block size, maximum key, IV, tweak, salt, output and tag lengths and length multiple are those of the algorithm (or derived from the underlying primitives), every length up to the limit is accepted and has an effect on the result, and objects report the descriptor they were created with.",
["configurations","inputs"],"all descriptors, including modes/MACs/AEs constructed over every primitive, x all lengths within limits",
"Tests pass literal sizes and never read the limits or try the extremes.",
["lib/block.c","lib/hash.c","lib/mac.c","lib/stream.c","lib/ae.c","include/kripto/desc/*.h"])
p("C23","No copy of a secret is left on the stack",
"When a library call returns, the stack memory it used holds, as far as the source program decides (unoptimised build), no copy of 16 or more bytes of the key or of the message given to a hash or MAC, no copy of a cipher's key schedule, no temporary array of a key schedule larger than the working registers, no expanded message block, no keystream, no HMAC inner digest and no one-shot hash state: all such temporaries are wiped on every path.",
["histories","inputs"],"all API calls over every algorithm, key length, round count and message partition",
"The tests check return values and outputs; what a call leaves behind in dead memory is invisible to them and different for every key length branch.",
["lib/block/*.c","lib/hash/*.c","lib/stream/*.c","lib/mac/hmac.c"])
p("C24","The built-in random generator seeds, reseeds and fails safely",
"In builds without an operating system interface, every successful request is filled with the next bytes of the ChaCha stream under a key derived by scrypt from the clocks; an object is seeded again before it has served more than the reseeding amount or when its seed is older than the reseeding age (and not long before), and goes on with a stream that cannot repeat earlier output even when the clocks stand still; when an allocation or the derivation fails, create returns nothing and a request returns zero bytes, nothing leaks, and the object stays usable and destroyable; no derived key is left in released memory or on the stack.",
["histories","fault_sequences"],"sequences of requests over one or two objects x clock readings x allocation and derivation failures",
"No test is built in this configuration, and reseeding needs five megabytes or five minutes.",
["lib/random.c"])
p("C25","The public headers compose and the library defines all they declare",
"Any set of the public headers can be included together, in any order in which each family's interface header precedes the algorithms built on it, repeatedly, from C99 to current C and from C++98 to current C++ (inside extern \"C\"), with gcc and clang; the program then links against the static and the shared library whatever declared function, descriptor or constant it refers to, sees the same values and results as any other such program, and no global name of the library lies outside its own prefix.",
["programs","configurations"],"all sets and orders of headers x languages x compilers x feature macros x kinds of library",
"The tests include two or three headers each, in one language and order, and use a few of the functions.",
["include/kripto","lib"])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
