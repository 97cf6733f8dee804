import json
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["public API return values"],hook_needed=None))
K="src/keygen.rs";EN="src/encryption.rs";G="src/saver_groth16.rs";C="src/circuit.rs";U="src/utils.rs";CO="src/commitment.rs";S="src/setup.rs";SE="src/serde_utils.rs"
ps=[
P("C01","Single-authority encrypt/decrypt round trip",
 "For every chunk size and every message (or vector of in-range chunks), a ciphertext made under a generated encryption key decrypts, with the matching secret and decryption keys, to exactly that message. Every way of decrypting (plain or prepared key, with or without precomputed pairing powers, with generators given directly or taken from the SNARK verification key) gives the same answer. The returned commitment to the randomness is the secret key times the ciphertext's first component, so it satisfies the public decryption-verification equations.",
 ["inputs","configurations"],"all messages/chunk vectors, all key secrets and encryption randomness, chunk sizes 4/8/16 (and any other size at chunk level), all decryption entry points",
 "The tests decrypt one seeded chunk vector per chunk size; message-level encrypt/decrypt, the Groth16-key variants and the returned randomness commitment are never called or compared.",
 [K,EN,U,S],[("keygen","src/keygen.rs:476"),("encrypt_decomposed_message","src/encryption.rs:354"),("decrypt_to_chunks_given_pairing_powers","src/encryption.rs:296"),("pairing_powers","src/keygen.rs:282"),("setup_for_groth16","src/setup.rs:91")]),
P("C02","Distributed keys equal the single-authority key of the summed secrets",
 "For any number of parties, the group encryption key assembled from all partial keys and all contributions to the last key element is exactly the key a single authority would have generated from the sums of the parties' secrets. The result does not depend on the order in which partial keys or contributions are combined. Each party's published partial key is determined by that party's own secrets.",
 ["schedules","inputs","configurations"],"any number of parties (1, 2, 3, ...), any combination order, all secret values, all chunk counts",
 "keygen_dist checks only vector lengths for two parties in one order; no test compares the group key with a single-authority key, none uses one or more than two parties.",
 [K],[("FkeygenPartial","src/keygen.rs:310"),("combineEKs","src/keygen.rs:361"),("genP1share","src/keygen.rs:396"),("combineP1share","src/keygen.rs:419"),("keygenFinal","src/keygen.rs:437")]),
P("C03","Full-quorum re-encryption preserves the plaintext for the destination",
 "For any number of parties, once every party that shares the group key has contributed its re-encryption share exactly once, in any order and any grouping of the pairwise combination, the destination's secret key recovers exactly the plaintext chunks of the ciphertext. This holds for every chunk position, every in-range chunk value and every chunk size.",
 ["schedules","inputs","configurations"],"any number of parties, any order/tree of share combination, all plaintexts, secrets and randomness, chunk sizes, search ranges",
 "The tests combine two shares in one order for one seeded plaintext with 4-bit chunks; more parties, other trees, boundary chunk values and other chunk sizes are not exercised.",
 [EN,K],[("re_encrypt_share","src/encryption.rs:391"),("combine_re_encrypt_share","src/encryption.rs:417"),("combine_ct_with_w","src/encryption.rs:437"),("decrypt_to_chunks_after_re_encryption","src/encryption.rs:479"),("Fkeygen_dest","src/keygen.rs:455")]),
P("C04","No re-encryption without every party, and none for anyone else",
 "If the share of even one party is missing, contributed twice, or made for a different ciphertext or a different destination, then the destination's decryption must not return the plaintext. Likewise a secret key other than the intended destination's must not recover it. The failure surfaces as an error, not as a plausible wrong plaintext.",
 ["schedules","fault_sequences","inputs"],"every strict subset and every multiset of party shares, mixed-up ciphertexts or destinations, foreign secret keys, any number of parties",
 "There is no negative test of re-encryption at all: tests only combine the complete set of shares.",
 [EN,K],[("re_encrypt_share","src/encryption.rs:391"),("decrypt_to_chunks_after_re_encryption","src/encryption.rs:479")]),
P("C05","Ciphertext addition is homomorphic, commitment included",
 "The sum of any number of ciphertexts under one key, added in any order and grouping, is a valid ciphertext of the chunk-wise sum of their plaintexts: its commitment verifies, and after re-encryption (or single-authority decryption) with a search range that covers the sums every chunk decrypts to the exact sum. A sum outside the search range is reported as an error, never wrapped or truncated to another value.",
 ["histories","inputs","configurations"],"any number of summands, any grouping/order, all plaintexts including maximal chunks, all chunk positions, search widths up to and beyond the chunk type's width",
 "The tests add two ciphertexts and check one chunk position (index 4); the aggregate's commitment, other positions, more summands and overflowing sums are never checked.",
 [EN],[("add_cts","src/encryption.rs:460"),("decrypt_to_chunks_after_re_encryption","src/encryption.rs:479"),("solve_discrete_log_for_g","src/encryption.rs:515")]),
P("C06","Ciphertext commitment verification accepts exactly the consistent ciphertexts",
 "Verification of a ciphertext's commitment accepts every honestly produced ciphertext (including sums of them) under its own key. It rejects any ciphertext in which one component was changed, swapped with another, taken from a different ciphertext, or which is presented under a different key. Plain and prepared keys, and the ciphertext method and the free function, give the same verdict.",
 ["inputs","fault_sequences"],"all plaintexts and randomness, every component position and every alteration, all key forms",
 "The tests verify only honest ciphertexts; no test ever expects a rejection, so a verifier that always accepts would pass.",
 [EN,K],[("verify_ciphertext_commitment","src/encryption.rs:224"),("get_g1_for_ciphertext_commitment_pairing_checks","src/encryption.rs:575"),("get_g2_for_ciphertext_commitment_pairing_checks","src/encryption.rs:622")]),
P("C07","A proof is accepted only for the ciphertext, key and range it was made for",
 "The proof made while encrypting in-range chunks is accepted together with its ciphertext, under single-authority and group keys. The combined check rejects a proof in which one element was altered, a proof of a different ciphertext or under a different encryption key or SNARK key, and any ciphertext altered after proving. A prover whose chunks exceed the allowed bit size cannot obtain an accepted proof.",
 ["inputs","fault_sequences","configurations"],"all plaintexts, randomness, chunk sizes; every proof element and ciphertext component altered; cross-paired proofs, ciphertexts, keys and verification keys; out-of-range chunks",
 "The tests verify only honest proofs for 4-bit chunks; no rejection is ever tested, nor is the combined check or message-level proving called.",
 [G,EN,C],[("create_proof","src/saver_groth16.rs:78"),("verify_proof","src/saver_groth16.rs:102"),("calculate_d","src/saver_groth16.rs:116"),("verify_qap_proof","src/saver_groth16.rs:128"),("verify_commitment_and_proof","src/encryption.rs:640"),("encrypt_with_proof","src/encryption.rs:126")]),
P("C08","The range circuit is satisfiable exactly for in-range values",
 "The constraint system built by the bit-size circuit has a satisfying assignment for given public values if and only if every one of those values is smaller than two to the required bit size. This holds for every number of values and every bit size, whatever witness a dishonest prover chooses. The values appear as the public inputs, in order.",
 ["inputs","configurations","programs"],"all public value vectors, all prover-chosen witness assignments, all bit sizes and value counts",
 "The circuit has no test of its own; it is only run on in-range values inside proofs, so a dropped or weakened constraint is invisible.",
 [C],[("generate_constraints","src/circuit.rs:50"),("BitsizeCheckCircuit::new","src/circuit.rs:25")],observe=["the R1CS matrices extracted from the constraint system"]),
P("C09","Batch commitment verification agrees with individual verification",
 "For any number of ciphertexts and generic (random, non-zero) batching coefficients, batch verification accepts if and only if each ciphertext verifies on its own. In particular one bad ciphertext at any position, with the fault in any component, makes the batch fail.",
 ["inputs","fault_sequences","configurations"],"batch sizes from 1 upward, fault position and component, coefficients, honest and aggregated ciphertexts",
 "No test calls batch verification.",
 [EN],[("verify_commitments_in_batch","src/encryption.rs:252"),("get_g1_for_ciphertext_commitments_in_batch_pairing_checks","src/encryption.rs:587")]),
P("C10","Chunk decomposition is a canonical, invertible big-endian representation",
 "For every scalar of the supported curve and every supported chunk size, decomposition yields exactly the number of chunks the key sizes are derived from, each within the chunk bit size, most significant first, and composing them gives the element back. Composition refuses any sequence that is not such a decomposition because a chunk exceeds the chunk size or a half byte is left over. Unsupported chunk sizes are refused by both directions.",
 ["inputs","configurations"],"all field elements (0, 1, modulus minus one, leading zero bytes), all chunk sequences and lengths, all 256 chunk sizes",
 "No test calls decompose or compose directly; no test covers boundary elements or invalid sequences.",
 [U],[("decompose","src/utils.rs:30"),("compose","src/utils.rs:62"),("chunks_count","src/utils.rs:18")]),
P("C11","The chunked commitment equals the Pedersen commitment to the whole message",
 "For every message, blinding and supported chunk size, the chunked commitment equals message times G plus blinding times H for the given generators. Creating it directly or from a previously created commitment key gives the same result, and the commitment key consists of the descending powers of the chunk radix times G followed by H.",
 ["inputs","configurations"],"all messages and blindings (0, modulus minus one included), chunk sizes, generators",
 "The one commitment test compares two private key-derivation routines with each other; no commitment is ever computed.",
 [CO,U],[("ChunkedCommitment::new","src/commitment.rs:57"),("get_commitment_given_commitment_key","src/commitment.rs:73"),("commitment_key","src/commitment.rs:85")]),
P("C12","Mismatched shapes are refused, never truncated",
 "Whenever the lengths of keys, ciphertext vectors, shares, commitment keys or batching coefficients passed to an operation do not fit together, or generators or pairing-power tables are too short for it, the operation refuses: it returns an error if it has an error result (it does not panic), and otherwise aborts. It never silently ignores surplus elements or produces a shortened result. (Generators and pairing-power tables that offer more than is needed fit: the surplus is allowed and has no effect.)",
 ["inputs","fault_sequences"],"every operation, every argument, every shorter/longer/empty length",
 "Tests only pass well-formed arguments; no error path of any operation is executed.",
 [EN,K,CO],[("supported_chunks_count/validate","src/keygen.rs:174"),("combineEKs","src/keygen.rs:361"),("pairing_powers","src/keygen.rs:282"),("length checks","src/encryption.rs:233"),("combine_re_encrypt_share, combine_ct_with_w, add_cts","src/encryption.rs:417"),("get_commitment_given_commitment_key","src/commitment.rs:73")]),
P("C13","Every operation uses fresh randomness, and reports the randomness it used",
 "Each encryption, key generation, re-encryption share and proof draws fresh, non-zero randomness from the caller's generator: repeating an operation on the same inputs never repeats randomness or output, whatever the message. The randomness returned by encryption is the one that opens the ciphertext and its commitment.",
 ["histories","inputs"],"any sequence of operations on one generator, repeated and special messages (all-zero, equal chunks), any party",
 "No test performs the same operation twice on the same inputs and compares; a constant or message-derived randomness passes all tests.",
 [EN,K,G],[("encrypt_decomposed_message","src/encryption.rs:354"),("re_encrypt_share","src/encryption.rs:391"),("create_proof","src/saver_groth16.rs:78"),("FkeygenPartial/keygen/Fkeygen_dest","src/keygen.rs:310")]),
P("C14","Artefacts survive export and import; invalid encodings are refused",
 "Every exchanged artefact (generators, keys, partial keys, shares, ciphertexts, commitments, proving key, window table) exported in compressed, uncompressed or serde form and imported again equals the original, so the protocol continues identically across parties. Import refuses truncated data and encodings of elements that are not valid group elements.",
 ["inputs","histories"],"all artefact types and values (identity elements included), three encodings, every group-element slot replaced by an invalid encoding, every truncation",
 "The serialization test macro is defined but never invoked; nothing is ever serialized in the tests except to measure sizes.",
 [SE,K,EN,S,G,CO,U],[("AsCanonical serialize/deserialize","src/serde_utils.rs:13"),("derive(CanonicalSerialize, Serialize)","src/keygen.rs:27")]),
P("C15","Generators and SNARK parameters are deterministic, valid and mutually consistent",
 "Generators derived from a label depend only on the label, are valid non-identity elements of the right group, and differ between labels and between the roles G and H within one set. The SNARK parameters and the keys built on them share one trapdoor: the extra element is minus gamma times the first generator for the gamma of the verification key, and the generators used for encryption are the verification key's public-input elements, one per chunk, in order.",
 ["inputs","configurations"],"all labels (empty, long, prefixes of each other), all trapdoors, all chunk sizes",
 "The gens test compares two labels; the trapdoor relation of the SRS is checked nowhere except implicitly for 4-bit honest proofs.",
 [S,U,G],[("EncryptionGens::new, ChunkedCommitmentGens::new","src/setup.rs:41"),("projective_group_elem_from_try_and_incr","src/utils.rs:139"),("generate_srs","src/saver_groth16.rs:47"),("get_gs_for_encryption","src/saver_groth16.rs:42"),("setup_for_groth16","src/setup.rs:91")]),
P("C16","Decryption never returns a wrong chunk",
 "Whatever ciphertext and key it is given (with or without a table of pairing powers precomputed for that key), decryption either returns for each position the unique value within the search range that the ciphertext encodes there under that key, or reports an error. In particular ciphertexts with chunks outside the range and keys that do not match give an error, and the result with precomputed powers is the same as without.",
 ["inputs","fault_sequences"],"arbitrary (also dishonest) ciphertext components, wrong secret/decryption keys, chunk values at, just below and just above the range limit, all search widths",
 "Tests decrypt only honest, in-range ciphertexts with the right keys; the failing branch is never reached.",
 [EN,K],[("solve_discrete_log*","src/encryption.rs:515"),("pairing_powers","src/keygen.rs:282"),("decrypt_to_chunks*","src/encryption.rs:282")]),
P("C17","The public transcript reveals no relation between plaintext chunks",
 "From ciphertexts, sums, re-encryption shares, re-encrypted ciphertexts and public keys alone, no comparison by group operations with public small coefficients may confirm or refute a guess of chunk values, link two encryptions of one plaintext, or expose a secret key: every published element carries a mask that only secret-key holders can remove.",
 ["inputs","histories"],"all small-coefficient linear relations among the published group elements of a protocol run, all plaintexts",
 "Tests never look at the transcript from an outsider's point of view.",
 [EN,K],[("encrypt_decomposed_message","src/encryption.rs:354"),("re_encrypt_share","src/encryption.rs:391"),("combine_ct_with_w","src/encryption.rs:437")]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p)+"\n")
