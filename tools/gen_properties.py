import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
E="eip7594/src/"; C="cryptography/"
p("C01","A blob's commitment is the KZG commitment to the blob's polynomial",
 "For every blob of 4096 canonical field elements, the returned 48 bytes are the compressed encoding of p(tau)*G, where p is the unique polynomial of degree below 4096 that takes the blob's values on the 4096th roots of unity in bit-reversed order and tau is the secret of the trusted setup the context was built from.",
 ["inputs"],"All blobs (including zero, constant, sparse, low-degree, extreme-valued ones), all trusted setups.",
 "The tests replay a handful of consensus-spec vectors; they cannot reach every position/value combination, in particular positions whose contribution happens to be zero in the vectors.",
 [E+"prover.rs",C+"kzg_multi_open/src/fk20/prover.rs",C+"kzg_multi_open/src/commit_key.rs",C+"polynomial/src/domain.rs",C+"bls12_381/src/lincomb.rs"],
 [("bit reversal, inverse FFT, MSM over the monomial setup",C+"kzg_multi_open/src/fk20/prover.rs: commit"),("blob decoding",E+"serialization.rs")],
 ["DASContext::blob_to_kzg_commitment"])
p("C02","Cells are the systematic Reed-Solomon extension of the blob",
 "For every blob, the 128 returned cells are the evaluations of the blob's polynomial on the 8192nd roots of unity in bit-reversed order, 64 per cell; in particular the first 64 cells concatenated are the blob itself, byte for byte.",
 ["inputs"],"All blobs and all 128 cell positions, 64 elements in each.",
 "The tests compare a few spec vectors; a fault limited to one element, one cell or one kind of value (zeroes, ones, r-1) would have to be in them to be seen.",
 [E+"prover.rs",E+"serialization.rs",C+"kzg_multi_open/src/fk20/prover.rs",C+"polynomial/src/domain.rs",C+"polynomial/src/fft.rs"],
 [("FFT over the extended domain and bit reversal",C+"kzg_multi_open/src/fk20/prover.rs: compute_coset_evaluations"),("cell serialisation",E+"serialization.rs: serialize_cells_and_proofs")],
 ["DASContext::compute_cells_and_kzg_proofs"])
p("C03","Every returned proof is the exact KZG opening proof of its cell",
 "For every blob and every cell index i, the i-th returned proof is the compressed encoding of q_i(tau)*G, where q_i is the quotient of the blob's polynomial by the vanishing polynomial of cell i's evaluation set. No proof is ever misplaced, stale, or merely acceptable by accident.",
 ["inputs"],"All blobs, all 128 cells of each.",
 "A few vectors are checked; FK20 computes all proofs together through Toeplitz products whose individual columns, paddings and zero shortcuts the vectors do not isolate.",
 [C+"kzg_multi_open/src/fk20/prover.rs",C+"kzg_multi_open/src/fk20/h_poly.rs",C+"kzg_multi_open/src/fk20/batch_toeplitz.rs",C+"kzg_multi_open/src/fk20/toeplitz.rs",C+"bls12_381/src/fixed_base_msm.rs"],
 [("FK20 quotient commitments",C+"kzg_multi_open/src/fk20/h_poly.rs"),("group FFT to the 128 proofs and bit reversal",C+"kzg_multi_open/src/fk20/prover.rs")],
 ["DASContext::compute_cells_and_kzg_proofs"])
p("C04","Every honest batch of cells verifies",
 "Verification accepts every batch whose items are genuine (commitment, cell index, cell, proof) tuples: any number of items including none, any mixture of blobs, any order, with repeated items, repeated commitments and equal commitments of different rows, and with blobs whose commitment or proofs are the identity point.",
 ["inputs"],"All finite sequences of honest items.",
 "The tests verify a few shapes; which commitments repeat, in which order and with which identity points decides the deduplication and the aggregation.",
 [E+"verifier.rs",C+"kzg_multi_open/src/fk20/verifier.rs",C+"bls12_381/src/lincomb.rs"],
 [("commitment deduplication",E+"verifier.rs: deduplicate_with_indices"),("random linear combination and pairing check",C+"kzg_multi_open/src/fk20/verifier.rs: verify_multi_opening")],
 ["DASContext::verify_cell_kzg_proof_batch"])
p("C05","A batch containing any false item is rejected as an invalid proof",
 "If at least one item of a well-formed batch is false (its proof does not open its commitment to its cell at its index), verification never succeeds and reports an invalid proof, whichever of the item's four components is wrong, whichever element of the cell, and wherever in a batch of whatever composition the item stands.",
 ["inputs"],"All well-formed batches with at least one false item; all positions of the fault.",
 "The tests have a handful of corrupted vectors; each element of each cell, each index and each position in the batch is a separate way for a check to be incomplete.",
 [E+"verifier.rs",C+"kzg_multi_open/src/fk20/verifier.rs",C+"kzg_multi_open/src/verification_key.rs"],
 [("pairing check over the aggregated claim",C+"kzg_multi_open/src/fk20/verifier.rs"),("interpolation of the claimed cells",C+"kzg_multi_open/src/fk20/verifier.rs: compute_sum_interpolation_poly")],
 ["DASContext::verify_cell_kzg_proof_batch","Error::invalid_proof"])
p("C06","Errors of several items in a batch cannot be made to cancel",
 "An adversary who chooses all commitments, indices, cells and proofs of a batch, and may choose any of them after learning the combination coefficients of any other batch, cannot make false items cancel each other: every component of every item, and the grouping of items by commitment, influences the coefficients that combine the batch.",
 ["inputs"],"All batches of two or more false items, in particular those computed to cancel under the coefficients of a batch that differs in one component.",
 "Unit tests hold fixed vectors and no adversary: a coefficient that is constant, repeats, or ignores one component passes all of them.",
 [C+"kzg_multi_open/src/fk20/verifier.rs",E+"verifier.rs"],
 [("Fiat-Shamir challenge over the whole statement and its powers",C+"kzg_multi_open/src/fk20/verifier.rs: compute_fiat_shamir_challenge, compute_powers")],
 ["DASContext::verify_cell_kzg_proof_batch"])
p("C07","Malformed verification requests are errors, never verdicts or panics",
 "A verification request with lists of different lengths, a cell index of 128 or more, a cell with a field element that is not canonical, or a commitment or proof that is not the canonical encoding of a point of the prime-order group, returns an error that is not an invalid-proof verdict: it is never accepted, wherever the defect is, whatever else the request holds, and it never panics.",
 ["inputs"],"All malformed requests: every length combination, every position of the defect, every kind of bad encoding, and combinations.",
 "The tests hold one vector for each kind of defect, at one position.",
 [E+"verifier.rs",E+"serialization.rs",E+"errors.rs"],
 [("length and range validation",E+"verifier.rs: validation"),("checked deserialisation",E+"serialization.rs"),("error classification",E+"errors.rs: invalid_proof")],
 ["DASContext::verify_cell_kzg_proof_batch","Error::invalid_proof"])
p("C08","Any half of the cells recovers everything",
 "From any 64 or more distinct honest cells of a blob, given in any order together with their indices, recovery returns exactly the 128 cells and 128 proofs that were computed from the blob.",
 ["inputs"],"All subsets of at least 64 of the 128 cells (more than 2^126), all orders, all blobs.",
 "The tests recover a few fixed subsets; a fault may need a particular pattern of missing cells or order of arrival.",
 [E+"recovery.rs",E+"prover.rs",C+"erasure_codes/src/reed_solomon.rs",C+"kzg_multi_open/src/fk20/cosets.rs"],
 [("placing cells in domain order",C+"kzg_multi_open/src/fk20/cosets.rs: recover_evaluations_in_domain_order"),("erasure decoding",C+"erasure_codes/src/reed_solomon.rs")],
 ["DASContext::recover_cells_and_kzg_proofs"])
p("C09","Recovery refuses every unusable input",
 "Recovery returns an error, and never data and never a panic, when there are fewer than 64 cells, when indices repeat or are 128 or more, when the numbers of cells and indices differ, when a field element is not canonical, or when the cells are not all from one polynomial of degree below 4096 (which is detectable whenever more than 64 cells are given).",
 ["inputs"],"All defective recovery requests: every count, every position of a repeated, out-of-range or inconsistent cell, every element of it.",
 "One vector per kind of defect exists; the position and the number of cells decide which check must catch it.",
 [E+"recovery.rs",E+"serialization.rs",C+"erasure_codes/src/reed_solomon.rs"],
 [("request validation",E+"recovery.rs: validation"),("degree check after decoding",C+"erasure_codes/src/reed_solomon.rs: recover_polynomial_coefficient_erasure_pattern")],
 ["DASContext::recover_cells_and_kzg_proofs"])
p("C10","Only canonical encodings are accepted and only canonical ones are returned",
 "At every place where the interface takes field elements or points (blobs, cells to verify, cells to recover from, commitments, proofs), a field element is accepted exactly when it is a big-endian integer below the group order, and a point exactly when it is the canonical compressed encoding of a point of the prime-order group (identity included); every byte string returned is itself accepted at the matching input.",
 ["inputs"],"All 32-byte strings as field elements at every element position, all 48-byte strings as points.",
 "Tests use one or two non-canonical values; the boundary around the group order, flag combinations and off-group points form a large space, at thousands of positions.",
 [E+"serialization.rs"],
 [("checked scalar and point decoding",E+"serialization.rs: deserialize_bytes_to_scalar, deserialize_compressed_g1")],
 ["all operations of DASContext"])
p("C11","Results do not depend on what the context was used for before",
 "A context is a pure value: the result of an operation (success or failure) depends only on the operation's arguments, whatever sequence of successful, rejected or malformed operations the same context has served before, and for any order of creation and destruction of other contexts.",
 ["histories"],"All finite histories of operations on one or several contexts.",
 "Tests use a context for one vector after another in one order and would not notice a result that leaked from an earlier call unless that order exposed it.",
 [E+"lib.rs",E+"prover.rs",E+"verifier.rs",E+"recovery.rs"],
 [("immutable contexts, per-call buffers",E+"lib.rs: DASContext")],
 ["DASContext"],[("DASContext","the precomputed tables, immutable after construction",E+"lib.rs")])
p("C12","A shared context gives sequential results under every thread schedule",
 "When several threads use one context (or different contexts) at the same time, each operation returns exactly what it would return alone, and all operations finish, under every interleaving of the threads and of the library's own worker threads.",
 ["schedules"],"All interleavings of concurrent operations and worker threads.",
 "No test runs two operations concurrently, and the operating system would sample few schedules if one did.",
 [E+"lib.rs",E+"macros.rs","maybe_rayon/src/multi_threaded.rs",C+"kzg_multi_open/src/fk20/batch_toeplitz.rs"],
 [("operations run inside the context's thread pool",E+"macros.rs: with_optional_threadpool"),("parallel iteration that keeps order","maybe_rayon/src/multi_threaded.rs")],
 ["DASContext shared between threads"])
p("C13","Configuration never changes results",
 "Thread count (single, n, default), precomputation (none or any supported window width) and build flavour (single-threaded, multi-threaded or neither) change speed and memory only: every operation returns byte-identical results and the same success or failure in every configuration.",
 ["configurations","inputs"],"All combinations of build flavour, thread count and window width, for all inputs.",
 "The tests run one build flavour with default settings; the other code paths (window tables, sequential iterators, pool sizes) are compiled but hardly run.",
 [E+"lib.rs",E+"macros.rs","maybe_rayon/src/single_threaded.rs","maybe_rayon/src/multi_threaded.rs",C+"bls12_381/src/fixed_base_msm.rs",C+"bls12_381/src/fixed_base_msm_window.rs"],
 [("choice of MSM strategy",C+"bls12_381/src/fixed_base_msm.rs: FixedBaseMSM"),("feature-selected iteration","maybe_rayon/src/lib.rs")],
 ["DASContext::with_threads","DASContext::new"])
p("C14","The C interface returns what Rust returns and owns memory as documented",
 "For every argument the C functions accept, status, verdict and output bytes are those of the corresponding Rust operation; on error every output buffer is left untouched and an error message is provided, and on success no message is; exactly the documented output bytes are written, no input is modified, and every sequence of calls that frees what it was given leaves nothing allocated. The sizes it publishes are those of the interface.",
 ["inputs","histories"],"All argument combinations (lengths, null pointers for empty lists, valid and invalid content) and call sequences.",
 "The C interface has no tests of its own in the build.",
 ["bindings/c/src/lib.rs","bindings/c/src/pointer_utils.rs","bindings/c/src/compute_cells_and_kzg_proofs.rs","bindings/c/src/recover_cells_and_kzg_proofs.rs","bindings/c/src/verify_cells_and_kzg_proofs_batch.rs","bindings/c/src/blob_to_kzg_commitment.rs"],
 [("pointer conversions","bindings/c/src/pointer_utils.rs"),("result and message ownership","bindings/c/src/lib.rs: CResult")],
 ["eth_kzg_* functions"])
p("C15","The Java interface agrees with the Rust interface",
 "For every argument a Java caller can pass (arrays of any length, negative or huge indices, empty lists), each operation of the Java class returns exactly the bytes or verdict of the Rust operation, or throws a Java exception when the Rust operation or a size check fails; it never crashes the virtual machine, and using a destroyed object throws. Results belong to the caller: later calls do not change them, and changing them changes nothing else; the class of results gives its bytes as the cells and then the proofs, and is equal to exactly those with the same bytes. The sizes it publishes are those of the interface.",
 ["inputs","histories"],"All argument shapes and call sequences from Java.",
 "The Java tests need Gradle and are not part of the build; they replay spec vectors only.",
 ["bindings/java/rust_code/src/lib.rs","bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java"],
 [("array conversions and exception mapping","bindings/java/rust_code/src/lib.rs"),("lifecycle checks","bindings/java/java_code/src/main/java/ethereum/cryptography/LibEthKZG.java")],
 ["ethereum.cryptography.LibEthKZG"])
p("C16","The Node interface agrees with the Rust interface, sync and async",
 "For every argument a JavaScript caller can pass (byte arrays of any length, any BigInt including negative ones and those of 2^64 or more, empty lists), each function returns exactly the bytes or verdict of the Rust operation or throws (rejects) when the Rust operation or a conversion fails; it never aborts the process, never silently alters a number, and asynchronous variants settle with what the synchronous ones give, in any number and order of calls in flight. Results belong to the caller: later calls do not change them, and changing them changes nothing else. The sizes it publishes are those of the interface.",
 ["inputs","schedules"],"All argument shapes; all completion orders of asynchronous calls.",
 "The Node tests need jest and packages that are not there, and replay spec vectors only.",
 ["bindings/node/src/lib.rs"],
 [("conversions","bindings/node/src/lib.rs: bigint_to_u64, slice_to_array_ref")],
 ["DASContextJs"])
p("C17","The Go interface agrees with the Rust interface",
 "For every byte slice, the Go commitment function returns exactly the bytes of the Rust operation and no error, or an error and no commitment when the slice has the wrong size or holds a blob the Rust operation rejects; repeated use leaks nothing and the context stays alive while it is used. Results belong to the caller: later calls do not change them, and changing them changes nothing else. The sizes it publishes are those of the interface.",
 ["inputs","histories"],"All byte slices, any sequence of calls, any point of garbage collection.",
 "Its only test calls it once with a valid blob and ignores the result.",
 ["bindings/golang/prover.go"],
 [("call and result handling","bindings/golang/prover.go: BlobToKZGCommitment")],
 ["eth_kzg.DASContext"])
p("C18","Multi-scalar multiplications compute the exact sum",
 "For every list of points and list of scalars of equal length, including empty lists, identity points, repeated and opposite points and zero or maximal scalars, the variable-base combinations in both groups equal the sum of the individual products, and so do the fixed-base ones for every list of distinct, independent generators and every window width; when the lengths differ the variable-base ones return nothing rather than a wrong sum.",
 ["inputs","configurations"],"All lengths, all points and scalars, all window widths.",
 "The tests compare single random instances of one length and one or a few widths.",
 [C+"bls12_381/src/lincomb.rs",C+"bls12_381/src/fixed_base_msm.rs",C+"bls12_381/src/fixed_base_msm_window.rs",C+"bls12_381/src/booth_encoding.rs"],
 [("identity filtering around blst",C+"bls12_381/src/lincomb.rs"),("signed-window digits",C+"bls12_381/src/booth_encoding.rs")],
 ["g1_lincomb, g2_lincomb, FixedBaseMSM"])
p("C19","Batched addition and inversion equal the one-by-one results",
 "Summing any list (or lists) of non-identity points in one batch gives the sum of the points, for every length and every arrangement of equal points in which no two partial sums are opposite, inverting any list of non-zero field elements in one batch gives each element's inverse in place, and converting any list of points (identities included) to affine form in one batch gives each point's affine form.",
 ["inputs"],"All lengths and arrangements within the documented limits, on both sides of the internal threshold between strategies.",
 "The tests use one length of random points, so odd lengths, small and uneven buckets, and equal neighbours (doublings) at each tree level are not covered.",
 [C+"bls12_381/src/batch_addition.rs",C+"bls12_381/src/batch_inversion.rs"],
 [("binary tree of affine additions",C+"bls12_381/src/batch_addition.rs"),("Montgomery's trick",C+"bls12_381/src/batch_inversion.rs")],
 ["batch_addition_binary_tree_stride, multi_batch_addition_binary_tree_stride, batch_inverse"])
p("C20","FFTs evaluate and interpolate exactly",
 "For every power-of-two domain and every input no longer than it, the forward transform returns the evaluations at the domain's points, the inverse returns the coefficients, the coset variants do the same on any non-zero shift, the group transforms are the same linear maps on points, and a truncated inverse is a prefix of the full one.",
 ["inputs"],"All domain sizes, all vectors, all shifts.",
 "The tests do one or two instances at one size; the transform takes shortcuts on zero, one and minus one, so values matter.",
 [C+"polynomial/src/domain.rs",C+"polynomial/src/fft.rs",C+"polynomial/src/coset_fft.rs"],
 [("in-place radix-2 butterflies",C+"polynomial/src/fft.rs"),("padding, scaling, coset shifts",C+"polynomial/src/domain.rs")],
 ["Domain::{fft,ifft,coset_fft,coset_ifft}_scalars, fft_g1, ifft_g1, ifft_g1_take_n"])
p("C21","Polynomial arithmetic obeys the ring laws and evaluation",
 "Addition, subtraction, negation and multiplication of coefficient vectors of any lengths agree with evaluation at every point, the vanishing polynomial of a list of points is monic of that degree and vanishes exactly on them, and interpolation through two or more distinct points returns the unique polynomial through them.",
 ["inputs"],"All pairs of polynomials, lists of roots and of points.",
 "The tests hold one small instance of each.",
 [C+"polynomial/src/poly_coeff.rs"],
 [("schoolbook arithmetic",C+"polynomial/src/poly_coeff.rs")],
 ["poly_add, poly_sub, poly_neg, poly_mul, poly_eval, vanishing_poly, lagrange_interpolate"])
p("C22","The erasure code corrects every tolerable erasure pattern and detects the rest",
 "For every supported code shape, every message and every set of erased blocks up to the tolerance, decoding returns the message; with an erasure set beyond the tolerance, an invalid block index or a word that no message of the declared length explains it returns an error and never a wrong message; and arranging received cells into evaluation order is a bijection that puts each element at its own domain point.",
 ["inputs","configurations"],"All code shapes, messages and erasure patterns.",
 "The tests erase a few patterns in one or two shapes.",
 [C+"erasure_codes/src/reed_solomon.rs",C+"kzg_multi_open/src/fk20/cosets.rs"],
 [("vanishing polynomial of the erasures and division on a coset",C+"erasure_codes/src/reed_solomon.rs"),("bit-reversal placement",C+"kzg_multi_open/src/fk20/cosets.rs")],
 ["ReedSolomon, recover_evaluations_in_domain_order"])
p("C23","The multi-opening scheme is correct and sound at every parameter choice",
 "For every supported combination of polynomial length, cell size and number of opened points, the prover's commitments, evaluations and proofs are exactly those of the definition for every polynomial, and the verifier accepts a batch exactly when every item in it is true.",
 ["inputs","configurations"],"All parameter combinations, all polynomials and all batches.",
 "The tests use one parameter set and a few polynomials; index arithmetic that is right for one ratio of sizes may be wrong for another.",
 [C+"kzg_multi_open/src/fk20/prover.rs",C+"kzg_multi_open/src/fk20/verifier.rs",C+"kzg_multi_open/src/fk20/h_poly.rs",C+"kzg_multi_open/src/fk20/toeplitz.rs",C+"kzg_multi_open/src/verification_key.rs"],
 [("FK20 prover",C+"kzg_multi_open/src/fk20/prover.rs"),("batch verifier",C+"kzg_multi_open/src/fk20/verifier.rs")],
 ["kzg_multi_open::{Prover, Verifier}"])
p("C24","Trusted setups are loaded faithfully and bad ones are refused",
 "The embedded setup is the public ceremony's (consistent powers of one secret in both groups, its Lagrange form matching), a setup given as text yields a context that behaves as the setup's points dictate, and checked loading refuses every text that is malformed or holds, at any position the library uses, a point that is off the curve, outside the prime-order group or wrongly encoded.",
 ["inputs","configurations"],"All setup texts; all positions of a bad point.",
 "The tests only check that the embedded setup's points are in the group.",
 [E+"trusted_setup.rs","eip7594/data/trusted_setup_4096.json"],
 [("parsing and subgroup validation",E+"trusted_setup.rs: from_json, validate_trusted_setup")],
 ["TrustedSetup::from_json, TrustedSetup::from_json_unchecked, TrustedSetup::default"])
p("C25","The C# and Nim interfaces agree with the Rust interface",
 "For every argument a C# or Nim caller can pass, each operation returns exactly the bytes or verdict of the Rust operation, or raises the language's error when the Rust operation or a size check fails, and never reads or writes outside the caller's buffers.",
 ["inputs","histories"],"All argument shapes and call sequences from C# and Nim.",
 "Their tests need toolchains that are not part of the build and replay spec vectors only.",
 ["bindings/csharp/csharp_code/EthKZG.bindings/ethkzg.cs","bindings/nim/nim_code/nim_eth_kzg/nim_eth_kzg.nim"],
 [("buffer pinning and result mapping","bindings/csharp/csharp_code"),("pointer conversions","bindings/nim/nim_code")],
 ["EthKZG class, nim_eth_kzg module"])
p("C26","Commitment keys, pairing checks and scalar reduction follow their definitions",
 "For every key of points and every polynomial no longer than it, committing in either group gives the sum of coefficient times point; a pairing check on any list of pairs, including none and pairs with an identity, succeeds exactly when the product of the pairings is one; and any 32 bytes read with reduction give the big-endian integer modulo the group order.",
 ["inputs"],"All keys and polynomials, all lists of pairs, all 32-byte strings.",
 "The tests commit to a few polynomials, never call the pairing check alone, and reduce six byte strings.",
 [C+"kzg_multi_open/src/commit_key.rs",C+"kzg_multi_open/src/verification_key.rs",C+"bls12_381/src/lib.rs"],
 [("commitment to a polynomial",C+"kzg_multi_open/src/commit_key.rs: commit_g1"),("product of pairings",C+"bls12_381/src/lib.rs: multi_pairings"),("reduction of the challenge's bytes",C+"bls12_381/src/lib.rs: reduce_bytes_to_scalar_bias")],
 ["CommitKey::commit_g1, VerificationKey::commit_g1, commit_g2, multi_pairings, reduce_bytes_to_scalar_bias"])
import os
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        for fl in x["anchors"]["files"]:
            if not os.path.exists("/repo/"+fl): print("missing",x["id"],fl)
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
