#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["decrypted slots of every result"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Decrypting an encryption returns the message",
 "For every party, every message and every supported level and plaintext scale, encrypting under the party's public key and decrypting with its secret key returns the message: exactly modulo the plaintext modulus in the integer scheme, within a small error in every slot in the approximate scheme. This holds for both ways of encrypting (a message, or an already encoded plaintext), for uniform, sparse and Gaussian secret keys, for any party name other than the reserved one, and for messages shorter than the slot count (the missing slots read as zero). The result involves exactly the encrypting party.",
 ["inputs", "configurations"], "all messages (including the extreme representable values), party names, key distributions, levels and plaintext scales",
 "The tests encrypt a few random messages of full length at the top level, under names user0..userN, with uniform keys at two ring sizes.",
 ["mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkrlwe/keygen.go", "mkckks/encryptor.go", "mkckks/decryptor.go", "mkbfv/encryptor.go", "mkbfv/decryptor.go"],
 [("public-key encryption c0=u*pk0+e0+m, c_id=u*pk1+e1", "mkrlwe/encryptor.go Encrypt"), ("phase computation", "mkrlwe/decryptor.go PartialDecrypt/Decrypt"), ("public key b=-a*s+e on the common reference string", "mkrlwe/keygen.go GenPublicKey")],
 ["decrypted message", "party set, level and scale of the ciphertext"])

prop("C02", "Addition and subtraction are slot-wise for any mix of parties",
 "Decrypting the sum (difference) of two ciphertexts gives the slot-wise sum (difference) of their messages, whatever the relation between the two party sets: equal, nested, overlapping, disjoint, or involving no party at all. In the approximate scheme this also holds for operands of different levels and for operands whose scales differ by an integer factor: the result has the lower level and the larger scale. The operands may be the same object.",
 ["inputs", "programs", "configurations"], "all pairs of ciphertexts reachable by the API: any party sets, levels, integer scale ratios, message values",
 "The tests only add and subtract integer-scheme ciphertexts at one level; addition in the approximate scheme, level or scale mismatches and one-sided party sets are never exercised.",
 ["mkckks/evaluator.go", "mkbfv/evaluator.go"],
 [("component-wise evaluation over the union of party sets, copy/negate one-sided components", "mkckks/evaluator.go evaluateInPlace, sub"), ("same for the integer scheme", "mkbfv/evaluator.go evaluateInPlace, sub"), ("scale alignment by an integer constant", "mkckks/evaluator.go evaluateInPlace/MultByConst")])

prop("C03", "Multiplication with relinearization is slot-wise for any mix of parties",
 "Decrypting the product of two ciphertexts gives the slot-wise product of their messages (modulo the plaintext modulus in the integer scheme), for any relation between the party sets, any operand order, squares of one object and products of equal copies, and operands of different levels. The product is an ordinary ciphertext again: one component per party of the union plus the constant part, so products of products, and products of rotated, conjugated, added or scaled ciphertexts, decrypt correctly as long as levels and noise budget last.",
 ["inputs", "programs", "configurations"], "all operand pairs reachable by the API and all numbers of parties",
 "The tests only square a sum of all parties' ciphertexts with itself, for 2 and 4 parties at the top level.",
 ["mkrlwe/keyswitch_hoisted.go", "mkrlwe/keyswitch.go", "mkckks/evaluator.go", "mkbfv/evaluator.go", "mkbfv/keyswitch.go", "mkbfv/keyswitch_hoisted.go", "mkbfv/basis_extension.go", "mkrlwe/keygen.go", "mkbfv/keygen.go"],
 [("multi-key relinearization (x,y vectors, external products with v and u)", "mkrlwe/keyswitch_hoisted.go MulAndRelinHoisted"), ("integer-scheme variant over the extended basis", "mkbfv/keyswitch_hoisted.go MulAndRelinBFVHoisted"), ("tensor product scaling", "mkbfv/basis_extension.go Quantize/Rescale/ModUpQtoR")])

prop("C04", "Rotation shifts slots left by the requested amount, for every integer",
 "Rotating a ciphertext by any integer amount, negative, zero, or beyond the number of columns, decrypts to the message shifted cyclically to the left by that amount (each of the two rows separately in the integer scheme), at every level and for every party set. Amounts with a dedicated common reference use the dedicated keys; all others are composed of power-of-two rotations with the same result, so rotations compose additively and the opposite rotation undoes one. The party set, level and scale are unchanged.",
 ["inputs", "programs", "configurations"], "all integers as rotation amounts, all sets of generated rotation keys, all levels and party sets",
 "No passing test rotates a ciphertext of the approximate or the integer scheme.",
 ["mkrlwe/keyswitch.go", "mkrlwe/keygen.go", "mkckks/evaluator.go", "mkbfv/evaluator.go"],
 [("index normalization and power-of-two composition", "mkckks/evaluator.go rotate, mkbfv/evaluator.go rotate"), ("key switch then automorphism", "mkrlwe/keyswitch.go Rotate"), ("rotation key under the inverse automorphism", "mkrlwe/keygen.go GenRotationKey")])

prop("C05", "Conjugation conjugates every slot (swaps rows), at every level",
 "Conjugating a ciphertext decrypts to the complex conjugate of every slot in the approximate scheme, and to the message with its two rows exchanged in the integer scheme. It does so at every level and for every party set, keeps party set, level and scale, and applying it twice restores the message.",
 ["inputs", "programs", "configurations"], "all ciphertexts, levels and party sets",
 "No passing test conjugates a ciphertext, and none works below the top level.",
 ["mkrlwe/keyswitch.go", "mkrlwe/keygen.go", "mkckks/evaluator.go", "mkbfv/evaluator.go"],
 [("automorphism then key switch on each component", "mkrlwe/keyswitch.go Conjugate"), ("conjugation key", "mkrlwe/keygen.go GenConjugationKey")])

prop("C06", "Hoisted evaluation agrees with plain evaluation",
 "Multiplying or rotating with precomputed hoisted forms decrypts to the same result as the plain operation, whichever of the two multiplication operands is given in hoisted form, and however often a hoisted form is reused, also after other operations in between. A hoisted form can be used against a partner of any level, and computing it changes nothing else. The plain and the hoisted key-switching primitives agree likewise in both schemes.",
 ["programs", "histories", "inputs"], "all ways of mixing hoisted and plain operands, all reuse patterns, levels and party sets",
 "No passing test uses a hoisted form directly, mixes hoisted and plain operands, or reuses one.",
 ["mkrlwe/keyswitch_hoisted.go", "mkrlwe/keyswitch.go", "mkckks/evaluator.go", "mkbfv/keyswitch_hoisted.go", "mkbfv/keyswitch.go"],
 [("hoisted products and rotations", "mkrlwe/keyswitch_hoisted.go"), ("hoisted form computation", "mkckks/evaluator.go HoistedForm"), ("plain counterparts", "mkrlwe/keyswitch.go, mkbfv/keyswitch.go")])

prop("C07", "Operations change nothing but their result",
 "An operation that returns a new ciphertext leaves its operand ciphertexts, hoisted forms, plaintexts, messages, keys, key registries' contents and common reference strings bit for bit as they were, also when it is refused; an in-place operation changes only the ciphertext it is documented to change. Results share no storage with operands, keys or library-internal scratch space: overwriting a result, or continuing to use the library, never alters any other ciphertext, copy or message obtained before.",
 ["programs", "histories"], "all operations and all later uses of their operands and results",
 "The tests use each operand once and never compare it before and after, nor overwrite a result.",
 ["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/elements.go", "mkrlwe/keys.go", "mkrlwe/decryptor.go", "mkrlwe/keyswitch.go"],
 [("fresh output allocation", "mkckks/evaluator.go newCiphertextBinary, mkbfv/evaluator.go newCiphertextBinary"), ("deep copies", "mkrlwe/elements.go CopyNew, mkrlwe/keys.go CopyNew"), ("decrypting a copy", "mkrlwe/decryptor.go Decrypt")],
 ["bitwise fingerprints of all live objects before and after each call"])

prop("C08", "Long-lived contexts do not remember earlier calls",
 "The outcome of a call on a key generator, encryptor, evaluator or decryptor depends only on its arguments and on the keys and references it is given: after any history of earlier calls, with other parties, party counts, levels, scales or messages, including calls that were refused, a reused context gives the same decrypted result as a fresh one. The same holds for key registries that embed scratch space and are reused across calls or whose entries were replaced.",
 ["histories", "fault_sequences"], "all sequences of earlier calls on shared contexts and registries",
 "Each test runs one short fixed sequence on a context; stale scratch space left by bigger, higher-level, or failed calls is never provoked.",
 ["mkckks/evaluator.go", "mkckks/decryptor.go", "mkckks/encryptor.go", "mkbfv/evaluator.go", "mkbfv/keys.go", "mkrlwe/keyswitch.go", "mkrlwe/keys.go", "mkrlwe/basis_extension.go"],
 [("scratch pools fully rewritten before use", "mkckks/evaluator.go ctxtPool/polyQPool, mkrlwe/keyswitch.go swkPool*/polyQPool"), ("relinearization registry scratch", "mkrlwe/keys.go HoistPool, mkbfv/keys.go PolyRPool*"), ("plaintext pools", "mkckks/decryptor.go ptxtPool, mkckks/encryptor.go ptxtPool")],
 ["decrypted results of the reused context against a fresh one"],
 [("scratch pools", "temporary polynomials kept between calls", "Evaluator, KeySwitcher, Encryptor, Decryptor, RelinearizationKeySet")])

prop("C09", "Levels and scales follow the documented accounting",
 "In the approximate scheme a result's level and scale are determined by its operands: dropping k levels lowers the level by exactly k and keeps the value and scale; addition takes the lower level and larger scale; multiplication takes the lower level and the product of the scales and then drops levels, dividing the scale by the corresponding primes, while the scale stays at least half the default one. Rescaling to a target follows the same rule for any target, leaves value and ciphertext as they are when no division is due, never goes below level zero, and refuses a non-positive target, a zero scale and a level-zero input. Encryption yields the lower of the plaintext's and the receiver's level and the plaintext's scale.",
 ["programs", "inputs", "configurations"], "all sequences of level- and scale-changing operations, all targets and prime chains",
 "The tests never drop or rescale explicitly, mix levels, or use a scale other than the default.",
 ["mkckks/evaluator.go", "mkckks/elements.go", "mkrlwe/encryptor.go", "mkckks/encryptor.go"],
 [("rescaling loop", "mkckks/evaluator.go Rescale"), ("level alignment", "mkckks/evaluator.go DropLevel, evaluateInPlace, mulRelinHoisted"), ("encryption level", "mkrlwe/encryptor.go Encrypt")],
 ["level and scale of every result, decrypted value"])

prop("C10", "Distributed decryption is independent of order",
 "Removing the parties of a ciphertext one by one by partial decryption, in any order and interleaved with joint decryption of copies at any intermediate point, yields the same message as joint decryption. Each step removes exactly the acting party from the party set, keeps the level, scale and the value, and the ciphertext reached after all parties acted decrypts without any key.",
 ["schedules", "inputs"], "all orders in which the parties act, on any ciphertext at any level",
 "No passing test decrypts partially; joint decryption visits the parties in one arbitrary order.",
 ["mkrlwe/decryptor.go", "mkckks/decryptor.go", "mkbfv/decryptor.go"],
 [("partial decryption folds one component into the constant part", "mkrlwe/decryptor.go PartialDecrypt"), ("joint decryption over a key set", "mkrlwe/decryptor.go Decrypt, mkbfv/decryptor.go Decrypt")])

prop("C11", "Decryption needs every involved party's key, and only those",
 "Decryption with a key set that lacks the key of any involved party is refused, in both schemes, and leaves ciphertext and key set untouched. Keys of parties that are not involved never change the result. A key that is not the one the ciphertext was made for (another party's material, or an earlier or later key of the same party) does not give the message.",
 ["inputs", "histories"], "all ciphertexts and all key sets, complete, incomplete, oversized or outdated",
 "The tests always decrypt with the complete set of current keys.",
 ["mkrlwe/decryptor.go", "mkckks/decryptor.go", "mkbfv/decryptor.go", "mkrlwe/keys.go"],
 [("missing key check", "mkrlwe/decryptor.go Decrypt, mkbfv/decryptor.go Decrypt")],
 ["outcome (message or refusal) of decryption"])

prop("C12", "Key registries return exactly the latest registered key",
 "For every history of registrations, replacements and deletions, looking up a party (and rotation amount) in a registry of secret, public, relinearization, rotation or conjugation keys returns the last key registered for it and not deleted since, and is refused when there is none; other entries are unaffected. Operations that need an absent evaluation key of an involved party are refused and never return a result; keys of uninvolved parties are not needed. The default rotation keys registered for a party are exactly those for the powers of two below the number of columns.",
 ["histories"], "all sequences of add, delete, replace and lookup, and operations interleaved with them",
 "The tests fill each registry once and never delete, replace, or miss a key.",
 ["mkrlwe/keys.go", "mkbfv/keys.go", "mkrlwe/keygen.go", "mkrlwe/keyswitch.go"],
 [("registry maps", "mkrlwe/keys.go Add*/Get*/Del*"), ("integer-scheme relinearization registry", "mkbfv/keys.go"), ("default rotation keys", "mkrlwe/keygen.go GenDefaultRotationKeys")],
 ["identity of the looked-up key, refusals"])

prop("C13", "Party sets and ciphertext containers behave as sets and values",
 "Party sets obey set algebra: membership, insertion, removal, size, copy, union and intersection, with copies, unions and intersections independent of their sources, and the reserved name of the constant part is always rejected. A ciphertext's party set is always exactly that of the parties whose keys decryption needs: the union of the operands' sets after binary operations, unchanged after unary ones. Padding a ciphertext with further parties keeps its value, level, scale and existing components, and copies are equal and independent.",
 ["programs", "inputs"], "all sets of names and all ciphertexts, including empty sets and unusual names",
 "There is no test of the set type, padding or copying; results' party sets are never inspected.",
 ["mkrlwe/idset.go", "mkrlwe/elements.go", "mkckks/elements.go", "mkbfv/elements.go"],
 [("set operations", "mkrlwe/idset.go"), ("party set, padding, copying", "mkrlwe/elements.go IDSet/PadCiphertext/CopyNew/Copy")],
 ["set contents, party sets of results"])

prop("C14", "Independently generated keys interoperate through the common reference",
 "Parties that generate all their keys separately, each with its own generator, in any order and at any time, and share only the parameters, can compute jointly on their ciphertexts at once, and parties can join later or renew their keys without any other party regenerating anything. A common reference added for a rotation amount serves all parties alike and leaves every key and result based on other references valid. References for different purposes are independent random values.",
 ["histories", "schedules"], "all orders of key generation, joining, renewal and reference addition over any number of parties",
 "The tests create all parties up front with one generator, before any ciphertext exists, and never add a reference.",
 ["mkrlwe/params.go", "mkrlwe/keygen.go", "mkbfv/keygen.go", "mkbfv/params.go"],
 [("common reference strings per purpose", "mkrlwe/params.go NewParameters/AddCRS"), ("keys derived from the common reference", "mkrlwe/keygen.go, mkbfv/keygen.go")],
 ["decrypted results of joint computations"])

prop("C15", "Encryption and key noise is fresh, non-zero and of the configured size",
 "Every encryption and every key generation draws fresh randomness: encrypting one message twice, generating two keys, or adding two references never repeats a value, across contexts and over any history. The noise in fresh ciphertexts and in every generated key is non-zero, has the configured standard deviation and never exceeds what its truncation allows; secret keys are ternary with the requested density or weight.",
 ["histories", "inputs", "configurations"], "all encryptions and key generations over the life of a context",
 "Tests only check that decryption works, which it does just as well with missing, repeated or tenfold noise.",
 ["mkrlwe/encryptor.go", "mkrlwe/keygen.go", "mkrlwe/params.go", "mkbfv/keygen.go"],
 [("samplers seeded per context", "mkrlwe/encryptor.go newEncryptorBase, mkrlwe/keygen.go NewKeyGenerator"), ("error terms", "mkrlwe/encryptor.go Encrypt, mkrlwe/keygen.go GenGaussianError/GenSwitchingKey/GenPublicKey")],
 ["noise measured with the secret keys, fingerprints of random values"])

prop("C16", "Correctness does not depend on the shape of the parameters",
 "Every operation is correct for every valid parameter shape: ring degrees from the smallest supported, any number of ciphertext primes (also not a multiple of the decomposition width), any number of special primes from two up to the thirty-two the underlying ring library converts from, any prime sizes it supports (to 61 bits), any slot count up to half the degree, any default scale and any plaintext modulus that supports batching. In particular the decomposition width derived from the number of special primes may be one, two, three or more, and every level from the top to zero works.",
 ["configurations"], "all valid parameter sets (integer scheme: prime count a multiple of the decomposition width)",
 "The tests use one or two parameter sets per scheme, all with decomposition width one and full packing.",
 ["mkrlwe/params.go", "mkrlwe/basis_extension.go", "mkrlwe/keygen.go", "mkrlwe/keyswitch.go", "mkckks/params.go", "mkbfv/params.go", "mkbfv/keygen.go", "mkbfv/keyswitch.go"],
 [("decomposition width and count", "mkrlwe/params.go Alpha/Beta"), ("RNS decomposition", "mkrlwe/basis_extension.go Decomposer"), ("gadget in switching keys", "mkrlwe/keygen.go GenSwitchingKey, mkbfv/keygen.go GenBFVSwitchingKey")])

prop("C17", "Modulus conversions and digit decomposition are exact",
 "Extending a value from one set of primes to another preserves the integer it represents (up to the documented multiple of the source modulus); dividing by the special primes gives the integer quotient up to one unit in every coefficient, in either direction and representation. Decomposing a polynomial into digits and recombining them with the gadget gives the polynomial back, each digit staying below the product of the primes of its block; this holds for every level, block width and polynomial, including all-zero, all-one and maximal coefficients. The external product of a polynomial with a gadget encryption is the product with the encrypted value up to key-switching noise.",
 ["inputs", "configurations"], "all polynomials, prime sets, levels and block widths",
 "The tests decompose random polynomials at the top level with block width one only; the conversions are not tested by themselves.",
 ["mkrlwe/basis_extension.go", "mkrlwe/keyswitch.go", "mkbfv/basis_extension.go"],
 [("basis extension", "mkrlwe/basis_extension.go ModUp*/modUpExact"), ("division by the special modulus", "mkrlwe/basis_extension.go ModDown*"), ("digit decomposition", "mkrlwe/basis_extension.go DecomposeAndSplit, mkrlwe/keyswitch.go Decompose/ExternalProduct")],
 ["residues of inputs and outputs"])

prop("C18", "Separate contexts can be used concurrently",
 "Key generators, encryptors, evaluators and decryptors created from the same parameters, one per thread, can run concurrently, sharing parameters, keys, registries, ciphertexts, plaintexts and hoisted forms for reading: under every interleaving each call gives the result it would give alone, and no data race occurs.",
 ["schedules"], "all interleavings of calls on separate contexts that share read-only data",
 "The tests are single-threaded and never run under the race detector.",
 ["mkrlwe/params.go", "mkrlwe/keyswitch.go", "mkckks/evaluator.go", "mkbfv/evaluator.go", "mkbfv/keyswitch.go", "mkrlwe/basis_extension.go", "mkrlwe/keys.go", "mkbfv/keys.go"],
 [("per-context scratch pools", "mkrlwe/keyswitch.go NewKeySwitcher, mkrlwe/basis_extension.go NewFastBasisExtender/NewDecomposer, mkbfv/keyswitch.go NewKeySwitcher")],
 ["decrypted results per thread, race detector reports"],
 [("scratch pools", "temporary space per context", "KeySwitcher, Evaluator, Decryptor; HoistPool in relinearization registries")])

prop("C19", "Encrypted neural-network layers compute their plaintext counterparts",
 "The convolution layer returns the kernel-wise products of the image rotated by the four kernel offsets, summed and folded over the two channel strides; the first dense layer returns the sum of the input rotated by multiples of its stride times the matrix diagonals, folded over the stride, plus the bias; the second dense layer masks and spreads the input, multiplies, folds over its stride and adds the bias. Each equals the same computation on the plaintext slots for every image, weight and bias, for any number of matrix diagonals, and whether data and model belong to the same party or different ones.",
 ["inputs", "configurations"], "all images, kernels, matrices, masks, biases and owners",
 "The layer tests do not compile, and need a data file that is missing.",
 ["cnn/cnn.go"],
 [("convolution by hoisted rotations", "cnn/cnn.go Convolution"), ("dense layers by rotate-and-sum", "cnn/cnn.go FC1Layer/FC2Layer")])

prop("C20", "Multiplication by constants and plaintexts is slot-wise",
 "Multiplying a ciphertext by an integer, real or complex constant multiplies every slot by it: integers keep the scale, constants with a fractional part multiply the scale by the prime of the current level, for negative, zero and large values and for receivers that are the operand itself. Multiplying by an encoded plaintext multiplies slot by slot, at every level of the ciphertext and for any plaintext scale, and then rescales as a product does.",
 ["inputs", "programs"], "all constants of the documented types, all plaintexts, levels and scales",
 "No passing test multiplies by a constant or a plaintext.",
 ["mkckks/evaluator.go", "mkckks/utils.go", "mkckks/encryptor.go"],
 [("constant scaling", "mkckks/evaluator.go MultByConst/getConstAndScale, mkckks/utils.go scaleUpExact"), ("plaintext product", "mkckks/evaluator.go MulPtxtNew")])

prop("C21", "Generated keys satisfy their defining relations",
 "Every generated key satisfies its defining equation over the full modulus with noise only: the public key on the party's secret and the common reference; each row of the relinearization key's three parts on the secret, its auxiliary secret and the two references; rotation and conjugation keys on the secret and its image under the corresponding automorphism; and the integer scheme's pair of relinearization keys on its scaled gadget. This holds for every party, rotation amount with a reference, secret key distribution and parameter shape, and keys are tagged with their party and amount.",
 ["inputs", "configurations"], "all secret keys, rotation amounts and parameter shapes",
 "Tests check the relations of the relinearization key for one shape, and no other key's.",
 ["mkrlwe/keygen.go", "mkbfv/keygen.go", "mkrlwe/params.go"],
 [("relinearization key", "mkrlwe/keygen.go GenRelinearizationKey, mkbfv/keygen.go GenRelinearizationKey"), ("rotation and conjugation keys", "mkrlwe/keygen.go GenRotationKey/GenConjugationKey"), ("gadget", "mkrlwe/keygen.go GenSwitchingKey, mkbfv/keygen.go GenBFVSwitchingKey")],
 ["key material evaluated with the secret keys"])

prop("C22", "Operations add no more error than their parameters explain",
 "The error of a ciphertext (what separates its decryption phase from the exact encoding of the correct slots at the ciphertext's scale) grows only as each operation explains: padding, copying, dropping levels and partial decryption add nothing; additions add the operands' errors; products scale each operand's error by the size of the other operand; rescaling divides it; constants and plaintexts scale it; rotations, conjugations and relinearization add key-switching noise, which depends on the parameters and the number of parties only. This holds at every level, for every scale, parameter shape and number of parties, in both schemes, so the precision promised by the parameters is kept over every program.",
 ["inputs", "programs", "configurations"], "all programs and the error of every intermediate result",
 "Tests check that a few decrypted slots are within a loose tolerance after one operation; the size of the error is printed, not judged.",
 ["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keyswitch.go", "mkbfv/keyswitch.go", "mkrlwe/basis_extension.go", "mkbfv/basis_extension.go"],
 [("scale management", "mkckks/evaluator.go"), ("key switching and division by the special modulus", "mkrlwe/keyswitch.go ExternalProduct, mkrlwe/basis_extension.go ModDown*"), ("scaling by t/Q", "mkbfv/basis_extension.go Quantize")],
 ["phase of every result, computed with the secret keys"])
prop("C23", "Ciphertexts reveal nothing without the keys",
 "No efficient adversary learns anything about the messages of parties whose secret keys it does not hold from ciphertexts, public and evaluation keys and references.",
 ["inputs", "histories"], "all adversaries", "A test cannot quantify over adversaries.",
 ["mkrlwe/encryptor.go", "mkrlwe/keygen.go"], [("ring learning with errors", "mkrlwe/encryptor.go, mkrlwe/keygen.go")])
prop("C24", "Generic encryption matches every representation and level",
 "The generic layer's encryptor and decryptor agree for every combination of representation (coefficients or NTT) and level of plaintext and ciphertext, for new and reused ciphertexts and plaintexts and any contexts: encrypting and then decrypting gives the plaintext plus bounded noise, at the lower of the two levels, in the representation the ciphertext or plaintext asks for. Encryption into a ciphertext leaves only the encrypting party's component and the constant part. Decryption is refused exactly when a needed secret key is missing, partial decryption folds exactly the given party's component into the constant part, and no call changes its inputs.",
 ["inputs", "histories"], "all combinations of representation, level, object reuse and context, over any history of calls",
 "The tests use the generic layer through the two schemes only, each with one representation and the top level.",
 ["mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkrlwe/elements.go"],
 [("encryption in either representation", "mkrlwe/encryptor.go Encrypt/EncryptNew"), ("decryption and partial decryption in either representation", "mkrlwe/decryptor.go Decrypt/PartialDecrypt")],
 ["phase of every ciphertext, decrypted plaintexts"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
