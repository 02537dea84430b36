#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=None, na=None, note=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, observe=observe, state=state, na=na, note=note, tech=tech))

BP, IP, GR, BU = "bulletproofs/bp.go", "bulletproofs/bip.go", "bulletproofs/bprp.go", "bulletproofs/util.go"
CC, UT, BB = "ccs08/ccs08.go", "util/util.go", "crypto/bbsignatures/bb.go"

p("C01", "Bulletproof completeness",
  "For every range [0, 2^N) the setup accepts, every secret inside it and every outcome of the random draws, proving succeeds and the resulting proof is accepted by verification. The commitment published in the proof is the Pedersen commitment to that secret.",
  "every secret in [0,2^N), every blinding factor, every random draw and every challenge the hash can produce, N = 1..32",
  "The tests prove a handful of secrets with whatever randomness the machine produces; they cannot reach the secrets, draws or challenges for which one term of the verification equations is wrong.",
  [BP, IP, BU], [("Prove/prove", BP), ("Verify", BP), ("computeLR, delta, CommitVector", BP)], ["Prove", "BulletProof.Verify"])
p("C02", "Bulletproof range exclusion",
  "The prover cannot be used to produce an accepted proof for a secret outside [0, 2^N): whatever integer (negative or too large) it is given, either proving fails or the proof is rejected. This holds for every random draw and challenge.",
  "every integer secret with |secret| < group order outside [0,2^N), all draws, all challenges, N = 1..32",
  "The tests try a few out-of-range secrets; an off-by-one at the edge, or acceptance of secrets congruent to a valid one, needs all integers.",
  [BP, IP, "bulletproofs/vector.go", "util/bn/bn.go"], [("Decompose", UT), ("Verify", BP)], ["Prove", "BulletProof.Verify"])
p("C03", "Bulletproof verification is exact",
  "Verification accepts a proof exactly when the two verification equations and the inner-product argument of the published protocol hold for the commitment, messages and scalars in it, with challenges recomputed from the transcript. Changing any single component of an accepted proof makes it rejected, and verification never accepts because a part of the proof was not looked at.",
  "every tuple of group elements and scalars making up a proof, every challenge, N = 1..32 and every length of the inner-product messages up to the right one",
  "Tests verify honest proofs and one or two corruptions; soundness quantifies over all adversarial proofs.",
  [BP, IP, BU], [("BulletProof.Verify", BP), ("InnerProductProof.Verify", IP)], ["BulletProof.Verify"])
p("C04", "Inner-product argument complete and exact",
  "A proof of the inner product of two vectors verifies whenever the claimed value is their inner product, is never accepted when it is not, and verification accepts exactly when the recursive folding equation holds with recomputed challenges. A proof with too few or too many rounds is rejected.",
  "all vectors, generators, claimed values, messages and challenges, for N = 1, 2, 4, 8 (16 thorough)",
  "The one test uses N=4 and a fixed vector; the equation must hold for all vectors and all adversarial messages.",
  [IP, "bulletproofs/vector.go"], [("proveInnerProduct, computeBipRecursive", IP), ("InnerProductProof.Verify", IP)], ["proveInnerProduct", "InnerProductProof.Verify"])
p("C05", "Generic range proof: exactly the interval [a, b)",
  "A generic range proof for a secret in [a, b) always verifies, and no secret below a or not below b gets an accepted proof, for every interval whose width fits the configured maximum and for negative or large ends alike. This holds for all random draws.",
  "all int64 intervals up to the maximal width, all secrets, all draws, range end 2^N for N = 1, 4, 32",
  "Tests use one interval and a few secrets; boundaries and the reduction to two power-of-two ranges must be right for every interval.",
  [GR, BP], [("ProveGeneric", GR), ("ProofBPRP.Verify", GR)], ["ProveGeneric", "ProofBPRP.Verify"])
p("C06", "Generic range proof: both halves about one secret and interval",
  "An accepted generic range proof consists of two valid proofs whose commitments are to secret-b+2^N and secret-a for one and the same secret, with the interval ends that the verifier is told. Halves taken from proofs for different secrets, proofs presented for another interval and proofs with one invalid half are all rejected.",
  "all pairs of secrets, all intervals and all draws; either half replaced",
  "No test combines parts of different proofs; a missing link between the halves is invisible to honest runs.",
  [GR], [("ProofBPRP.Verify", GR)], ["ProofBPRP.Verify"])
p("C07", "Proving and verifying leave their inputs alone",
  "Verifying a proof does not modify the proof, the parameters or any other argument, so it can be repeated with the same answer; proving does not modify the secret or the parameters. This covers all proof types.",
  "all secrets, draws and challenges for range proofs, inner-product proofs, generic range proofs, set membership and [0,u^l) proofs",
  "Tests verify each proof once and never compare the inputs afterwards.",
  [BP, IP, GR, CC], [("Verify methods", BP), ("VerifySet, VerifyUL", CC)], ["Verify", "VerifySet", "VerifyUL"], over=("inputs", "histories"))
p("C08", "Bulletproof challenges bind every earlier message",
  "The challenges the verifier uses are recomputed by hashing every message the prover has sent before them, the value commitment included, and the prover uses the same ones. Altering any earlier message changes the challenges, and no proof value chosen after the challenge can be traded for one before it.",
  "all honest transcripts with every message symbolic, the rounds of the inner product argument included; every single-component change of a proof",
  "Honest runs verify even if a message is left out of the hash; only a quantification over forged messages shows the difference.",
  [BP, BU, IP], [("HashBP", BU), ("hashIP", IP), ("challenge computation", BP)], ["Prove", "BulletProof.Verify"])
p("C09", "Bulletproofs are zero-knowledge masked",
  "Everything a range proof publishes about the secret is masked by fresh independent uniform randomness: for every secret, every challenge and every other secret there is exactly one choice of the random draws that produces the same published values. No draw is reused or left out.",
  "all draws and all nonzero challenges for N = 1 (every value determined, all pairs of secrets, all generators, the generic proof of both halves too) and N = 2, 4, 8 (no two choices of draws publish the same)",
  "A test cannot observe that a value is insufficiently random: proofs verify all the same.",
  [BP, UT], [("blinding of A, S, T1, T2, taux, mu, l, r", BP)], ["Prove"])
p("C10", "Set membership: exactly the elements",
  "Every element of the set for which parameters were set up can be proved and the proof verifies (for every non-zero blinding exponent drawn); for any integer not in the set no proof is produced. Setup either yields such parameters or reports an error.",
  "all elements and non-elements (all int64), all signing keys, draws and challenges; sets of up to four elements including negative, repeated and extreme ones",
  "Tests use one set and two values; keys that cannot sign an element and neighbouring values are out of reach.",
  [CC, BB], [("SetupSet", CC), ("ProveSet, VerifySet", CC)], ["SetupSet", "ProveSet", "VerifySet"])
p("C11", "Proofs for [0, u^l): exactly the interval",
  "Every secret in [0, u^l) can be proved and the proof verifies, for all draws (blinding exponents not zero), challenges and blinding factors; a secret outside that interval, negative ones included, never yields an accepted proof.",
  "all secrets, keys, draws, challenges; (u,l) from (2,1) to (57,11) and (3,40) (57,22 thorough); exclusion for (2,1..2), (3,2), (57,5), (57,11)",
  "Tests use one or two secrets; digit decomposition at the edges must be right for all.",
  [CC, BB, "util/bn/bn.go"], [("ProveUL, VerifyUL", CC), ("Decompose", UT)], ["SetupUL", "ProveUL", "VerifyUL"])
p("C12", "Signature-based verification is exact and recomputes the challenge",
  "Verification of set membership and [0, u^l) proofs accepts exactly when the proof satisfies the published equations for a challenge that is the hash of all first messages and the commitment, and contains no blinded signature at infinity (which would satisfy the equations for any value). Simulated proofs for a chosen challenge are rejected and changing any component of an accepted proof makes it rejected.",
  "all tuples of scalars and group elements, all hash outputs; u^l in {2^2, 3^3}, sets of 1 and 4 elements",
  "Honest tests cannot show that a forged proof is rejected; soundness quantifies over all of them.",
  [CC, UT], [("VerifySet", CC), ("VerifyUL", CC), ("challenge", UT)], ["VerifySet", "VerifyUL"])
p("C13", "Signature-based range proofs for [a, b)",
  "For every interval the setup accepts, secrets in [a, b) get an accepted proof and secrets outside never do; the two parts of an accepted proof are valid and are about the same secret. The setup refuses inverted intervals and otherwise provides enough digits for the width of the interval.",
  "all intervals of int64 limits (setup), all secrets and draws for u^l = 2^2 and four concrete intervals (up to ten digits)",
  "Tests use one interval; narrow, negative and huge intervals change the number of digits.",
  [CC], [("Setup", CC), ("Prove, Verify", CC)], ["Setup", "Prove", "Verify"])
p("C14", "Signature-based proofs are zero-knowledge masked",
  "Everything a set membership or [0, u^l) proof publishes about the secret, the signatures and the blinding factor is masked by fresh independent uniform randomness: for every challenge and every pair of secrets there is exactly one choice of the draws that produces the same published values. Blinding values are not published.",
  "all nonzero challenges, all keys and draws; sets of up to four with several pairs of members, u^l = 2, 4, 9 with all pairs of secrets, both halves of a range proof with u^l = 2, 4",
  "A proof with reused or missing randomness verifies like any other.",
  [CC], [("ProveSet, ProveUL", CC)], ["ProveSet", "ProveUL"])
p("C15", "Boneh-Boyen signatures",
  "A signature on a message verifies under the public key of the signing key for every key and message, and a signature is accepted exactly when it is the one for that message and key. A message that cannot be signed with a key yields an error, and key generation yields a pair that belongs together.",
  "all keys, messages and group elements",
  "The test signs one message; acceptance must be exact for all group elements offered as signatures.",
  [BB], [("Keygen, Sign, Verify", BB)], ["Keygen", "Sign", "Verify"])
p("C16", "Pedersen commitments",
  "Commitments are g^x.h^r for every x and r, negative and unreduced ones included, in both groups; they are additive in value and blinding factor. The vector commitments of the range proofs are h^alpha times the product of the generators to the entries. Arguments keep their values.",
  "all scalars up to 2^300 in absolute value (negative, zero, at least the group order), all generators, vectors of up to 4 entries (8 thorough)",
  "Tests commit to a few values; special points (equal summands, infinity) need all values.",
  [UT, BP, "bulletproofs/vector.go"], [("CommitG1", UT), ("Commit", UT), ("commitVector, commitVectorBig", BP), ("commitInnerProduct", IP)], ["CommitG1", "Commit", "commitVector"])
P256 = "crypto/p256/p256.go"
p("C17", "secp256k1 group law",
  "Complete addition (Multiply) is the group law of the curve for every pair of points: equal points, inverse points and infinity included, whichever of receiver and arguments are the same object; the plain Add is the group law for every pair of different points and for infinity. Negation yields the inverse and leaves its argument alone.",
  "all pairs of curve points (coordinates symbolic over the field), all aliasing patterns of receiver and arguments",
  "Tests add a few multiples of the generator; the special cases of the formulas are reached only by specific pairs.",
  [P256, "crypto/p256/mycurve.go"], [("Add, Multiply, Neg, Double", P256), ("Add, Double of the curve", "crypto/p256/mycurve.go")], ["P256.Add", "P256.Multiply", "P256.Neg"])
p("C18", "secp256k1 scalar multiplication",
  "Multiplying a point (or the base point) by an integer is repeated addition for every integer: zero, negative ones and integers beyond the group order included, also when the receiver is the argument and when the point is infinity. The point multiplied is left alone.",
  "all scalars of given bit lengths (up to 256 bits and beyond), all points as group elements, all aliasing patterns",
  "Tests multiply by a few small constants.",
  [P256, "crypto/p256/mycurve.go"], [("ScalarMult, ScalarBaseMult", P256), ("ScalarMult", "crypto/p256/mycurve.go")], ["P256.ScalarMult", "P256.ScalarBaseMult"])
p("C19", "Hashing to the curve yields curve points; membership test exact",
  "Every string hashed to the curve yields a finite point on it, determined by hashing the string together with a counter (so that no discrete logarithm is known), the same for equal strings; and the membership test accepts exactly the points with y^2 = x^3 + 7.",
  "all pairs of coordinates below the field prime; all hash outputs for up to 48 attempts (255 thorough), strings of 0 to 5 bytes",
  "Tests hash one or two seeds; whether the square root and membership test are right for every coordinate needs all.",
  [P256, "crypto/p256/mycurve.go"], [("MapToGroup", P256), ("IsOnCurve", P256)], ["MapToGroup", "IsOnCurve"])
F2, F6, F12 = "crypto/bn256/gfp2.go", "crypto/bn256/gfp6.go", "crypto/bn256/gfp12.go"
p("C20", "Extension field arithmetic",
  "Addition, subtraction, negation, doubling, multiplication, squaring, inversion, conjugation, Frobenius maps and exponentiation in the three extension fields of the pairing compute the field operations for all elements, also when the receiver is one of the arguments. Arguments that are not the receiver keep their value.",
  "all elements of the quadratic, sextic and dodecic extension; all aliasing patterns",
  "Tests invert and square a couple of random elements; a wrong cross term can cancel in special elements, and aliasing errors need the aliased call.",
  [F2, F6, F12], [("gfP2", F2), ("gfP6", F6), ("gfP12", F12)], ["gfP2", "gfP6", "gfP12 methods"])
CU, TW, BN = "crypto/bn256/curve.go", "crypto/bn256/twist.go", "crypto/bn256/bn256.go"
p("C21", "Pairing groups: point arithmetic",
  "Addition, doubling, negation and conversion to affine form in the two source groups compute the group law on projective representations for all points: equal, inverse and infinite ones, and any representation of the same point. They do so also when the receiver is one of the arguments, and other arguments keep their value.",
  "all pairs of points in all projective representations, all aliasing patterns",
  "Tests use multiples of the generator in the representations that happen to arise.",
  [CU, TW, BN], [("curvePoint", CU), ("twistPoint", TW), ("G1, G2 methods", BN)], ["G1.Add", "G2.Add", "G1.Neg", "G2.Neg"])
p("C22", "Pairing groups: scalar multiplication and exponentiation",
  "Scalar multiplication in the source groups and exponentiation in the target group and its fields agree with repeated group operation for all integers: zero, negative ones and those beyond the group order included. They do so also when receiver and argument are the same object.",
  "all scalars of given bit lengths, all group elements, aliasing patterns",
  "Tests use a few random scalars; sign handling, zero and top bits need all.",
  [CU, TW, BN, F12], [("Mul", CU), ("Mul", TW), ("ScalarMult, ScalarBaseMult, Exp", BN)], ["G1.ScalarMult", "G2.ScalarMult", "GT.ScalarMult", "GT.Exp"])
p("C23", "Encoding of pairing group elements",
  "Decoding the encoding of any element of the three groups yields that element, encodings of equal elements are equal whatever their representation, and decoding rejects strings of the wrong length and, for the two source groups, coordinates that are not reduced and points not on the curve. Infinity is encoded and decoded as such. The string form likewise depends on the element only.",
  "all elements (coordinates symbolic), all byte strings of the right length",
  "Tests round-trip one random element of each group.",
  [BN, CU, TW], [("Marshal, Unmarshal", BN), ("IsOnCurve", CU)], ["Marshal", "Unmarshal"])
p("C24", "Pairing building blocks",
  "The line functions used by the pairing evaluate the tangent or chord through the given points and return their sum or double, sparse multiplication agrees with full multiplication, the Miller loop accumulates the function of the optimal Ate pairing, and the final exponentiation raises to (p^12-1)/order. The pairing with infinity is one, and a pairing check accepts exactly when the product of the pairings is one.",
  "all points and field elements; the exponent of the final exponentiation exactly",
  "Bilinearity tests use a few random points and cannot separate errors that cancel.",
  ["crypto/bn256/optate.go"], [("lineFunctionAdd, lineFunctionDouble, mulLine, finalExponentiation, optimalAte", "crypto/bn256/optate.go")], ["Pair"])
BC = "util/byteconversion/conversion.go"
p("C25", "Two's-complement byte conversion",
  "Converting an integer to bytes and back yields the same integer for every integer, and the bytes are the minimal big-endian two's-complement encoding. Every byte string decodes to the integer it represents and an empty string is an error.",
  "all integers of up to 8 bytes (33 thorough), all byte strings of up to 32 bytes",
  "Tests convert a list of values around 0 and 128.",
  [BC], [("ToByteArray, FromByteArray", BC)], ["ToByteArray", "FromByteArray"])
p("C26", "Decimal parser",
  "Parsing a number accepts exactly the strings of decimal digits, with an optional minus sign in front of at least one digit, and returns the integer they denote (zero for the empty string); every other string is an error. The list parser splits at commas, returns the number of every item and fails exactly when an item is not a number.",
  "all strings of up to 6 bytes (every byte value; lists up to 4 bytes), all numerals of up to 80 digits",
  "Tests parse a few strings.",
  ["util/byteconversion/parse.go"], [("ConvertToBigInt, ParseInput", "util/byteconversion/parse.go")], ["ConvertToBigInt", "ParseInput"])
p("C27", "Modular arithmetic helpers",
  "The helpers for addition, subtraction, multiplication and remainders return the exact result, and modular exponentiation and inversion the reduced one, for all operands, negative ones and negative exponents included; what has no inverse yields none. The result is a new number and the operands keep their values. The hash of one or two numbers is that of their minimal two's-complement encodings.",
  "all operands up to 2^600 in absolute value, exponents of up to 5 bits (8 thorough), the moduli of groups and fields, 7, 2 and 1; hashes of numbers of up to 4 bytes (32 thorough)",
  "Tests try one or two operands.",
  ["util/bn/bn.go"], [("Multiply, Add, Sub, ModInverse, ModPow, CalculateHash", "util/bn/bn.go")], ["bn functions"])
p("C28", "Digit decomposition",
  "Decomposing an integer in base u yields l digits in [0, u) with sum digit_i*u^i equal to the integer when it lies in [0, u^l) and to its remainder modulo u^l otherwise. The integer keeps its value.",
  "all integers up to 2^300 in absolute value, 11 pairs (u,l) from (2,63) to (2^63-1,3)",
  "Tests decompose one or two numbers.",
  [UT], [("Decompose", UT)], ["Decompose"])
p("C29", "Bulletproof setup validation",
  "Setup accepts exactly the range ends 2^N with N a power of two of at most 32 and yields N independent generators per side, all finite curve points and pairwise different; every other int64 is refused. The power-of-two test is exact on all int64.",
  "all int64",
  "Tests try a few values; negative numbers, the extreme int64 and neighbours of powers of two need all.",
  [BP, BU], [("Setup", BP), ("IsPowerOfTwo", BU)], ["Setup", "IsPowerOfTwo"])
p("C30", "Vector operations",
  "The vector operations used by the proofs (sum, difference, entry-wise product, inner product, scaling, powers, exponentiation, conversion) equal their mathematical definition modulo the group order for all inputs, do not modify their arguments, and report an error when lengths differ.",
  "all vectors of up to 8 entries (up to 2^300 in absolute value), inner products of up to 32, points infinity included",
  "Tests use fixed vectors of small numbers.",
  ["bulletproofs/vector.go", BU], [("VectorAdd, VectorSub, VectorMul, VectorScalarMul, VectorECAdd, VectorCopy, VectorConvertToBig", "bulletproofs/vector.go"), ("ScalarProduct, VectorExp, powerOf", BU)], ["vector functions"])
p("C31", "JSON form of range proofs",
  "A range proof, generic range proof or inner product proof encoded as JSON and decoded has the verification result of the original, for every proof, valid or not; honest proofs are accepted after decoding and still are about the same commitment and interval. Setup parameters that went through JSON can be used for proving and the proofs verify with the original parameters.",
  "all secrets, intervals, draws and hash outputs, all proofs made of arbitrary points and scalars (N = 1, 2, 4), honest ones for N = 1..32; encoded by value, by pointer and indented",
  "Tests encode one proof with the largest range; fields that are dropped, renamed or rebuilt while decoding matter for other ranges, infinite points and extreme intervals.",
  [BP, GR, IP], [("BulletProof, BulletProofSetupParams", BP), ("ProofBPRP", GR), ("InnerProductProof", IP)], ["json.Marshal, json.Unmarshal", "BulletProof.Verify"])

CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        d = dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]),
                 why_tests_cant=q["why"], anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                 observe_at=q["observe"], hook_needed=None))
        f.write(json.dumps(d) + "\n")
TECH = "bounded symbolic execution of go/ssa with SMT (finite field, integer and bit-vector queries)"
NOTE = ("Every assertion holds for all values of the symbolic inputs within the stated bounds (see the evidence file for bounds and functions encoded). "
        "Trusted: the encoder (engine/), cvc5 and z3, go/ssa. Arithmetic of lower layers is used through contracts that are checked under their own properties; hash outputs are arbitrary values (random oracle), equal for equal inputs.")
checks, na = [], []
for q in P:
    if q["id"] in CLAIMED:
        checks.append(dict(property=q["id"], quick_cmd="./check.sh " + q["id"], thorough_cmd="./check.sh " + q["id"] + " thorough",
                           technique=q["tech"] or TECH, level="other", level_note=NOTE + (" " + q["note"] if q["note"] else ""), evidence_file="evidence/%s.json" % q["id"]))
    else:
        na.append(dict(property=q["id"], reason=q["na"] or "check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="See DESIGN.md. known-findings.json lists the defects found and repaired."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
