# Generates /verif/properties.jsonl (kept as a script so the long texts stay readable).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,state,mech,obs,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
B="bulletproofs/src/"; R="relations/src/"
p("C01","Every satisfied constraint system has a proof that verifies",
 "Whenever a prover builds any constraint system its witness satisfies (any number and order of scalar and vector commitments, single and paired variable allocations, multiplication gates, linear constraints and second-phase randomized constraints), proving succeeds and a verifier that repeats the same building steps on the returned commitments accepts the proof. The only permitted prover failures are a missing witness value, too few generators, and second-phase gates mixed with vector commitments. Identical building steps return identical variables and identical size and metric readings on both sides at every step.",
 ["programs","inputs"],"All building programs over the constraint-system API (0..17 vector commitments of any dimension, 0..n gates, one or two phases) and all satisfying witnesses.",
 "The tests prove a dozen fixed circuits; they do not vary the interleaving of commitments, half-used gates, vector dimensions above the gate count, zero-gate systems or second-phase gates.",
 [B+"r1cs/prover.rs",B+"r1cs/verifier.rs",B+"r1cs/mod.rs",B+"inner_product_proof.rs"],
 [("pending multiplier","gate whose right wire is still unassigned",B+"r1cs/prover.rs"),("vector openings / vector commitments","committed vectors and their dimensions",B+"r1cs/verifier.rs"),("deferred constraints","closures run after the first-phase commitments",B+"r1cs/verifier.rs")],
 [("witness padding, degree assignment and polynomial commitment",B+"r1cs/prover.rs"),("combined verification equation",B+"r1cs/verifier.rs")],
 ["returned variables","metrics and size","prove result","verify result"])
p("C02","A proof is accepted only for the statement it was made for and only if true",
 "A verifier accepts a proof only if the prover's witness satisfies every constraint and the verifier's statement is the one proved: same commitments in the same order, same gates, same constraints with the same coefficients and constants, same randomized constraints, same transcript context. Changing any single one of these on either side (beyond padding with unconstrained zeros), or violating any single constraint, makes verification fail.",
 ["programs","inputs"],"All building programs, all single violations of a constraint by the witness, and all single deviations between the proved and the verified statement.",
 "Tests contain a handful of hand-written negative cases; a verifier that ignored one class of terms (a constant, the last vector coordinate, a later commitment, a second-phase constraint) would pass them.",
 [B+"r1cs/verifier.rs",B+"r1cs/prover.rs",B+"r1cs/linear_combination.rs"],
 [("flattened weights","per-wire weights derived from the constraints and challenge",B+"r1cs/verifier.rs")],
 [("constraint flattening on both sides",B+"r1cs/verifier.rs"),("combined verification equation",B+"r1cs/verifier.rs")],
 ["verify result"])
p("C03","Every challenge depends on everything sent before it, on both sides alike",
 "Each random challenge drawn by prover or verifier is derived only after all statement and proof elements that precede it in the protocol have been absorbed: all commitments and their number before any circuit challenge, first-phase commitments before user challenges, second-phase commitments before the flattening challenges, polynomial commitments before the evaluation point, the claimed evaluations before the inner-product base, and each folding pair before its folding challenge. Prover and verifier absorb exactly the same values in the same order, and all derived challenges are distinct.",
 ["programs","histories"],"All transcripts recorded from runs of building programs, including membership proofs and payments.",
 "A missing or late absorption leaves every honest proof valid and every simple tampering test passing; it shows only in the transcript history, which no test looks at.",
 [B+"transcript.rs",B+"r1cs/prover.rs",B+"r1cs/verifier.rs",B+"inner_product_proof.rs",R+"single_level_select_and_rerandomize.rs"],
 [("transcript","running hash state of absorbed messages",B+"transcript.rs")],
 [("absorb calls around each challenge",B+"r1cs/verifier.rs"),("folding rounds",B+"inner_product_proof.rs"),("public re-randomized child absorbed in the circuit gadget",R+"single_level_select_and_rerandomize.rs")],
 ["sequence of absorb and challenge operations of the transcript"])
p("C04","Proof bytes round-trip and every altered or malformed proof is rejected",
 "Encoding a proof and decoding the bytes gives back a proof with the same bytes and the same verdict. Any proof or byte string obtained by altering, truncating, extending, reordering or resizing any component, so that it no longer denotes the same proof, is refused with an error result, at decoding or at verification. Neither step panics or accepts.",
 ["inputs","fault_sequences"],"All single component faults (each point, scalar, length and flag of the encoding, all vector lengths up to twice the honest ones) over one- and two-phase proofs with 0..5 vector commitments.",
 "The tests never decode hostile bytes and never touch a proof component, so neither missing length checks nor panics on malformed input are visible to them.",
 [B+"r1cs/proof.rs",B+"inner_product_proof.rs",B+"r1cs/verifier.rs"],
 [("proof components","commitments, evaluations and folding points",B+"r1cs/proof.rs")],
 [("phase flag and vector decoding",B+"r1cs/proof.rs"),("length checks before use",B+"r1cs/verifier.rs"),("folding-vector length check",B+"inner_product_proof.rs")],
 ["decode result","verify result","panics"])
p("C05","Batch verification accepts exactly when every member verifies on its own",
 "A non-empty batch of verification equations is accepted if and only if each member is accepted individually, for every batch size and order and every mixture of circuit sizes, including members repeated in the batch. Members whose errors would cancel when summed are still rejected, because each batch combines them with fresh unpredictable weights.",
 ["inputs","histories"],"All batches up to length 4 (6 thorough) of valid and invalid members of differing circuit sizes, in every order, plus crafted cancelling members.",
 "Only homogeneous batches of honest proofs are tested; different circuit sizes, invalid members in particular positions and cancelling errors are never tried.",
 [B+"r1cs/verifier.rs"],
 [("verification tuple","points with their scalars plus scalars for the fixed generators",B+"r1cs/verifier.rs")],
 [("random linear combination of the members",B+"r1cs/verifier.rs")],["batch verdict","single verdicts"])
p("C06","A curve tree has the right shape and its root determines its contents",
 "A tree built from any non-empty list of commitments has the smallest height that fits them (or the requested height when larger), alternates curves level by level with the leaves on the even curve, and stores the list in order with unused slots empty. Its root commitments are a deterministic function of the list, the parameters and the height; changing, moving, adding or removing any leaf changes every root commitment. Every node commitment opens to the shifted coordinates of its children under that node's generators.",
 ["inputs","configurations"],"All set sizes, branching factors, requested heights and batch widths within the model bounds.",
 "Tests build one tree of one or two sizes and never inspect nodes; off-by-one chunking at other sizes, or children dropped from a commitment, would go unnoticed.",
 [R+"curve_tree.rs"],
 [("nodes","children, per-generator-set commitments, height and element count",R+"curve_tree.rs")],
 [("level-by-level combination",R+"curve_tree.rs"),("height increase",R+"curve_tree.rs"),("vector commitment of child coordinates",R+"single_level_select_and_rerandomize.rs")],
 ["tree nodes","root commitments","height"])
p("C07","Membership of every leaf can be proved and opens to that leaf",
 "For every tree of height at least one and every index of a stored leaf, the membership proof is accepted by both curve verifiers, the published leaf commitment equals the stored leaf plus the returned scalar times the blinding generator, and every published inner commitment is a re-randomization of the ancestor at its level. Asking for an index with no leaf never yields an accepted proof.",
 ["inputs","configurations"],"All trees (branching factor, size, height, parity) in the model bounds, all indices, both curve cycles.",
 "Tests prove one index in two tree shapes with one branching factor; other positions, partially filled trees and raised heights are not reached.",
 [R+"curve_tree_prover.rs",R+"curve_tree_verifier.rs",R+"single_level_select_and_rerandomize.rs"],
 [("path","published re-randomized commitments per curve and the selected leaf",R+"curve_tree.rs")],
 [("witness extraction per level",R+"curve_tree_prover.rs"),("randomizer bookkeeping between levels",R+"curve_tree_prover.rs"),("verifier's pairing of parents with children",R+"curve_tree_verifier.rs")],
 ["verdicts of both verifiers","returned path and scalar"])
p("C08","Nothing but a stored leaf of that tree can be proved a member",
 "A membership proof is accepted only against the tree it was made for and only for commitments sitting at leaf level: a path of any other length, an inner node presented as a leaf, a leaf presented as an inner node, a path with any commitment replaced, moved or taken from another run, a commitment outside the set and an empty slot are all rejected.",
 ["inputs","fault_sequences"],"All trees in the model bounds, all single path alterations and all prover strategies that follow the gadgets from a tree of another shape or content.",
 "Tests only verify honest proofs; the length of the path is checked only in debug builds and no test submits a path of another depth.",
 [R+"curve_tree_verifier.rs",R+"curve_tree.rs",R+"single_level_select_and_rerandomize.rs"],
 [("path","published re-randomized commitments per curve and the selected leaf",R+"curve_tree.rs")],
 [("adding the root and checking the path length",R+"curve_tree_verifier.rs"),("per-level circuit",R+"single_level_select_and_rerandomize.rs")],
 ["verdicts of both verifiers"])
p("C09","Batched membership proofs are complete and sound for every member",
 "For every tree supporting batches of a given width and every choice of that many stored leaves (repeated or not), the batched proof is accepted and each published leaf equals the corresponding stored leaf plus its returned scalar times the blinding generator. A batched proof in which any one selected commitment is not a stored leaf, or the path has another length, or the members are reordered or exchanged, is rejected.",
 ["inputs","configurations","fault_sequences"],"All trees and index vectors in the model bounds for batch widths 1 to 4, with all single alterations of the multi-path.",
 "Tests prove one fixed index vector per parity; wrong generator sets, dropped members or an ignored last chunk would not show.",
 [R+"batched_curve_tree_prover.rs",R+"batched_curve_tree_verifier.rs",R+"single_level_select_and_rerandomize.rs"],
 [("multi-path","published sums per level and the selected leaves",R+"curve_tree.rs")],
 [("chunking of the combined vector",R+"single_level_select_and_rerandomize.rs"),("sum of roots",R+"batched_curve_tree_verifier.rs")],
 ["verdicts of both verifiers","returned multi-path and scalars"])
p("C10","Each circuit gadget is satisfiable exactly for its documented relation",
 "For every input, a gadget's constraints have a satisfying assignment if and only if the documented relation holds: selection means the value occurs in the list, table lookup means the pair sits at one of the eight positions, range means 0 <= v < 2^n, curve check means the point is on the curve with its coefficients, addition means the third point is the sum of two points with distinct x. The honest assignment produced by the gadget itself is always one of the satisfying ones.",
 ["inputs","programs"],"All inputs over small prime fields (exhaustive over every assignment of every variable), and all bit widths 1..64 and table contents on the real fields.",
 "Honest-prover tests cannot see a missing constraint: an under-constrained gadget accepts everything they try.",
 [R+"select.rs",R+"lookup.rs",R+"range_proof.rs",R+"curve.rs"],
 [("gadget constraints","gates and linear constraints emitted",R+"lookup.rs")],
 [("bit and product constraints",R+"lookup.rs"),("slope equations and distinctness check",R+"curve.rs"),("product of differences",R+"select.rs"),("binary decomposition",R+"range_proof.rs")],
 ["constraints emitted through the constraint-system interface"])
p("C11","The re-randomization circuits admit exactly child plus scalar times base",
 "The re-randomization constraints are satisfiable exactly when the output point equals the input point plus the sum of one table entry per window, with every documented distinctness condition enforced; with the standard tables that sum is the scalar times the blinding generator for every scalar that hits no exceptional case of the addition law. The single-level relation (and its batched form) is satisfiable exactly when the shifted child's coordinate occurs among the children, the point is on the curve, and the public point is that child (or the sum of the children) re-randomized.",
 ["inputs"],"Exhaustive over small two-cycles of curves for all points, tables and assignments; all boundary and random scalars on the real curves.",
 "Tests exercise one random scalar; a window, carry term or distinctness check that is skipped only matters for other scalars or a dishonest assignment.",
 [R+"rerandomize.rs",R+"single_level_select_and_rerandomize.rs",R+"lookup.rs",R+"curve.rs"],
 [("window tables","multiples of the blinding generator per 3-bit window",R+"rerandomize.rs")],
 [("window accumulation with a checked final addition",R+"rerandomize.rs"),("select, curve check and re-randomize composed",R+"single_level_select_and_rerandomize.rs")],
 ["constraints emitted through the constraint-system interface"])
p("C12","Payments made by owners verify and conserve value",
 "In every history of mints and payments, a payment made by the owners of two unspent coins to any two receivers verifies if and only if the values created equal the values consumed, as 64-bit amounts without wrap-around. Every created coin is spendable later by exactly its receiver with exactly its value once it is in the tree.",
 ["histories","inputs"],"All histories in the model bounds (users, coins, tree growth, values including 0, 2^64-1 and overflowing sums).",
 "One payment between fixed keys is tested; chains of payments, zero and extreme values, unbalanced attempts and re-spending created coins are not.",
 [R+"coin.rs",R+"range_proof.rs"],
 [("coin","value, tag, blinding and key randomizer",R+"coin.rs"),("tree","set of coin commitments",R+"curve_tree.rs")],
 [("minting with range proof",R+"coin.rs"),("spending through a membership proof",R+"coin.rs"),("balance constraint",R+"coin.rs")],
 ["verification verdict","coin commitments"])
p("C13","Only a coin's owner can spend it and a transaction cannot be altered",
 "A transaction is accepted only if both spent coins' tags match the public keys it names and both signatures over exactly its bytes verify under those keys. Signing with another key, naming another key, swapping or reusing signatures, changing any byte or part of the transaction, or presenting it under another domain, tree or signature parameters makes verification fail.",
 ["histories","fault_sequences"],"All single deviations by a dishonest spender or relay in all histories of the payment model.",
 "No test tampers with a transaction or signs with the wrong key, so a verification whose outcome is dropped still passes them.",
 [R+"coin.rs"],
 [("transaction","two signatures over the encoded payment",R+"coin.rs")],
 [("signature verification",R+"coin.rs"),("tag bound to hash of the randomized key",R+"coin.rs")],
 ["verification verdict"])
p("C14","Encodings of paths and payments round-trip exactly",
 "Encoding and decoding a membership path, payment or signed transaction returns an object with the same bytes and the same verification verdict, the announced size equals the number of bytes written, and truncated or out-of-group encodings are refused without panicking.",
 ["inputs"],"All encodable objects produced by the membership and payment models, every truncation point class and every component corrupted.",
 "Round-trips are only exercised once inside the payment test, in one shape.",
 [R+"coin.rs",R+"curve_tree.rs",B+"r1cs/proof.rs"],
 [("encoded components","order and number of components in the encoding",R+"coin.rs")],
 [("encode/decode pairs",R+"coin.rs"),("path encoding",R+"curve_tree.rs")],
 ["bytes","decode result","verdict"])
p("C15","Generators are reproducible, growable and independent",
 "Generator sets are a deterministic function of curve, party and position: any sequence of capacity increases gives the same generators as creating the final capacity at once, capacity never shrinks, and requests return exactly the prefix asked for. All generators (both vectors, all parties, the value and blinding bases and the tree shift) are pairwise distinct, lie in the group and are not the identity. Proving or verifying with too few generators is refused with the documented error.",
 ["histories","configurations"],"All growth histories over capacities 0..64 and parties 1..4, on all four curves; all circuit sizes against all capacities.",
 "One resize is tested, and only against the same code; a non-prefix growth or repeated generator at another size or party is not.",
 [B+"generators.rs",B+"util.rs",B+"r1cs/verifier.rs",B+"r1cs/prover.rs"],
 [("generator vectors","per-party vectors and the capacity",B+"generators.rs")],
 [("chain fast-forward on growth",B+"generators.rs"),("capacity checks",B+"r1cs/prover.rs")],
 ["generators returned","error results"])
p("C16","Blinding is fresh: no published element repeats and weights are unpredictable",
 "Two runs on the same statement and witness never publish the same blinded element: first- and second-phase commitments, polynomial commitments, blinded evaluations and folding points of proofs, re-randomized path commitments, coin commitments and tags all differ between runs and within a run. Verification likewise draws fresh combination weights on every run.",
 ["histories"],"All pairs of published elements over repeated runs of proofs, membership proofs, mints and payments in the model.",
 "Reused or omitted blinding leaves every proof valid, so no accept/reject test can notice it.",
 [B+"r1cs/prover.rs",B+"r1cs/verifier.rs",R+"curve_tree_prover.rs",R+"batched_curve_tree_prover.rs",R+"coin.rs"],
 [("published elements","everything a verifier or observer sees",B+"r1cs/proof.rs")],
 [("sampling of blinders",B+"r1cs/prover.rs"),("sampling of re-randomizers",R+"curve_tree_prover.rs"),("sampling of weights",B+"r1cs/verifier.rs")],
 ["published proof elements","paths","coins","verification scalars"])
p("C17","The verification equation has exactly the protocol's coefficients",
 "For every proof and statement, the equation the verifier evaluates assigns every commitment, proof element and generator the coefficient the protocol prescribes: each committed value at its own power, each polynomial commitment at its degree weighted by one random factor, each folding point at its squared challenge, each generator at its folded, weighted and padded scalar. No element is missing, counted twice or paired with another's coefficient.",
 ["inputs","programs"],"All shapes (0..5 vector commitments, 0..9 gates, one or two phases) with all challenges and constraint weights as they arise.",
 "Tests only see whether honest proofs are accepted; a coefficient that happens to vanish or cancel for honest provers can be dropped without any test noticing.",
 [B+"r1cs/verifier.rs",B+"r1cs/mod.rs",B+"inner_product_proof.rs",B+"util.rs"],
 [("verification tuple","points and scalars of the combined check",B+"r1cs/verifier.rs")],
 [("assembly of points and scalars",B+"r1cs/verifier.rs"),("folding scalars",B+"inner_product_proof.rs"),("degree assignment",B+"r1cs/mod.rs")],
 ["verification tuple"])
p("C18","Sequential and parallel builds compute the same thing",
 "The library built with and without its parallel feature produces interoperable results: trees have identical roots, proofs, membership paths and transactions made by either build are accepted by the other, and each rejects what the other rejects.",
 ["configurations","schedules"],"The two feature configurations, in both directions, over the replayed scenarios of the other models.",
 "Tests run in one configuration per build and never exchange data between builds.",
 [B+"r1cs/prover.rs",R+"coin.rs",R+"curve_tree_prover.rs",R+"batched_curve_tree_prover.rs"],
 [("feature-gated code paths","duplicated sequential and parallel bodies",R+"coin.rs")],
 [("parallel commitment computation",B+"r1cs/prover.rs"),("parallel path verification",R+"coin.rs")],
 ["bytes exchanged between builds","verdicts"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
