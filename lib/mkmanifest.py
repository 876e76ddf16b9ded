import json,os,sys
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
props=[json.loads(l)['id'] for l in open(os.path.join(ROOT,'properties.jsonl'))]
T={
'C01':("TLA+ state machine of the prover/verifier session (R1csSession.tla); TLC enumerates and simulates building programs, each behaviour is replayed on the real Prover and Verifier and every handle, metric and verdict compared","exhaustive to 2-3 calls (quick: sampled), simulated to 60 calls and 17 vector commitments"),
'C02':("R1csSession.tla with violated constraints and single verifier deviations, verdicts replayed on the real verifier; Degrees.tla finds cross products in the degree layout extracted from the verifier, each turned into a forgery by an independent dishonest prover","exhaustive to 2 calls (quick) / 3 calls, simulated to 12"),
'C04':("ProofWire.tla specifies the proof's byte format and decoder; TLC enumerates alterations of the token sequences of real proofs and decides which still denote the same proof; each altered proof is decoded and verified by the code","every single alteration of every token of 18 (thorough 60) proofs, pairs and triples sampled"),
'C03':("Transcript.tla steps through transcripts recorded from the real prover and verifier and checks, for every challenge, that everything sent before it has been absorbed, on both sides alike","sessions from TLC exploration of R1csSession.tla; exhaustive single-call sessions plus simulated long ones"),
'C05':("Batch.tla decides the verdict of every batch assembled from good and bad members; each batch is verified by the code; BatchWeights.tla checks the combination weights over a small field","exhaustive for one and two members, sampled for three, simulated for longer batches"),
'C06':("TreeBuild.tla specifies construction, grouping, growth and raising of curve trees as operations on symbolic nodes; every behaviour is built by the code, on real curves in both directions, and each node's shape, commitments (reopened independently) and identity compared with its symbol","exhaustive for small sets, branching factors 2-4 and batch widths 1-3; larger sets simulated"),
'C07':("Member.tla walks symbolic trees from the root to every index and decides what a prover must be able to do; each walk is proved and verified by the code through both prover and verifier entry points, the library's witness compared with the specified one and the published leaf with leaf + scalar*B_blinding","every index (and indices beyond the leaves) of trees up to 17 leaves and height 5 on a small curve cycle (quick: sampled), sampled on the four real cycles"),
'C08':("Member.tla adds one dishonest step (wrong child, wrong siblings, stopping early, going below a crafted leaf), altered paths and other verifier trees; invariant Sound is checked by TLC and every behaviour is replayed with a real prover on the dishonest witness; acceptance where the specification rejects is a violation","exhaustive over single deviations for small trees (quick: stratified sample) on small curves, sampled on real cycles"),
'C09':("Member.tla with M members: honest batches, dishonest members, members shifted against each other, and altered multi-paths, replayed on the batched prover and verifier gadgets","exhaustive over single deviations for small trees with M up to 4 (quick: stratified sample) on small curves, sampled on real cycles"),
'C10':("Gadget.tla: the constraint systems emitted by select, lookup, is_bit, range_proof, curve_check and the curve additions over small prime fields are recorded and TLC finds all their satisfying assignments, compared with the documented relations; GadgetRuns.tla prescribes runs with real provers and verifiers on real curves","exhaustive over all field elements of F_7..F_43 for each recorded system; real runs for every range width (quick: sampled)"),
'C11':("Gadget.tla on recorded re_randomize and single-level select-and-re-randomize circuits (all satisfying assignments over small fields); Windows.tla checks the standard tables' discrete logarithms for every scalar of small curves and prescribes boundary scalars for the real ones; dishonest accumulators on real curves must be rejected","exhaustive over all assignments / all scalars of the small curves; +-2^k+a for all k on four real curves (quick: sampled)"),
'C12':("Ledger.tla specifies histories of coins, mints and payments (invariants: value conserved, amounts in range, coins spent once); every history is carried out by the code, with the library's prover and with a prover composed around it for amounts and range proofs the library would not make; verdicts, commitments and named keys compared","exhaustive for two coins and one payment over boundary amounts (quick: stratified sample), chains of three payments simulated; real curves"),
'C13':("Ledger.tla with inputs presented by others than their owners (nine forms, false openings); TxWire.tla decides which altered, re-signed or elsewhere presented payments may be accepted; all replayed on the real verifier","every single alteration of every component, with five signers and seven contexts (quick: stratified sample), pairs simulated in the thorough tier"),
'C14':("TxWire.tla specifies the encodings by a grammar, and the decoder as a machine over it; every alteration is given to the decoders of paths, proofs, payments and signed payments, in both modes, and their results, re-encodings and announced sizes compared","every single alteration of every token for up to six shapes (quick: stratified sample), pairs simulated"),
'C15':("Generators.tla specifies the generator chains as symbols (share, party, index, capacity growth); each history is replayed on the code and the real points must be equal exactly when the symbols are","exhaustive to 3 operations, simulated to 10"),
'C17':("VerifEq.tla recomputes every coefficient of the verification equation from the recorded circuit over small prime fields and compares with the verifier's scalars up to a common factor","hundreds (quick) / thousands (thorough) of sessions from TLC exploration of R1csSession.tla, on 16-bit toy fields"),
}
def cmd(p,t): return "/verif/check %s --tier %s"%(p,t)
checks=[dict(property=p,quick_cmd=cmd(p,'quick'),thorough_cmd=cmd(p,'thorough'),evidence_file="evidence/%s.json"%p,technique="model-based verification (TLA+/TLC): "+T[p][0],level="model_checking",level_note=T[p][1]) for p in props if p in T]
na=[dict(property=p,reason="check under construction") for p in props if p not in T]
m=dict(version=1,setup_cmd="bash /verif/setup.sh",hooks=dict(guard="cfg(cth_hooks)",enable='RUSTFLAGS="--cfg cth_hooks" (set in /verif/harness/.cargo/config.toml)',source_commits=["8082cf2","58fc2b4"]),checks=checks,not_applicable=na,notes="See DESIGN.md")
json.dump(m,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
