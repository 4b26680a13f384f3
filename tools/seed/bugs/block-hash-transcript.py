PROPERTY="P01"
P="evm_arithmetization/src/get_challenges.rs"
EDITS=[(P,"    for i in 0..256 {\n        challenger","    for i in 0..255 {\n        challenger"),
(P,"challenger.observe_elements(&block_hashes.prev_hashes);","challenger.observe_elements(&block_hashes.prev_hashes[..255 * 8]);")]
NEEDS="a prover that chooses the hash of the parent block after the challenges are drawn"
BREAKS="the hash of the last of the 256 previous blocks is in the transcript of neither verifier, so it can be solved for after the lookup challenges are known"
