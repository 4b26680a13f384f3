use crate::keccak_sponge::columns::{KECCAK_SPONGE_COL_MAP as M, NUM_KECCAK_SPONGE_COLUMNS};
use crate::keccak_sponge::keccak_sponge_stark::{KeccakSpongeOp, KeccakSpongeStark};
pub fn demo() -> bool {
    let st = KeccakSpongeStark::<F, 2>::default();
    let mut t = plonky2::util::timing::TimingTree::default();
    let op = KeccakSpongeOp { base_address: MemoryAddress { context: 0, segment: 1, virt: 2 }, timestamp: 9, input: vec![7; 300] };
    let cols = st.generate_trace(vec![op], 256, &mut t);
    let rows = rows_of(&cols);
    if !table_holds(&st, &rows) { return false; }
    for k in 0..16 {
        let mut bad = rows.clone();
        bad[1][M.original_capacity_u32s[k]] += F::ONE;
        if table_holds(&st, &bad) { return false; }
    }
    true
}
