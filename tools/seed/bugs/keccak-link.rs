use crate::keccak::columns::TIMESTAMP;
use crate::keccak::keccak_stark::KeccakStark;
pub fn demo() -> bool {
    let st = KeccakStark::<F, 2>::default();
    let mut t = plonky2::util::timing::TimingTree::default();
    let cols = st.generate_trace(vec![([3u64; 25], 5), ([4u64; 25], 6)], 8, &mut t);
    let rows = rows_of(&cols);
    if !table_holds(&st, &rows) { return false; }
    for r in 0..23 {
        // The link value changes after round r.
        let mut bad = rows.clone();
        for i in r + 1..24 { bad[i][TIMESTAMP] = f(6); bad[24 + i][TIMESTAMP] = f(5); }
        if table_holds(&st, &bad) { return false; }
    }
    true
}
