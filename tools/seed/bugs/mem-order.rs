use crate::memory::columns::{MemoryColumnsView, MEMORY_COL_MAP as M};
use crate::memory::memory_stark::MemoryStark;
use crate::witness::memory::{MemoryOp, MemoryOpKind};
pub fn demo() -> bool {
    let st = MemoryStark::<F, 2>::default();
    let op = |v: usize, t: usize| MemoryOp { filter: true, timestamp: t, address: MemoryAddress { context: 0, segment: 3, virt: v },
        kind: MemoryOpKind::Write, value: U256::from(77) };
    let mut t = plonky2::util::timing::TimingTree::default();
    let (cols, _, _) = st.generate_trace((0..12).map(|v| op(v, 5 + v)).collect(), &[], vec![], &mut t);
    let rows = rows_of(&cols);
    if !table_holds(&st, &rows) { return false; }
    // Rows of a higher segment come before those of segment 3.
    let mut bad = rows.clone();
    for i in 0..6 { bad[i][M.addr_segment] = f(9); }
    // The columns of a row that describe the next row's segment.
    for i in 0..5 {
        let s = f(9);
        let seg = |x: Segment| F::from_canonical_usize(x.unscale());
        bad[i][M.preinitialized_segments_aux] = (s - seg(Segment::AccountsLinkedList)) * (s - seg(Segment::StorageLinkedList));
        bad[i][M.preinitialized_segments] = (s - seg(Segment::Code)) * (s - seg(Segment::TrieData)) * bad[i][M.preinitialized_segments_aux];
        bad[i][M.preinitialized_segments_inv] = bad[i][M.preinitialized_segments].inverse();
    }
    (0..5).all(|i| holds(&st, &bad[i], &bad[i + 1], i == 0, false)) && !table_holds(&st, &bad)
}
