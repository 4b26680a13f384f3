use crate::byte_packing::byte_packing_stark::{BytePackingOp, BytePackingStark};
use crate::byte_packing::columns::BYTE_PACKING_COL_MAP as M;
pub fn demo() -> bool {
    let st = BytePackingStark::<F, 2>::default();
    let mut t = plonky2::util::timing::TimingTree::default();
    let ops = (1..33).map(|n| BytePackingOp { is_read: true, base_address: MemoryAddress { context: 0, segment: 1, virt: 2 },
        timestamp: 9, bytes: vec![5; n] }).collect();
    let rows = rows_of(&st.generate_trace(ops, 256, &mut t));
    if !table_holds(&st, &rows) { return false; }
    (1..32).all(|n| (n..32).all(|k| {
        let mut bad = rows.clone();
        bad[n - 1][M.value_bytes[k]] = f(1);
        !holds(&st, &bad[n - 1], &bad[n], n == 1, false)
    }))
}
