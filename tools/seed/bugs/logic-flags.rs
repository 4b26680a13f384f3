use crate::logic::{columns::LOGIC_COL_MAP as M, LogicStark, Op, Operation};
pub fn demo() -> bool {
    let st = LogicStark::<F, 2>::default();
    let mut t = plonky2::util::timing::TimingTree::default();
    let ops = vec![Operation::new(Op::Xor, U256::from(0xff00), U256::from(0x0ff0)), Operation::new(Op::And, U256::from(0xff00), U256::from(0x0ff0))];
    let rows = rows_of(&st.generate_trace(ops, 8, &mut t));
    if !table_holds(&st, &rows) { return false; }
    let mut bad = rows.clone();
    bad[0][M.op.is_xor] = f(3);
    for &c in &M.result { bad[0][c] = bad[0][c] * f(3); }
    !table_holds(&st, &bad)
}
