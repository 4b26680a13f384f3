use crate::memory::memory_stark as ms;
use crate::memory_continuation::memory_continuation_stark as mc;
use crate::witness::memory::{MemoryOp, MemoryOpKind};
use crate::all_stark::Table;
use starky::cross_table_lookup::{debug_utils::check_ctls, CrossTableLookup, TableWithColumns};
fn agree(mem: &[PolynomialValues<F>], after: &[Vec<F>]) -> bool {
    let ctl = CrossTableLookup::new(
        vec![TableWithColumns::new(*Table::Memory, ms::ctl_looking_mem(), ms::ctl_filter_mem_after())],
        TableWithColumns::new(*Table::MemAfter, mc::ctl_data(), mc::ctl_filter()));
    let n = after[0].len();
    let a = (0..n).map(|c| PolynomialValues::new(after.iter().map(|r| r[c]).collect())).collect::<Vec<_>>();
    let mut t: Vec<Vec<PolynomialValues<F>>> = vec![vec![]; 1 + (*Table::MemAfter).max(*Table::Memory)];
    t[*Table::Memory] = mem.to_vec();
    t[*Table::MemAfter] = a;
    std::panic::set_hook(Box::new(|_| ()));
    std::panic::catch_unwind(|| check_ctls(&t, &[ctl], &Default::default())).is_ok()
}
pub fn demo() -> bool {
    let st = ms::MemoryStark::<F, 2>::default();
    let op = |v: usize| MemoryOp { filter: true, timestamp: 5 + v, address: MemoryAddress { context: 0, segment: 3, virt: v },
        kind: MemoryOpKind::Write, value: U256::from(77) };
    let mut t = plonky2::util::timing::TimingTree::default();
    let (cols, mut after, _) = st.generate_trace((0..12).map(op).collect(), &[], vec![], &mut t);
    while !after.len().is_power_of_two() { after.push(vec![F::ZERO; after[0].len()]); }
    if !agree(&cols, &after) { return false; }
    (0..after[0].len()).all(|c| { let mut bad = after.clone(); bad[2][c] += if c == 0 { -F::ONE } else { F::ONE }; !agree(&cols, &bad) })
}
