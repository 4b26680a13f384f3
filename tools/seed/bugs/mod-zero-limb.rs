use crate::arithmetic::arithmetic_stark::ArithmeticStark;
use crate::arithmetic::columns::*;
use crate::arithmetic::{BinaryOperator, Operation};
pub fn demo() -> bool {
    let st = ArithmeticStark::<F, 2>::default();
    (0..16usize).all(|k| {
        let m = U256::from(7) << (16 * k);
        let a = (m + 1) * 3 + 2;
        // Honest remainders by m and by m + 1.
        let run = |m: U256| rows_of(&st.generate_trace(vec![Operation::binary(BinaryOperator::Mod, a, m)]));
        let (honest, other) = (run(m), run(m + 1));
        if !holds(&st, &honest[0], &honest[1], true, false) { return false; }
        // The rows for m + 1, announced as rows for m with the zero flag.
        let mut bad = other.clone();
        bad[0][INPUT_REGISTER_1.start] -= F::ONE;
        bad[1][MODULAR_MOD_IS_ZERO] = F::ONE;
        !holds(&st, &bad[0], &bad[1], true, false)
    })
}
