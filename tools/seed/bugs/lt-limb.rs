use crate::arithmetic::arithmetic_stark::ArithmeticStark;
use crate::arithmetic::columns::*;
use crate::arithmetic::{BinaryOperator, Operation};
pub fn demo() -> bool {
    let st = ArithmeticStark::<F, 2>::default();
    let ops = vec![Operation::binary(BinaryOperator::Lt, U256::from(5), U256::from(4)),
                   Operation::binary(BinaryOperator::Gt, U256::from(4), U256::from(5))];
    let rows = rows_of(&st.generate_trace(ops));
    (0..2).all(|i| holds(&st, &rows[i], &rows[i + 1], i == 0, false)
        && OUTPUT_REGISTER.skip(1).all(|c| {
            let mut bad = rows.clone();
            bad[i][c] = f(3);
            !holds(&st, &bad[i], &bad[i + 1], i == 0, false)
        }))
}
