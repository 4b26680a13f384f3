pub fn demo() -> bool {
    use plonky2::iop::challenger::Challenger;
    use plonky2::plonk::config::{GenericConfig, PoseidonGoldilocksConfig as C};
    use crate::proof::PublicValues;
    let run = |pv: &PublicValues<F>| {
        let mut c = Challenger::<F, <C as GenericConfig<2>>::Hasher>::new();
        crate::get_challenges::observe_public_values::<F, C, 2>(&mut c, pv).unwrap();
        c.get_n_challenges(4)
    };
    let pv = PublicValues::<F> { block_hashes: crate::proof::BlockHashes { prev_hashes: vec![Default::default(); 256], cur_hash: Default::default() }, ..Default::default() };
    let base = run(&pv);
    // every previous block hash has an influence on the challenges
    (0..256).all(|i| {
        let mut q = pv.clone();
        q.block_hashes.prev_hashes[i].0[31] = 1;
        run(&q) != base
    })
}
