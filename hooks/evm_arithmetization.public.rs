//! Public values in the native and the recursive verifier (used by the harness pubdump; compiled only
//! with the feature zkevm_verif_public, which the view of the workspace adds).
use plonky2::field::goldilocks_field::GoldilocksField as G;
use plonky2::field::types::{Field, PrimeField64};
const D: usize = 2;

/// Public values: what memory rows and what transcript the real native and circuit code derive from
/// them.  INPUT: [{"pv": PublicValues, "challenges": [[beta, gamma], ...]}], or {"pv", "variants"} with
/// which only the native transcript is wanted.  `""` prints the default public values.
pub fn public(input: &str) -> String {
    use plonky2::hash::hash_types::HashOut;
    use plonky2::iop::challenger::{Challenger, RecursiveChallenger};
    use plonky2::iop::generator::generate_partial_witness;
    use plonky2::iop::witness::{PartialWitness, Witness, WitnessWrite};
    use plonky2::plonk::circuit_builder::CircuitBuilder;
    use plonky2::plonk::circuit_data::CircuitConfig;
    use plonky2::plonk::config::{GenericConfig, PoseidonGoldilocksConfig as Cfg};
    use starky::lookup::GrandProductChallenge;
    use crate::get_challenges::{observe_public_values, observe_public_values_target};
    use crate::proof::PublicValues;
    use crate::recursive_verifier::{add_virtual_public_values_public_input, get_memory_extra_looking_sum_circuit, set_public_value_targets};
    use crate::verifier::testing::get_memory_extra_looking_sum;
    type H = <Cfg as GenericConfig<D>>::Hasher;
    if input.is_empty() {
        return serde_json::to_string(&PublicValues::<G>::default()).unwrap();
    }
    let v: Vec<serde_json::Value> = serde_json::from_str(&std::fs::read_to_string(input).unwrap()).unwrap();
    let native = |pv: &PublicValues<G>| -> Vec<u64> {
        let mut c = Challenger::<G, H>::new();
        observe_public_values::<G, Cfg, D>(&mut c, pv).unwrap();
        c.get_n_challenges(4).iter().map(|x| x.to_canonical_u64()).collect()
    };
    let mut b = CircuitBuilder::<G, D>::new(CircuitConfig::standard_recursion_config());
    let pvt = add_virtual_public_values_public_input(&mut b);
    let (bt, gt) = (b.add_virtual_target(), b.add_virtual_target());
    let st = get_memory_extra_looking_sum_circuit(&mut b, &pvt, GrandProductChallenge { beta: bt, gamma: gt });
    let mut rc = RecursiveChallenger::<G, H, D>::new(&mut b);
    observe_public_values_target::<G, Cfg, D>(&mut rc, &pvt);
    let ct = rc.get_n_challenges(&mut b, 4);
    let pis = b.num_public_inputs();
    let data = b.build::<Cfg>();
    let mut out = vec![];
    for x in v {
        let pv: PublicValues<G> = serde_json::from_value(x["pv"].clone()).unwrap();
        if x["challenges"].is_null() {
            out.push(serde_json::json!({"transcript": native(&pv)}));
            continue;
        }
        let mut sums = vec![];
        let mut circuit = vec![];
        let mut transcript = vec![];
        let mut back = serde_json::Value::Null;
        for c in x["challenges"].as_array().unwrap() {
            let (beta, gamma) = (G::from_canonical_u64(c[0].as_u64().unwrap()), G::from_canonical_u64(c[1].as_u64().unwrap()));
            sums.push(get_memory_extra_looking_sum::<G, D>(&pv, GrandProductChallenge { beta, gamma }).to_canonical_u64());
            let mut w = PartialWitness::<G>::new();
            set_public_value_targets::<G, _, D>(&mut w, &pvt, &pv).unwrap();
            w.set_target(bt, beta).unwrap();
            w.set_target(gt, gamma).unwrap();
            let w = generate_partial_witness(w, &data.prover_only, &data.common).unwrap();
            circuit.push(w.get_target(st).to_canonical_u64());
            transcript = ct.iter().map(|t| w.get_target(*t).to_canonical_u64()).collect();
            let p: Vec<G> = data.prover_only.public_inputs.iter().map(|t| w.get_target(*t)).collect();
            assert_eq!(p.len(), pis);
            back = serde_json::to_value(PublicValues::<G>::from_public_inputs(&p)).unwrap();
        }
        out.push(serde_json::json!({"native_sums": sums, "circuit_sums": circuit, "transcript": native(&pv), "circuit_transcript": transcript, "back": back}));
    }
    serde_json::to_string(&out).unwrap()
}
