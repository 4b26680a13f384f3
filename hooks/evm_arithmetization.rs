// Appended by /verif/lib/view.py as a module of evm_arithmetization in the view it builds from
// /repo; not part of /repo.  It runs the crate's own, generic constraint code on symbolic values.
#![allow(missing_docs, clippy::all, dead_code, unused)]
use core::iter::{Product, Sum};
use core::ops::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;

use plonky2::field::goldilocks_field::GoldilocksField as G;
use plonky2::field::packed::PackedField;
use plonky2::field::types::{Field, PrimeField64};
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

/// A symbolic packed field element: an index into a hash-consed expression arena.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Sym(pub u32);

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u64),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Acc(u32),
}

/// The random combination challenge: multiplications by it delimit the constraints.
pub const ALPHA: u64 = 0x5eed_a1fa_0bad_cafe;

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub map: HashMap<Node, u32>,
}
thread_local! { static A: RefCell<Arena> = RefCell::new(fresh()); }
fn fresh() -> Arena {
    let mut a = Arena::default();
    for c in [0u64, 1] {
        a.nodes.push(Node::Const(c));
        a.map.insert(Node::Const(c), c as u32);
    }
    a
}
fn mk(n: Node) -> Sym {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&i) = a.map.get(&n) {
            return Sym(i);
        }
        let i = a.nodes.len() as u32;
        a.nodes.push(n);
        a.map.insert(n, i);
        Sym(i)
    })
}
fn get(s: Sym) -> Node {
    A.with(|a| a.borrow().nodes[s.0 as usize])
}
fn cst(g: G) -> Sym {
    mk(Node::Const(g.to_canonical_u64()))
}
pub fn var(i: u32) -> Sym {
    mk(Node::Var(i))
}
fn add(a: Sym, b: Sym) -> Sym {
    match (get(a), get(b)) {
        (Node::Acc(_), _) => mk(Node::Add(a.0, b.0)),
        (Node::Const(x), Node::Const(y)) => cst(G::from_canonical_u64(x) + G::from_canonical_u64(y)),
        (Node::Const(0), _) => b,
        (_, Node::Const(0)) => a,
        _ => mk(Node::Add(a.0, b.0)),
    }
}
fn sub(a: Sym, b: Sym) -> Sym {
    match (get(a), get(b)) {
        (Node::Const(x), Node::Const(y)) => cst(G::from_canonical_u64(x) - G::from_canonical_u64(y)),
        (_, Node::Const(0)) => a,
        _ => mk(Node::Sub(a.0, b.0)),
    }
}
fn mul(a: Sym, b: Sym) -> Sym {
    if get(b) == Node::Const(ALPHA) {
        return mk(Node::Acc(a.0));
    }
    match (get(a), get(b)) {
        (Node::Const(x), Node::Const(y)) => cst(G::from_canonical_u64(x) * G::from_canonical_u64(y)),
        (Node::Const(0), _) | (_, Node::Const(0)) => Sym(0),
        (Node::Const(1), _) => b,
        (_, Node::Const(1)) => a,
        _ => mk(Node::Mul(a.0, b.0)),
    }
}
macro_rules! bin {
    ($t:ident, $f:ident, $at:ident, $af:ident, $g:ident) => {
        impl $t<Sym> for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { $g(self, o) } }
        impl $t<G> for Sym { type Output = Sym; fn $f(self, o: G) -> Sym { $g(self, cst(o)) } }
        impl $t<Sym> for G { type Output = Sym; fn $f(self, o: Sym) -> Sym { $g(cst(self), o) } }
        impl $at<Sym> for Sym { fn $af(&mut self, o: Sym) { *self = $g(*self, o) } }
        impl $at<G> for Sym { fn $af(&mut self, o: G) { *self = $g(*self, cst(o)) } }
    };
}
bin!(Add, add, AddAssign, add_assign, add);
bin!(Sub, sub, SubAssign, sub_assign, sub);
bin!(Mul, mul, MulAssign, mul_assign, mul);
impl Div<G> for Sym { type Output = Sym; fn div(self, o: G) -> Sym { mul(self, cst(o.inverse())) } }
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { sub(Sym(0), self) } }
impl From<G> for Sym { fn from(g: G) -> Sym { cst(g) } }
impl Sum for Sym { fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym(0), |a, b| a + b) } }
impl Product for Sym { fn product<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym(1), |a, b| a * b) } }
unsafe impl PackedField for Sym {
    type Scalar = G;
    const WIDTH: usize = 1;
    const ZEROS: Self = Sym(0);
    const ONES: Self = Sym(1);
    fn from_slice(_: &[G]) -> &Self { unimplemented!() }
    fn from_slice_mut(_: &mut [G]) -> &mut Self { unimplemented!() }
    fn as_slice(&self) -> &[G] { unimplemented!() }
    fn as_slice_mut(&mut self) -> &mut [G] { unimplemented!() }
    fn interleave(&self, _: Self, _: usize) -> (Self, Self) { unimplemented!() }
}

const D: usize = 2;

fn dump_table<S: Stark<G, D>>(name: &str, stark: &S, out: &mut impl Write) {
    A.with(|a| *a.borrow_mut() = fresh());
    let n = <S::EvaluationFrame<G, Sym, 1> as StarkEvaluationFrame<Sym, G>>::COLUMNS;
    let lv: Vec<Sym> = (0..n as u32).map(var).collect();
    let nv: Vec<Sym> = (n as u32..2 * n as u32).map(var).collect();
    let (zl, lf, ll) = (var(2 * n as u32), var(2 * n as u32 + 1), var(2 * n as u32 + 2));
    let mut cc = ConstraintConsumer::<Sym>::new(vec![G::from_canonical_u64(ALPHA)], zl, lf, ll);
    let frame = S::EvaluationFrame::<G, Sym, 1>::from_values(&lv, &nv, &[]);
    stark.eval_packed_generic::<G, Sym, 1>(&frame, &mut cc);
    let mut acc = cc.accumulators()[0];
    let mut cons = vec![];
    while acc != Sym(0) {
        match get(acc) {
            Node::Add(p, c) => match get(Sym(p)) {
                Node::Acc(q) => {
                    cons.push(c);
                    acc = Sym(q);
                }
                x => panic!("unexpected accumulator {x:?}"),
            },
            x => panic!("unexpected accumulator {x:?}"),
        }
    }
    cons.reverse();
    let nodes: Vec<String> = A.with(|a| {
        a.borrow().nodes.iter().map(|n| match n {
            Node::Const(c) => format!("[\"c\",{c}]"),
            Node::Var(v) => format!("[\"v\",{v}]"),
            Node::Add(a, b) => format!("[\"+\",{a},{b}]"),
            Node::Sub(a, b) => format!("[\"-\",{a},{b}]"),
            Node::Mul(a, b) => format!("[\"*\",{a},{b}]"),
            Node::Acc(a) => format!("[\"A\",{a}]"),
        }).collect()
    });
    writeln!(out, "{{\"name\":{name:?},\"ncols\":{n},\"degree\":{},\"nodes\":[{}],\"constraints\":{:?},\"lookups\":{:?}}}",
        stark.constraint_degree(), nodes.join(","), cons, format!("{:?}", stark.lookups())).unwrap();
}

fn r(x: Range<usize>) -> Vec<usize> { x.collect() }

/// Writes every table's constraints, its column names, the cross-table lookups and the kernel.
pub fn dump(dir: &str) {
    use crate::all_stark::*;
    let s = AllStark::<G, D>::default();
    let mut f = |n: &str| std::io::BufWriter::new(std::fs::File::create(format!("{dir}/{n}.json")).unwrap());
    dump_table("arithmetic", &s.arithmetic_stark, &mut f("arithmetic"));
    dump_table("byte_packing", &s.byte_packing_stark, &mut f("byte_packing"));
    dump_table("cpu", &s.cpu_stark, &mut f("cpu"));
    dump_table("keccak", &s.keccak_stark, &mut f("keccak"));
    dump_table("keccak_sponge", &s.keccak_sponge_stark, &mut f("keccak_sponge"));
    dump_table("logic", &s.logic_stark, &mut f("logic"));
    dump_table("memory", &s.memory_stark, &mut f("memory"));
    dump_table("mem_before", &s.mem_before_stark, &mut f("mem_before"));
    dump_table("mem_after", &s.mem_after_stark, &mut f("mem_after"));
    let mut o = f("ctl");
    write!(o, "{}", serde_json::json!({
        "ctls": s.cross_table_lookups.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>(),
        "tables": Table::all().iter().map(|t| (format!("{t:?}"), **t)).collect::<std::collections::BTreeMap<_, _>>(),
        "optional": OPTIONAL_TABLE_INDICES.to_vec(),
    })).unwrap();
    let mut o = f("cols");
    {
        use crate::arithmetic::columns::*;
        use crate::cpu::columns::COL_MAP as C;
        use crate::keccak::columns as k;
        use crate::keccak::round_flags as _;
        use crate::memory_continuation::columns as mc;
        let mut k_a = vec![]; let mut k_c = vec![]; let mut k_cp = vec![]; let mut k_ap = vec![]; let mut k_app = vec![];
        let mut k_appp = vec![];
        for x in 0..5 {
            k_a.push((0..5).map(|y| k::reg_a(x, y)).collect::<Vec<_>>());
            k_c.push((0..64).map(|z| k::reg_c(x, z)).collect::<Vec<_>>());
            k_cp.push((0..64).map(|z| k::reg_c_prime(x, z)).collect::<Vec<_>>());
            k_ap.push((0..5).map(|y| (0..64).map(|z| k::reg_a_prime(x, y, z)).collect::<Vec<_>>()).collect::<Vec<_>>());
            k_app.push((0..5).map(|y| k::reg_a_prime_prime(x, y)).collect::<Vec<_>>());
            k_appp.push((0..5).map(|y| k::reg_a_prime_prime_prime(x, y)).collect::<Vec<_>>());
        }
        write!(o, "{}", serde_json::json!({
            "arithmetic": {
                "IS_ADD": IS_ADD, "IS_MUL": IS_MUL, "IS_SUB": IS_SUB, "IS_DIV": IS_DIV, "IS_MOD": IS_MOD,
                "IS_ADDMOD": IS_ADDMOD, "IS_MULMOD": IS_MULMOD, "IS_ADDFP254": IS_ADDFP254,
                "IS_MULFP254": IS_MULFP254, "IS_SUBFP254": IS_SUBFP254, "IS_SUBMOD": IS_SUBMOD,
                "IS_LT": IS_LT, "IS_GT": IS_GT, "IS_BYTE": IS_BYTE, "IS_SHL": IS_SHL, "IS_SHR": IS_SHR,
                "IS_RANGE_CHECK": IS_RANGE_CHECK, "OPCODE_COL": OPCODE_COL,
                "IN0": r(INPUT_REGISTER_0), "IN1": r(INPUT_REGISTER_1), "IN2": r(INPUT_REGISTER_2),
                "OUT": r(OUTPUT_REGISTER), "SHARED": r(SHARED_COLS),
                "RANGE_COUNTER": RANGE_COUNTER, "RC_FREQUENCIES": RC_FREQUENCIES, "N": NUM_ARITH_COLUMNS,
                "LIMB_BITS": LIMB_BITS,
                "MODULAR_MOD_IS_ZERO": MODULAR_MOD_IS_ZERO, "MODULAR_QUO_INPUT": r(MODULAR_QUO_INPUT),
                "MODULAR_OUT_AUX_RED": r(MODULAR_OUT_AUX_RED), "MODULAR_DIV_DENOM_IS_ZERO": MODULAR_DIV_DENOM_IS_ZERO,
            },
            "cpu": format!("{:?}", C),
            "logic": format!("{:?}", crate::logic::columns::LOGIC_COL_MAP),
            "memory": format!("{:?}", crate::memory::columns::MEMORY_COL_MAP),
            "byte_packing": format!("{:?}", crate::byte_packing::columns::BYTE_PACKING_COL_MAP),
            "keccak_sponge": format!("{:?}", crate::keccak_sponge::columns::KECCAK_SPONGE_COL_MAP),
            "keccak": {
                "step": (0..24).map(k::reg_step).collect::<Vec<_>>(),
                "TIMESTAMP": k::TIMESTAMP, "A": k_a, "C": k_c, "CP": k_cp, "AP": k_ap, "APP": k_app, "APPP": k_appp,
                "in_limb": (0..50).map(|i| format!("{:?}", k::reg_input_limb::<G>(i))).collect::<Vec<_>>(),
                "APP00": (0..64).map(k::reg_a_prime_prime_0_0_bit).collect::<Vec<_>>(),
                "out_limb": (0..50).map(k::reg_output_limb).collect::<Vec<_>>(),
            },
            "mem_cont": {"FILTER": mc::FILTER, "CTX": mc::ADDR_CONTEXT, "SEG": mc::ADDR_SEGMENT,
                "VIRT": mc::ADDR_VIRTUAL, "VALUE": (0..8).map(mc::value_limb).collect::<Vec<_>>()},
            "stack_size_field": crate::cpu::kernel::constants::context_metadata::ContextMetadata::StackSize.unscale(),
            "segments": crate::memory::segments::Segment::all().iter().map(|s| (format!("{s:?}"), s.unscale())).collect::<std::collections::BTreeMap<_, _>>(),
        })).unwrap();
    }
    let mut o = f("kernel");
    {
        let k = &*crate::cpu::kernel::aggregator::KERNEL;
        write!(o, "{}", serde_json::json!({
            "code": hex_of(&k.code),
            "labels": k.global_labels,
            "code_hash": format!("{:?}", k.code_hash),
            "constants": crate::cpu::kernel::constants::evm_constants().into_iter().map(|(n, v)| (n, format!("{v:#x}"))).collect::<std::collections::BTreeMap<_, _>>(),
            "prover_inputs": k.prover_inputs.iter().map(|(o, f)| (o.to_string(), format!("{f:?}"))).collect::<std::collections::BTreeMap<_, _>>(),
        })).unwrap();
    }
}
/// Runs the crate's own constraint code on a concrete pair of rows: are all constraints satisfied?
fn accepts<S: Stark<G, D>>(stark: &S, rows: &[Vec<G>], f: [u64; 3]) -> bool {
    let n = <S::EvaluationFrame<G, G, 1> as StarkEvaluationFrame<G, G>>::COLUMNS;
    assert!(rows.len() == 2 && rows.iter().all(|r| r.len() == n));
    let f = f.map(G::from_canonical_u64);
    let mut cc = ConstraintConsumer::<G>::new(vec![G::from_canonical_u64(ALPHA), G::from_canonical_u64(0x1234_5678_9abc_def1)], f[0], f[1], f[2]);
    let frame = S::EvaluationFrame::<G, G, 1>::from_values(&rows[0], &rows[1], &[]);
    stark.eval_packed_generic::<G, G, 1>(&frame, &mut cc);
    cc.accumulators().iter().all(|x| *x == G::from_canonical_u64(0))
}
/// FILE: {"table", "rows": [[u64], [u64]], "filters": [not last, first, last]}
pub fn replay(file: &str) -> bool {
    let s = crate::all_stark::AllStark::<G, D>::default();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let nums = |x: &serde_json::Value| x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap()).collect::<Vec<_>>();
    let rows: Vec<Vec<G>> = v["rows"].as_array().unwrap().iter().map(|r| nums(r).into_iter().map(G::from_canonical_u64).collect()).collect();
    let f: [u64; 3] = nums(&v["filters"]).try_into().unwrap();
    match v["table"].as_str().unwrap() {
        "arithmetic" => accepts(&s.arithmetic_stark, &rows, f),
        "byte_packing" => accepts(&s.byte_packing_stark, &rows, f),
        "cpu" => accepts(&s.cpu_stark, &rows, f),
        "keccak" => accepts(&s.keccak_stark, &rows, f),
        "keccak_sponge" => accepts(&s.keccak_sponge_stark, &rows, f),
        "logic" => accepts(&s.logic_stark, &rows, f),
        "memory" => accepts(&s.memory_stark, &rows, f),
        "mem_before" => accepts(&s.mem_before_stark, &rows, f),
        "mem_after" => accepts(&s.mem_after_stark, &rows, f),
        t => panic!("unknown table {t}"),
    }
}
fn hex_of(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
