//! `pubdump DIR`: as airdump; `pubdump public [FILE]`: see hooks/evm_arithmetization.public.rs.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "public" => println!("{}", evm_arithmetization::zkevm_verif_public::public(a.get(2).map_or("", |s| s.as_str()))),
        d => evm_arithmetization::zkevm_verif::dump(d),
    }
}
