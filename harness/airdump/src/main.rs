fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let ok = evm_arithmetization::zkevm_verif::replay(&a[2]);
        println!("{}", if ok { "accepted" } else { "rejected" });
        return;
    }
    evm_arithmetization::zkevm_verif::dump(&a[1]);
}
