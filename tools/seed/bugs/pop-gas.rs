pub fn demo() -> bool {
    let (rows, _) = cpu_rows(&[0x50, 0x5b], false, &[U256::from(7), U256::from(8)], 2);
    if !cpu_ok(&rows[0], &rows[1]) { return false; }
    let mut nv = rows[1];
    nv.gas = rows[0].gas;
    !cpu_ok(&rows[0], &nv)
}
