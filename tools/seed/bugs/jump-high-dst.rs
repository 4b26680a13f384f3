pub fn demo() -> bool {
    let (rows, _) = cpu_rows(&[0x56, 0, 0x5b, 0x5b], true, &[U256::from(7), U256::from(1_000_002)], 2);
    if !cpu_ok(&rows[0], &rows[1]) { return false; }
    let mut lv = rows[0];
    lv.mem_channels[0].value[1] = f(3);
    !cpu_ok(&lv, &rows[1])
}
