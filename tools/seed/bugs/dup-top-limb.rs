pub fn demo() -> bool {
    let s = [U256::from(11), U256::from(22), U256::MAX];
    for op in [0x81u8, 0x91] {
        let (rows, _) = cpu_rows(&[op, 0x5b], true, &s, 2);
        if !cpu_ok(&rows[0], &rows[1]) { return false; }
        let mut nv = rows[1];
        nv.mem_channels[0].value[7] += f(5);
        if cpu_ok(&rows[0], &nv) { return false; }
    }
    true
}
