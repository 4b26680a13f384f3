pub fn demo() -> bool {
    let (rows, _) = cpu_rows(&[0x30], false, &[U256::from(7)], 2);
    if !cpu_ok(&rows[0], &rows[1]) { return false; }
    let mut nv = rows[1];
    nv.context += f(1);
    nv.mem_channels[0].addr_context += f(1);
    !cpu_ok(&rows[0], &nv)
}
