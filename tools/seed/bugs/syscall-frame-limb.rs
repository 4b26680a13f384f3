pub fn demo() -> bool {
    for (op, steps) in [(0x30u8, 2), (0x0c, 2)] {
        let (rows, _) = cpu_rows(&[op], false, &[U256::from(7)], steps);
        if !cpu_ok(&rows[0], &rows[1]) { return false; }
        for k in 0..8 {
            let mut nv = rows[1];
            nv.mem_channels[0].value[k] += f(2);
            if cpu_ok(&rows[0], &nv) { return false; }
        }
    }
    true
}
