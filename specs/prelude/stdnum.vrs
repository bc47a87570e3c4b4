pub assume_specification [u32::div_euclid] (x: u32, y: u32) -> (r: u32)
    requires y != 0
    ensures r == x as int / y as int;
