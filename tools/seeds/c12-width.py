{'property': 'C12', 'edits': [('src/ieee.rs', "                    if bits > width {\n                        return", "                    if bits > width + 1 {\n                        return")],
 'needs': 'a value of 129 bits converted at width 128, so that the left shift drops its top bit',
 'breaks': 'the overflow is not noticed when the truncated value still fits',
 'demo': '''
    let mut e = true;
    let r = Double::from_bits(2f64.powi(128).to_bits() as u128).to_u128_r(128, Round::TowardZero, &mut e);
    assert_eq!((r.value, r.status, e), (!0, Status::INVALID_OP, false));
'''}
