{'property': 'C11', 'edits': [('src/lib.rs', "Self::from_u128_r(input.wrapping_neg() as u128, -round).map(|r| -r)", "Self::from_u128_r(input.saturating_neg() as u128, -round).map(|r| -r)")],
 'needs': 'the smallest 128-bit integer in a rounding mode or format that keeps the difference',
 'breaks': 'i128::MIN is converted as -(2^127 - 1)',
 'demo': '''
    let r = Quad::from_i128_r(i128::MIN, Round::NearestTiesToEven);
    assert_eq!(r.status, Status::OK);
    let r = Single::from_i128_r(i128::MIN, Round::TowardZero);
    assert_eq!(r.status, Status::OK);
'''}
