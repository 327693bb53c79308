{'property': 'C08', 'edits': [('src/ieee.rs', "if self.exp + 1 >= S::PRECISION as ExpInt {", "if self.exp + 2 >= S::PRECISION as ExpInt {")],
 'needs': 'a value in the last binade that still has a fractional bit (e.g. 4194304.5 in Single)',
 'breaks': 'such values are returned unrounded and reported exact, and is_integer says true',
 'demo': '''
    let a = Single::from_bits(4194304.5f32.to_bits() as u128);
    assert_eq!(a.round_to_integral(Round::TowardZero).value.to_bits(), 4194304f32.to_bits() as u128);
    let a = Quad::from_bits((0x3fff + 111) << 112 | 1);
    assert!(!a.is_integer());
'''}
