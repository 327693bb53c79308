{'property': 'C04', 'edits': [('src/ieee.rs', "if divisor_bits * 2 <= $half {", "if divisor_bits <= $half {"), ('src/ieee.rs', "return lost_fraction(&[(rem as Limb) << 1], &[divisor as Limb]);", "return lost_fraction(&[(rem << 1) as Limb], &[divisor as Limb]);")],
 'needs': 'a divisor with exactly 16, 32 or 64 significant bits and a last remainder of at least half of the limb range',
 'breaks': 'the doubled remainder loses its top bit, so a lost fraction above one half is classified as below it',
 'demo': '''
    for i in 0..4000u64 {
        let b = f32::from_bits(0x3f80_0000 | (((0x7fff - 2 * (i % 50)) as u32) << 8)); // 16 significant bits
        let a = f32::from_bits(0x3f80_0001 + (i as u32) * 1237);
        let got = Single::from_bits(a.to_bits() as u128).div_r(Single::from_bits(b.to_bits() as u128), Round::NearestTiesToEven);
        assert_eq!(got.value.to_bits(), (a / b).to_bits() as u128, "{a:e} / {b:e}");
    }
'''}
