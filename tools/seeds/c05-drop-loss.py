{'property': 'C05', 'edits': [('src/ieee.rs', "            loss = sig::shift_right(&mut wide_sig, &mut self.exp, bits).combine(loss);\n        }\n\n        self.sig[0]", "            let shifted = sig::shift_right(&mut wide_sig, &mut self.exp, bits);\n            if shifted != Loss::ExactlyZero || loss == Loss::LessThanHalf {\n                loss = shifted.combine(loss);\n            }\n        }\n\n        self.sig[0]")],
 'needs': 'a fused multiply-add whose alignment loses at least half a unit of the wide significand while the narrowing shift loses nothing',
 'breaks': 'the alignment loss is taken for a loss of the narrowed significand, so a tiny addend rounds the result up by a whole unit',
 'demo': '''
    for e in 1..120u32 {
        let a = f32::from_bits(0x3f80_0000);
        let b = f32::from_bits(0x3fc0_0000);
        for m in [0x0040_0000u32, 0x0060_0001, 0x007f_ffff, 0] {
            let c = f32::from_bits((127 - e) << 23 | m);
            let got = Single::from_bits(a.to_bits() as u128).mul_add_r(
                Single::from_bits(b.to_bits() as u128), Single::from_bits(c.to_bits() as u128), Round::NearestTiesToEven);
            assert_eq!(got.value.to_bits(), a.mul_add(b, c).to_bits() as u128, "{c:e}");
        }
    }
'''}
