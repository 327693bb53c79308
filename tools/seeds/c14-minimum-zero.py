{'property': 'C14', 'edits': [('src/lib.rs', "        } else if self.is_zero() && other.is_zero() && self.is_negative() != other.is_negative() {\n            if self.is_negative() {\n                self\n", "        } else if self.is_neg_zero() && other.is_zero() {\n            if self.is_negative() {\n                self\n")],
 'needs': 'minimum of +0 and -0 in that order',
 'breaks': 'returns +0',
 'demo': '''
    let r = Double::ZERO.minimum(-Double::ZERO);
    assert!(r.is_neg_zero());
    let r = (-Double::ZERO).minimum(Double::ZERO);
    assert!(r.is_neg_zero());
'''}
