PROPS = "P42"
SCOPE = "core"
S = "stacks-core/src/uint.rs"
def e(*p): return (S, list(p))
ADDL = '''		let mut ret = [0u64; N];
		let mut carry = [0u64; N];
		let mut b_carry = false;

		for i in 0..N {
			ret[i] = me[i].wrapping_add(you[i]);
			if i < N - 1 && ret[i] < me[i] {
				carry[i + 1] = 1;
				b_carry = true;
			}
		}

		if b_carry {
			Self(ret) + Self(carry)
		} else {
			Self(ret)
		}
'''
ANDL = '''		let Uint(ref arr1) = self;
		let Uint(ref arr2) = other;

		let mut ret = [0u64; N];
		for i in 0..N {
			ret[i] = arr1[i] & arr2[i];
		}

		Uint(ret)
'''
CMP = '''		for i in 0..N {
			if self.0[N - 1 - i] < other.0[N - 1 - i] {
				return Ordering::Less;
			}

			if self.0[N - 1 - i] > other.0[N - 1 - i] {
				return Ordering::Greater;
			}
		}

		Ordering::Equal
'''
BITS = '''		for i in 1..N {
			if self.0[N - i] > 0 {
				return (0x40 * (N - i + 1))
					- self.0[N - i].leading_zeros() as usize;
			}
		}

		0x40 - self.0[0].leading_zeros() as usize
'''
INC = '''		let &mut Uint(ref mut arr) = self;

		for item in arr.iter_mut().take(N) {
			*item = item.wrapping_add(1);

			if *item != 0 {
				break;
			}
		}
'''
SHL = '''			// Shift
			if bit_shift < 64 && i + word_shift < N {
				ret[i + word_shift] += original[i] << bit_shift;
			}

			// Carry
			if bit_shift > 0 && i + word_shift + 1 < N {
				ret[i + word_shift + 1] += original[i] >> (64 - bit_shift);
			}
'''
SHR = '''			// Shift
			ret[i - word_shift] += original[i] >> bit_shift;

			// Carry
			if bit_shift > 0 && i < N - 1 {
				ret[i - word_shift] += original[i + 1] << (64 - bit_shift);
			}
'''
LOSSY = '''		let source = source.as_ref();
		let mut dest = [0u64; N];
		let bytes_shared = M.min(N);

		dest[..bytes_shared].copy_from_slice(&source.0[..bytes_shared]);

		Uint(dest)
'''
MULU = '''			if not_last_word {
				carry[i + 1] += upper >> 32;
			}

			let (sum, overflow) = lower.overflowing_add(upper << 32);
			ret[i] = sum;

			if overflow && not_last_word {
				carry[i + 1] += 1;
			}
'''
MUTS = [x + (y,) for x, y in [
 (e(("if i < N - 1 && ret[i] < me[i] {", "if i < N - 2 && ret[i] < me[i] {")), 1),
 (e(("ret[i] < me[i] {", "ret[i] <= me[i] {")), 1),
 (e(("				b_carry = true;\n", "				b_carry = i > 0;\n")), 1),
 (e(("carry[i + 1] = 1;", "carry[i] = 1;")), 1),
 (e(("self + !other + Self::one()", "self + !other")), 1),
 (e(("let upper = other as u64 * (self.0[i] >> 32);", "let upper = other as u64 * (self.0[i] >> 31);")), 1),
 (e(("if overflow && not_last_word {\n				carry[i + 1] += 1;", "if overflow && i < N - 2 {\n				carry[i + 1] += 1;")), 1),
 (e(("if not_last_word {\n				carry[i + 1] += upper >> 32;", "if not_last_word {\n				carry[i + 1] = upper >> 33;")), 1),
 (e(("for i in 0..(2 * N) {", "for i in 0..N {")), 1),
 (e(("(self.mul_u32(to_mul) << (32 * i))", "(self.mul_u32(to_mul) << (32 * i / 64 * 64))")), 1),
 (e(("let to_mul = (other >> (32 * i)).low_u32();", "let to_mul = (other >> (32 * i)).low_u64() as u32 & 0x7fffffff;")), 1),
 (e(("if bit_shift > 0 && i < N - 1 {", "if bit_shift > 0 && i < N - 2 {")), 1),
 (e(("if bit_shift > 0 && i + word_shift + 1 < N {", "if bit_shift > 1 && i + word_shift + 1 < N {")), 1),
 (e(("original[i] >> (64 - bit_shift)", "original[i] >> (63 - bit_shift)")), 1),
 (e(("if bit_shift < 64 && i + word_shift < N {", "if bit_shift < 63 && i + word_shift < N {")), 1),
 (e(("ret[i] = arr1[i] & arr2[i];", "ret[i] = arr1[i] & arr2[N - 1 - i];")), 1),
 (e(("ret[i] = arr1[i] ^ arr2[i];", "ret[i] = arr1[i] | arr2[i];")), 1),
 (e(("ret[i] = !arr[i];", "ret[i] = !arr[i].swap_bytes();")), 1),
 (e((CMP, CMP.replace("N - 1 - i", "i"))), 1),
 (e((CMP, CMP.replace("0..N", "0..N - 1"))), 1),
 (e(("for i in 1..N {\n			if self.0[N - i] > 0 {", "for i in 1..N - 1 {\n			if self.0[N - i] > 0 {")), 1),
 (e(("if self.0[N - i] > 0 {", "if self.0[N - i] > 1 {")), 1),
 (e(("for item in arr.iter_mut().take(N) {", "for item in arr.iter_mut().take(N - 1) {")), 1),
 (e(("if *item != 0 {", "if *item != 1 {")), 1),
 (e(("ret[1] = (value >> 64) as u64;", "ret[1] = (value >> 64) as u32 as u64;")), 1),
 (e(("		(value as u64).into()\n	}\n}\n\nimpl<const N: usize> From<u64>", "		(value as u16 as u64).into()\n	}\n}\n\nimpl<const N: usize> From<u64>")), 1),
 (e(("let bytes_shared = M.min(N);\n\n		dest[..bytes_shared].copy_from_slice(&source.0", "let bytes_shared = M.min(N) / 2;\n\n		dest[..bytes_shared].copy_from_slice(&source.0")), 1),
 (e(('assert!(M < N, "Cannot convert larger Uint to smaller");\n\n		let source = source.as_ref();\n		let mut dest = [0u64; N];\n\n		dest[..M].copy_from_slice(&source.0[..M]);', 'let source = source.as_ref();\n		let mut dest = [0u64; N];\n		let m = M.min(N);\n		dest[..m].copy_from_slice(&source.0[..m]);')), 1),
 (e(("dest[..N].copy_from_slice(&self.0);", "dest[..N - 1].copy_from_slice(&self.0[..N - 1]);")), 1),
 (e(("pub const MAX: Self = Self([0xffffffffffffffff; N]);", "pub const MAX: Self = Self([0xffffffffffffff; N]);")), 1),
 (e(("		self.0[0] as u32\n", "		(self.0[0] >> 32) as u32\n")), 1),
 # the same otherwise
 (e((ADDL, '''		let mut ret = [0u64; N];
		let mut carry = false;

		for i in 0..N {
			let (sum, first) = me[i].overflowing_add(you[i]);
			let (sum, second) = sum.overflowing_add(carry as u64);

			ret[i] = sum;
			carry = first || second;
		}

		Self(ret)
''')), 0),
 (e((ADDL, '''		let mut ret = [0u64; N];
		let mut carry = 0u128;

		for i in 0..N {
			let sum = me[i] as u128 + you[i] as u128 + carry;

			ret[i] = sum as u64;
			carry = sum >> 64;
		}

		Self(ret)
''')), 0),
 (e(("ret[i] < me[i] {", "ret[i] < you[i] {")), 0),
 (e((ADDL, ADDL.replace("ret[i] = me[i].wrapping_add(you[i]);\n			if i < N - 1 && ret[i] < me[i] {", "let (sum, overflow) = me[i].overflowing_add(you[i]);\n			ret[i] = sum;\n			if i + 1 < N && overflow {"))), 0),
 (e(("self + !other + Self::one()", "self + (!other + Self::one())")), 0),
 (e(("self + !other + Self::one()", "let mut negated = !other;\n		negated.increment();\n\n		self + negated")), 0),
 (e((ANDL, "		Uint(std::array::from_fn(|i| self.0[i] & other.0[i]))\n")), 0),
 (e((ANDL, ANDL.replace("[0u64; N];\n		for i in 0..N {\n			ret[i] = arr1[i] & arr2[i];\n", "*arr1;\n		for (limb, other) in ret.iter_mut().zip(arr2.iter()) {\n			*limb &= other;\n"))), 0),
 (e((ANDL, ANDL.replace("for i in 0..N {\n			ret[i] = arr1[i] & arr2[i];\n", "for (r, (a, b)) in ret.iter_mut().zip(arr1.iter().zip(arr2)) {\n			*r = a & b;\n"))), 0),
 (e(('''		let Uint(ref arr) = self;

		let mut ret = [0u64; N];
		for i in 0..N {
			ret[i] = !arr[i];
		}

		Uint(ret)
''', "		Uint(self.0.map(|limb| !limb))\n")), 0),
 (e((CMP, "		self.0.iter().rev().cmp(other.0.iter().rev())\n")), 0),
 (e((CMP, '''		for (mine, theirs) in self.0.iter().zip(other.0.iter()).rev() {
			match mine.cmp(theirs) {
				Ordering::Equal => continue,
				different => return different,
			}
		}

		Ordering::Equal
''')), 0),
 (e((CMP, '''		for i in (0..N).rev() {
			if self.0[i] != other.0[i] {
				return self.0[i].cmp(&other.0[i]);
			}
		}

		Ordering::Equal
''')), 0),
 (e((BITS, '''		for i in (1..N).rev() {
			if self.0[i] != 0 {
				return 64 * (i + 1) - self.0[i].leading_zeros() as usize;
			}
		}

		64 - self.0[0].leading_zeros() as usize
''')), 0),
 (e((BITS, '''		for (i, limb) in self.0.iter().enumerate().rev() {
			if *limb != 0 {
				return 64 * (i + 1) - limb.leading_zeros() as usize;
			}
		}

		0
''')), 0),
 (e((INC, '''		for item in self.0.iter_mut() {
			let (sum, overflow) = item.overflowing_add(1);
			*item = sum;

			if !overflow {
				return;
			}
		}
''')), 0),
 (e((INC, '''		*self = *self + Self::one();
''')), 0),
 (e((SHL, SHL.replace("+=", "|="))), 0),
 (e((SHL, SHL.replace("if bit_shift < 64 && i", "if i"))), 0),
 (e((SHR, SHR.replace("+=", "|="))), 0),
 (e((SHR, '''			let mut limb = original[i] >> bit_shift;

			if bit_shift != 0 && i + 1 < N {
				limb |= original[i + 1] << (64 - bit_shift);
			}

			ret[i - word_shift] = limb;
''')), 0),
 (e((LOSSY, '''		let source = source.as_ref();
		let mut dest = [0u64; N];

		for (to, from) in dest.iter_mut().zip(source.0.iter()) {
			*to = *from;
		}

		Uint(dest)
''')), 0),
 (e((LOSSY, '''		source.as_ref().to_uint_lossy()
''')), 0),
 (e((MULU, '''			let (sum, overflow) = lower.overflowing_add(upper << 32);
			ret[i] = sum;

			if not_last_word {
				carry[i + 1] = (upper >> 32) + u64::from(overflow);
			}
''')), 0),
 (e(('''		let mut carry = [0u64; N];
		let mut ret = [0u64; N];

		for i in 0..N {
			let not_last_word''', '''		let mut ret = [0u64; N];
		let mut carry = 0u128;

		for i in 0..N {
			let product = self.0[i] as u128 * other as u128 + carry;
			ret[i] = product as u64;
			carry = product >> 64;
		}

		if N > 0 {
			return Self(ret);
		}

		let mut carry = [0u64; N];
		for i in 0..N {
			let not_last_word''')), 0),
 (e(("me = me + (self.mul_u32(to_mul) << (32 * i));", "let part = self.mul_u32(to_mul);\n\n			me = me + (part << (32 * i));")), 0),
 (e(("		let mut ret = [0; N];\n		ret[0] = 1;\n\n		Uint(ret)", "		1u64.into()")), 0),
 (e(("		(value as u64).into()\n	}\n}\n\nimpl<const N: usize> From<u16>", "		u64::from(value).into()\n	}\n}\n\nimpl<const N: usize> From<u16>")), 0),
]]
