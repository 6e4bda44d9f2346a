"""the wide integers rewritten in other styles, each with a breaking twin"""
SCOPE = "core"
PROPS = "P42 P01 P02 P11"
F = "stacks-core/src/uint.rs"
ADD = '''		let Self(ref me) = self;
		let Self(ref you) = other;

		let mut ret = [0u64; N];
		let mut carry = [0u64; N];
		let mut b_carry = false;

		for i in 0..N {
			ret[i] = me[i].wrapping_add(you[i]);
			if i < N - 1 && ret[i] < me[i] {
				carry[i + 1] = 1;
				b_carry = true;
			}
		}

		if b_carry {
			Self(ret) + Self(carry)
		} else {
			Self(ret)
		}
'''
MULU = '''		for i in 0..N {
			let not_last_word = i < N - 1;
			let upper = other as u64 * (self.0[i] >> 32);
			let lower = other as u64 * (self.0[i] & 0xFFFFFFFF);

			if not_last_word {
				carry[i + 1] += upper >> 32;
			}

			let (sum, overflow) = lower.overflowing_add(upper << 32);
			ret[i] = sum;

			if overflow && not_last_word {
				carry[i + 1] += 1;
			}
		}
'''
MUL = '''		for i in 0..(2 * N) {
			let to_mul = (other >> (32 * i)).low_u32();
			me = me + (self.mul_u32(to_mul) << (32 * i));
		}
'''
CMP = '''		for i in 0..N {
			if self.0[N - 1 - i] < other.0[N - 1 - i] {
				return Ordering::Less;
			}

			if self.0[N - 1 - i] > other.0[N - 1 - i] {
				return Ordering::Greater;
			}
		}

		Ordering::Equal
'''
SHL = '''		for i in 0..N {
			// Shift
			if bit_shift < 64 && i + word_shift < N {
				ret[i + word_shift] += original[i] << bit_shift;
			}

			// Carry
			if bit_shift > 0 && i + word_shift + 1 < N {
				ret[i + word_shift + 1] += original[i] >> (64 - bit_shift);
			}
		}
'''
SHR = '''		for i in word_shift..N {
			// Shift
			ret[i - word_shift] += original[i] >> bit_shift;

			// Carry
			if bit_shift > 0 && i < N - 1 {
				ret[i - word_shift] += original[i + 1] << (64 - bit_shift);
			}
		}
'''
BITS = '''		for i in 1..N {
			if self.0[N - i] > 0 {
				return (0x40 * (N - i + 1))
					- self.0[N - i].leading_zeros() as usize;
			}
		}

		0x40 - self.0[0].leading_zeros() as usize
'''
INC = '''		let &mut Uint(ref mut arr) = self;

		for item in arr.iter_mut().take(N) {
			*item = item.wrapping_add(1);

			if *item != 0 {
				break;
			}
		}
'''
ANDL = '''		let mut ret = [0u64; N];
		for i in 0..N {
			ret[i] = arr1[i] & arr2[i];
		}

		Uint(ret)
'''
BORROW = '''		let mut ret = [0u64; N];
		let mut borrow = false;

		for i in 0..N {
			let (partial, first) = self.0[i].overflowing_sub(other.0[i]);
			let (limb, second) = partial.overflowing_sub(u64::from(borrow));

			ret[i] = limb;
			borrow = first || second;
		}

		Self(ret)
'''
SUB = "		self + !other + Self::one()\n"
ADC = '''		let mut ret = [0u64; N];
		let mut carry = 0;

		for (i, limb) in ret.iter_mut().enumerate() {
			(*limb, carry) = add_with_carry(self.0[i], other.0[i], carry);
		}

		Self(ret)
'''
ADCF = '''fn add_with_carry(a: u64, b: u64, carry: u64) -> (u64, u64) {
	let sum = u128::from(a) + u128::from(b) + u128::from(carry);

	(sum as u64, (sum >> 64) as u64)
}

impl<const N: usize> Add<Uint<N>> for Uint<N> {'''
H = "impl<const N: usize> Add<Uint<N>> for Uint<N> {"
def e(*p): return (F, list(p))
SHLN = '''		for i in word_shift..N {
			ret[i] = original[i - word_shift] << bit_shift;

			if bit_shift > 0 && i > word_shift {
				ret[i] |= original[i - word_shift - 1] >> (64 - bit_shift);
			}
		}
'''
M128 = '''		for i in 0..N {
			let product = u128::from(self.0[i]) * u128::from(other);
			ret[i] = product as u64;

			if i + 1 < N {
				carry[i + 1] = (product >> 64) as u64;
			}
		}
'''
BITSR = '''		let top = match self.0.iter().rposition(|limb| *limb != 0) {
			Some(top) => top,
			None => return 0,
		};

		64 * (top + 1) - self.0[top].leading_zeros() as usize
'''
MUTS = [
 (*e((ADD, ADC), (H, ADCF)), 0),
 (*e((ADD, ADC), (H, ADCF.replace(" + u128::from(carry);", ";"))), 1),
 (*e((SUB, BORROW)), 0),
 (*e((SUB, BORROW.replace("first || second", "first"))), 1),
 (*e((SUB, BORROW.replace("first || second", "first ^ second"))), 0),
 (*e((MULU, M128)), 0),
 (*e((MULU, M128.replace("product >> 64", "product >> 65"))), 1),
 (*e((MUL, '''		for i in (0..(2 * N)).rev() {
			let shift = 32 * i;
			let part = self.mul_u32((other >> shift).low_u32());

			me = (part << shift) + me;
		}
''')), 0),
 (*e((MUL, '''		for (i, limb) in other.0.iter().enumerate() {
			let low = self.mul_u32(*limb as u32);
			let high = self.mul_u32((*limb >> 32) as u32);

			me = me + (low << (64 * i)) + (high << (64 * i + 32));
		}
''')), 0),
 (*e((MUL, '''		for (i, limb) in other.0.iter().enumerate() {
			let low = self.mul_u32(*limb as u32);
			let high = self.mul_u32((*limb >> 32) as u32);

			me = me + ((low + (high << 32)) << (64 * i));
		}
''')), 0),
 (*e((MUL, '''		for (i, limb) in other.0.iter().enumerate() {
			let low = self.mul_u32(*limb as u32);
			let high = self.mul_u32((*limb >> 33) as u32);

			me = me + ((low + (high << 33)) << (64 * i));
		}
''')), 1),
 (*e((CMP, '''		for (mine, theirs) in self.0.iter().rev().zip(other.0.iter().rev()) {
			if mine == theirs {
				continue;
			}

			return if mine < theirs {
				Ordering::Less
			} else {
				Ordering::Greater
			};
		}

		Ordering::Equal
''')), 0),
 (*e((CMP, '''		let mut result = Ordering::Equal;

		for i in 0..N {
			result = self.0[i].cmp(&other.0[i]).then(result);
		}

		result
''')), 0),
 (*e((CMP, '''		let mut result = Ordering::Equal;

		for i in 0..N {
			result = result.then(self.0[i].cmp(&other.0[i]));
		}

		result
''')), 1),
 (*e((CMP, '''		(0..N)
			.rev()
			.map(|i| self.0[i].cmp(&other.0[i]))
			.find(|order| order.is_ne())
			.unwrap_or(Ordering::Equal)
''')), 0),
 (*e((SHL, SHLN)), 0),
 (*e((SHL, SHLN.replace("i > word_shift {", "i > word_shift + 1 {"))), 1),
 (*e((SHR, '''		for i in 0..N.saturating_sub(word_shift) {
			let source = i + word_shift;
			let mut limb = original[source] >> bit_shift;

			if bit_shift > 0 {
				if let Some(next) = original.get(source + 1) {
					limb |= next << (64 - bit_shift);
				}
			}

			ret[i] = limb;
		}
''')), 0),
 (*e((SHR, '''		for i in 0..N.saturating_sub(word_shift) {
			let source = i + word_shift;
			let mut limb = original[source] >> bit_shift;

			if bit_shift > 0 {
				if let Some(next) = original.get(source + 1) {
					limb |= next << (63 - bit_shift);
				}
			}

			ret[i] = limb;
		}
''')), 1),
 (*e((BITS, BITSR)), 0),
 (*e((BITS, BITSR.replace("rposition", "position"))), 1),
 (*e((INC, '''		let mut carry = true;

		for limb in &mut self.0 {
			if carry {
				(*limb, carry) = limb.overflowing_add(1);
			}
		}
''')), 0),
 (*e((INC, '''		for i in 0..N {
			if self.0[i] == u64::MAX {
				self.0[i] = 0;
			} else {
				self.0[i] += 1;
				return;
			}
		}
''')), 0),
 (*e((ANDL, '''		let mut limbs = arr1.iter().zip(arr2).map(|(a, b)| a & b);

		Uint([(); N].map(|_| limbs.next().unwrap()))
''')), 0),
 (*e((ANDL, '''		let limbs: Vec<u64> =
			arr1.iter().zip(arr2).map(|(a, b)| a & b).collect();

		Uint(limbs.try_into().unwrap())
''')), 0),
 (*e(("		let mut ret = [0u64; N];\n\n		ret[0] = value as u64;\n		ret[1] = (value >> 64) as u64;\n", "		let mut ret = [0u64; N];\n		let high = value >> 64;\n\n		ret[..2].copy_from_slice(&[value as u64, high as u64]);\n")), 0),
 (*e(("		assert!(M >= N, \"Cannot convert larger Uint to smaller\");\n\n		let mut dest = [0u64; M];\n\n		dest[..N].copy_from_slice(&self.0);\n\n		Uint(dest)\n", "		assert!(N <= M, \"Cannot convert larger Uint to smaller\");\n\n		self.to_uint_lossy()\n")), 0),
 (*e(("		let mut dest = [0u64; M];\n		let bytes_shared = M.min(N);\n\n		dest[..bytes_shared].copy_from_slice(&self.0[..bytes_shared]);\n\n		Uint(dest)\n	}\n\n	fn one", "		let mut dest = [0u64; M];\n\n		for i in 0..M {\n			if i < N {\n				dest[i] = self.0[i];\n			}\n		}\n\n		Uint(dest)\n	}\n\n	fn one")), 0),
]
