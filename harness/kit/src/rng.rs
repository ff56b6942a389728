//! Deterministic generator (xoshiro256** seeded by splitmix64), no dependency.
use bitcoin::secp256k1::SecretKey;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// How many edge-case secret keys may still be handed out (they collide with each other).
    pub edge_keys: u32,
    /// Bits of output numbers that generators may use.
    pub vout_mask: u32,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Self { s, edge_keys: u32::MAX, vout_mask: u32::MAX }
    }
    pub fn for_case(seed: u64, prop: &str, case: u64) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        let mut x = seed ^ h.rotate_left(17);
        let a = splitmix(&mut x);
        Self::new(a ^ case.wrapping_mul(0xA24B_AED4_963E_E407))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        self.fill(&mut b);
        b
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn vec(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
    pub fn u32(&mut self) -> u32 {
        self.next() as u32
    }
    /// A u32 biased to byte boundaries and extremes.
    pub fn edgy_u32(&mut self) -> u32 {
        const E: &[u32] = &[
            0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536, 65537, 0x00ff_ffff,
            0x0100_0000, 0x0100_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 1000, 0x0002_0001, 0x0001_0002,
        ];
        if self.chance(3, 4) {
            *self.pick(E)
        } else {
            self.u32()
        }
    }
    pub fn sk(&mut self) -> SecretKey {
        loop {
            // now and then an edge scalar
            let which = self.below(40);
            let which = if which < 3 && self.edge_keys == 0 { 3 } else { which };
            if which < 3 {
                self.edge_keys = self.edge_keys.saturating_sub(1);
            }
            let b = match which {
                0 => {
                    let mut b = [0u8; 32];
                    b[31] = self.range(1, 3) as u8;
                    b
                }
                1 => {
                    // n - small
                    let mut b = [
                        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
                        0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c,
                        0xd0, 0x36, 0x41, 0x41,
                    ];
                    b[31] -= self.range(1, 3) as u8;
                    b
                }
                2 => {
                    let mut b = self.bytes::<32>();
                    b[0] = 0;
                    b[1] = 0;
                    b
                }
                _ => self.bytes::<32>(),
            };
            if let Ok(k) = SecretKey::from_slice(&b) {
                return k;
            }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}
