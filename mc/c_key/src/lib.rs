use linkspace_cryptography::SigningKey;
/// the order of the group, minus one, and other scalars at the edges
pub fn secrets() -> Vec<[u8; 32]> {
    let n_1: [u8; 32] = {
        let mut v = [0u8; 32];
        let hex = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140";
        for i in 0..32 {
            v[i] = u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()
        }
        v
    };
    let small = |x: u8| {
        let mut v = [0u8; 32];
        v[31] = x;
        v
    };
    vec![small(1), small(2), small(3), small(5), n_1, [0x11; 32], [0x80; 32], [0xe1; 32], linkspace_cryptography::TEST_SECRET, {
        let mut v = [0xff; 32];
        v[..16].fill(0);
        v
    }]
}
pub fn bad_secrets() -> Vec<[u8; 32]> {
    let mut n = secrets()[4];
    n[31] += 1;
    let mut n1 = n;
    n1[31] += 1;
    vec![[0; 32], n, n1, [0xff; 32]]
}
pub fn key(s: &[u8; 32]) -> SigningKey {
    SigningKey::try_from(*s).unwrap()
}
pub fn secret(k: &SigningKey) -> [u8; 32] {
    k.0.to_bytes().into()
}
