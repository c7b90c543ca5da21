//! Offline stand-in for the parts of `switchboard-program` 0.2 that openbook-v2 reads.
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResultAccountData {
    pub parent: [u8; 32],
    pub result: FastRoundResult,
}

impl FastRoundResultAccountData {
    pub fn deserialize(data: &[u8]) -> Result<Self, &'static str> {
        // one byte of account type, then the packed structure
        if data.len() < 1 + 32 + 48 {
            return Err("account too small");
        }
        let d = &data[1..];
        let mut parent = [0u8; 32];
        parent.copy_from_slice(&d[..32]);
        let i4 = |o: usize| i32::from_le_bytes(d[o..o + 4].try_into().unwrap());
        let w = |o: usize| -> [u8; 8] { d[o..o + 8].try_into().unwrap() };
        Ok(Self {
            parent,
            result: FastRoundResult {
                num_success: i4(32),
                num_error: i4(36),
                result: f64::from_le_bytes(w(40)),
                round_open_slot: u64::from_le_bytes(w(48)),
                round_open_timestamp: i64::from_le_bytes(w(56)),
                min_response: f64::from_le_bytes(w(64)),
                max_response: f64::from_le_bytes(w(72)),
            },
        })
    }
}
