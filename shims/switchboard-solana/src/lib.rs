//! Offline stand-in for the parts of `switchboard-solana` 0.29 that openbook-v2 reads.
use bytemuck::{Pod, Zeroable};

#[derive(Clone, Copy, Debug, Pod, Zeroable, PartialEq)]
#[repr(C, packed)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u32,
}

impl TryFrom<SwitchboardDecimal> for f64 {
    type Error = String;
    fn try_from(v: SwitchboardDecimal) -> Result<f64, String> {
        let (m, s) = (v.mantissa, v.scale);
        // the original goes through rust_decimal, which supports 96 bits and scales up to 28
        if s > 28 || m.unsigned_abs() >> 96 != 0 {
            return Err("SwitchboardDecimalConversionError".into());
        }
        format!("{m}e-{s}").parse().map_err(|e| format!("{e:?}"))
    }
}

#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C, packed)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub num_error: u32,
    pub is_closed: u8,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
    pub min_response: SwitchboardDecimal,
    pub max_response: SwitchboardDecimal,
    pub oracle_pubkeys_data: [[u8; 32]; 16],
    pub medians_data: [SwitchboardDecimal; 16],
    pub current_payout: [i64; 16],
    pub medians_fulfilled: [u8; 16],
    pub errors_fulfilled: [u8; 16],
}

#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C, packed)]
pub struct AggregatorAccountData {
    pub name: [u8; 32],
    pub metadata: [u8; 128],
    pub _reserved1: [u8; 32],
    pub queue_pubkey: [u8; 32],
    pub oracle_request_batch_size: u32,
    pub min_oracle_results: u32,
    pub min_job_results: u32,
    pub min_update_delay_seconds: u32,
    pub start_after: i64,
    pub variance_threshold: SwitchboardDecimal,
    pub force_report_period: i64,
    pub expiration: i64,
    pub consecutive_failure_count: u64,
    pub next_allowed_update_time: i64,
    pub is_locked: u8,
    pub crank_pubkey: [u8; 32],
    pub latest_confirmed_round: AggregatorRound,
    pub current_round: AggregatorRound,
    pub job_pubkeys_data: [[u8; 32]; 16],
    pub job_hashes: [[u8; 32]; 16],
    pub job_pubkeys_size: u32,
    pub jobs_checksum: [u8; 32],
    pub authority: [u8; 32],
    pub history_buffer: [u8; 32],
    pub previous_confirmed_round_result: SwitchboardDecimal,
    pub previous_confirmed_round_slot: u64,
    pub disable_crank: u8,
    pub job_weights: [u8; 16],
    pub creation_timestamp: i64,
    /// 0: round resolution, 1: sliding resolution
    pub resolution_mode: u8,
    pub base_priority_fee: u32,
    pub priority_fee_bump: u32,
    pub priority_fee_bump_period: u32,
    pub max_priority_fee_multiplier: u32,
    pub parent_function: [u8; 32],
    pub _ebuf: [u8; 90],
}

const _: () = assert!(std::mem::size_of::<AggregatorAccountData>() == 3851 - 8);

impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, String> {
        if self.resolution_mode == 1 {
            return Ok(self.latest_confirmed_round.result);
        }
        let min = self.min_oracle_results;
        let got = self.latest_confirmed_round.num_success;
        if min > got {
            return Err("InvalidAggregatorRound".into());
        }
        Ok(self.latest_confirmed_round.result)
    }
}
