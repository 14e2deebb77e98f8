//! Written by tools/mkwire.py.
use crate::{num, pk};
use mplx_rewards::{instruction as i, utils::LockupPeriod as L};
use serde_json::Value;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
pub fn key(a: &Value, n: &str) -> Pubkey {
    pk(&a[n])
}
pub fn date(a: &Value) -> Option<u64> {
    a.get("date").filter(|d| !d.is_null()).map(|d| num(d) as u64)
}
fn period(p: u8) -> L {
    [L::None, L::Flex, L::ThreeMonths, L::SixMonths, L::OneYear][p as usize]
}
pub fn ctor(name: &str, k: &Value, a: &Value) -> Instruction {
    let p = &key(k, "program");
    match name {
        "initialize_pool" => i::initialize_pool(p, &key(k, "pool"), &key(k, "mint"), &key(k, "vault"), &key(k, "payer"), &key(k, "auth"), &key(a, "fill_authority"), &key(a, "distribute_authority")),
        "fill_vault" => i::fill_vault(p, &key(k, "pool"), &key(k, "mint"), &key(k, "vault"), &key(k, "auth"), &key(k, "source"), num(&a["rewards"]) as u64, num(&a["ends"]) as u64),
        "initialize_mining" => i::initialize_mining(p, &key(k, "pool"), &key(k, "member"), &key(k, "payer"), &key(a, "owner")),
        "deposit_mining" => i::deposit_mining(p, &key(k, "pool"), &key(k, "member"), &key(k, "auth"), &key(k, "delegate"), num(&a["amount"]) as u64, period(num(&a["period"]) as u8), &key(a, "owner"), &key(a, "delegate")),
        "withdraw_mining" => i::withdraw_mining(p, &key(k, "pool"), &key(k, "member"), &key(k, "auth"), &key(k, "delegate"), num(&a["amount"]) as u64, &key(a, "owner"), &key(a, "delegate")),
        "claim" => i::claim(p, &key(k, "pool"), &key(k, "mint"), &key(k, "vault"), &key(k, "member"), &key(k, "owner"), &key(k, "auth"), &key(k, "dest")),
        "extend_stake" => i::extend_stake(p, &key(k, "pool"), &key(k, "member"), &key(k, "auth"), &key(k, "delegate"), period(num(&a["old_period"]) as u8), period(num(&a["new_period"]) as u8), num(&a["start"]) as u64, num(&a["base"]) as u64, num(&a["additional"]) as u64, &key(a, "owner"), &key(a, "delegate")),
        "distribute_rewards" => i::distribute_rewards(p, &key(k, "pool"), &key(k, "auth")),
        "close_mining" => i::close_mining(p, &key(k, "member"), &key(k, "owner"), &key(k, "target"), &key(k, "auth"), &key(k, "pool")),
        "change_delegate" => i::change_delegate(p, &key(k, "pool"), &key(k, "member"), &key(k, "auth"), &key(k, "owner"), &key(k, "old"), &key(k, "new"), &key(a, "new_delegate"), num(&a["amount"]) as u64),
        "slash" => i::slash(p, &key(k, "auth"), &key(k, "pool"), &key(k, "member"), &key(a, "owner"), num(&a["native"]) as u64, num(&a["weighted"]) as u64, date(a)),
        "decrease_rewards" => i::decrease_rewards(p, &key(k, "auth"), &key(k, "pool"), &key(k, "member"), &key(a, "owner"), num(&a["penalty"]) as u64),
        _ => unreachable!(),
    }
}
