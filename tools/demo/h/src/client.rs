//! Written by tools/mkwire.py.
use crate::{num, wire::{date, key}};
use rewards::{instructions::*, types::LockupPeriod as L};
use serde_json::Value;
use solana_program::{account_info::AccountInfo, instruction::Instruction};
fn cperiod(p: u8) -> L {
    [L::None, L::Flex, L::ThreeMonths, L::SixMonths, L::OneYear][p as usize].clone()
}
/// the account struct's and the builder's way
pub fn plain(way: &str, name: &str, k: &Value, a: &Value, consts: bool) -> Instruction {
    match (name, way) {
        ("initialize_pool", "instruction") => InitializePool { reward_pool: key(k, "reward_pool"), reward_mint: key(k, "reward_mint"), vault: key(k, "vault"), payer: key(k, "payer"), deposit_authority: key(k, "deposit_authority"), rent: key(k, "rent"), token_program: key(k, "token_program"), system_program: key(k, "system_program") }.instruction(InitializePoolInstructionArgs { fill_authority: key(a, "fill_authority"), distribute_authority: key(a, "distribute_authority") }),
        ("initialize_pool", _) => {
            let mut b = InitializePoolBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.reward_mint(key(k, "reward_mint"));
            b.vault(key(k, "vault"));
            b.payer(key(k, "payer"));
            b.deposit_authority(key(k, "deposit_authority"));
            if consts {
                b.rent(key(k, "rent"));
            }
            if consts {
                b.token_program(key(k, "token_program"));
            }
            if consts {
                b.system_program(key(k, "system_program"));
            }
            b.fill_authority(key(a, "fill_authority"));
            b.distribute_authority(key(a, "distribute_authority"));
            b.instruction()
        }
        ("fill_vault", "instruction") => FillVault { reward_pool: key(k, "reward_pool"), reward_mint: key(k, "reward_mint"), vault: key(k, "vault"), fill_authority: key(k, "fill_authority"), source_token_account: key(k, "source_token_account"), token_program: key(k, "token_program") }.instruction(FillVaultInstructionArgs { rewards: num(&a["rewards"]) as u64, distribution_ends_at: num(&a["ends"]) as u64 }),
        ("fill_vault", _) => {
            let mut b = FillVaultBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.reward_mint(key(k, "reward_mint"));
            b.vault(key(k, "vault"));
            b.fill_authority(key(k, "fill_authority"));
            b.source_token_account(key(k, "source_token_account"));
            if consts {
                b.token_program(key(k, "token_program"));
            }
            b.rewards(num(&a["rewards"]) as u64);
            b.distribution_ends_at(num(&a["ends"]) as u64);
            b.instruction()
        }
        ("initialize_mining", "instruction") => InitializeMining { reward_pool: key(k, "reward_pool"), mining: key(k, "mining"), payer: key(k, "payer"), system_program: key(k, "system_program") }.instruction(InitializeMiningInstructionArgs { mining_owner: key(a, "owner") }),
        ("initialize_mining", _) => {
            let mut b = InitializeMiningBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.mining(key(k, "mining"));
            b.payer(key(k, "payer"));
            if consts {
                b.system_program(key(k, "system_program"));
            }
            b.mining_owner(key(a, "owner"));
            b.instruction()
        }
        ("deposit_mining", "instruction") => DepositMining { reward_pool: key(k, "reward_pool"), mining: key(k, "mining"), deposit_authority: key(k, "deposit_authority"), delegate_mining: key(k, "delegate_mining") }.instruction(DepositMiningInstructionArgs { amount: num(&a["amount"]) as u64, lockup_period: cperiod(num(&a["period"]) as u8), mining_owner: key(a, "owner"), delegate: key(a, "delegate") }),
        ("deposit_mining", _) => {
            let mut b = DepositMiningBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.mining(key(k, "mining"));
            b.deposit_authority(key(k, "deposit_authority"));
            b.delegate_mining(key(k, "delegate_mining"));
            b.amount(num(&a["amount"]) as u64);
            b.lockup_period(cperiod(num(&a["period"]) as u8));
            b.mining_owner(key(a, "owner"));
            b.delegate(key(a, "delegate"));
            b.instruction()
        }
        ("withdraw_mining", "instruction") => WithdrawMining { reward_pool: key(k, "reward_pool"), mining: key(k, "mining"), deposit_authority: key(k, "deposit_authority"), delegate_mining: key(k, "delegate_mining") }.instruction(WithdrawMiningInstructionArgs { amount: num(&a["amount"]) as u64, mining_owner: key(a, "owner"), delegate: key(a, "delegate") }),
        ("withdraw_mining", _) => {
            let mut b = WithdrawMiningBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.mining(key(k, "mining"));
            b.deposit_authority(key(k, "deposit_authority"));
            b.delegate_mining(key(k, "delegate_mining"));
            b.amount(num(&a["amount"]) as u64);
            b.mining_owner(key(a, "owner"));
            b.delegate(key(a, "delegate"));
            b.instruction()
        }
        ("claim", "instruction") => Claim { reward_pool: key(k, "reward_pool"), reward_mint: key(k, "reward_mint"), vault: key(k, "vault"), mining: key(k, "mining"), mining_owner: key(k, "mining_owner"), deposit_authority: key(k, "deposit_authority"), mining_owner_reward_token_account: key(k, "mining_owner_reward_token_account"), token_program: key(k, "token_program") }.instruction(),
        ("claim", _) => {
            let mut b = ClaimBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.reward_mint(key(k, "reward_mint"));
            b.vault(key(k, "vault"));
            b.mining(key(k, "mining"));
            b.mining_owner(key(k, "mining_owner"));
            b.deposit_authority(key(k, "deposit_authority"));
            b.mining_owner_reward_token_account(key(k, "mining_owner_reward_token_account"));
            if consts {
                b.token_program(key(k, "token_program"));
            }
            b.instruction()
        }
        ("extend_stake", "instruction") => ExtendStake { reward_pool: key(k, "reward_pool"), mining: key(k, "mining"), deposit_authority: key(k, "deposit_authority"), delegate_mining: key(k, "delegate_mining") }.instruction(ExtendStakeInstructionArgs { old_lockup_period: cperiod(num(&a["old_period"]) as u8), new_lockup_period: cperiod(num(&a["new_period"]) as u8), deposit_start_ts: num(&a["start"]) as u64, base_amount: num(&a["base"]) as u64, additional_amount: num(&a["additional"]) as u64, mining_owner: key(a, "owner"), delegate: key(a, "delegate") }),
        ("extend_stake", _) => {
            let mut b = ExtendStakeBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.mining(key(k, "mining"));
            b.deposit_authority(key(k, "deposit_authority"));
            b.delegate_mining(key(k, "delegate_mining"));
            b.old_lockup_period(cperiod(num(&a["old_period"]) as u8));
            b.new_lockup_period(cperiod(num(&a["new_period"]) as u8));
            b.deposit_start_ts(num(&a["start"]) as u64);
            b.base_amount(num(&a["base"]) as u64);
            b.additional_amount(num(&a["additional"]) as u64);
            b.mining_owner(key(a, "owner"));
            b.delegate(key(a, "delegate"));
            b.instruction()
        }
        ("distribute_rewards", "instruction") => DistributeRewards { reward_pool: key(k, "reward_pool"), distribute_authority: key(k, "distribute_authority") }.instruction(),
        ("distribute_rewards", _) => {
            let mut b = DistributeRewardsBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.distribute_authority(key(k, "distribute_authority"));
            b.instruction()
        }
        ("close_mining", "instruction") => CloseMining { mining: key(k, "mining"), mining_owner: key(k, "mining_owner"), target_account: key(k, "target_account"), deposit_authority: key(k, "deposit_authority"), reward_pool: key(k, "reward_pool") }.instruction(),
        ("close_mining", _) => {
            let mut b = CloseMiningBuilder::new();
            b.mining(key(k, "mining"));
            b.mining_owner(key(k, "mining_owner"));
            b.target_account(key(k, "target_account"));
            b.deposit_authority(key(k, "deposit_authority"));
            b.reward_pool(key(k, "reward_pool"));
            b.instruction()
        }
        ("change_delegate", "instruction") => ChangeDelegate { reward_pool: key(k, "reward_pool"), mining: key(k, "mining"), deposit_authority: key(k, "deposit_authority"), mining_owner: key(k, "mining_owner"), old_delegate_mining: key(k, "old_delegate_mining"), new_delegate_mining: key(k, "new_delegate_mining") }.instruction(ChangeDelegateInstructionArgs { staked_amount: num(&a["amount"]) as u64, new_delegate: key(a, "new_delegate") }),
        ("change_delegate", _) => {
            let mut b = ChangeDelegateBuilder::new();
            b.reward_pool(key(k, "reward_pool"));
            b.mining(key(k, "mining"));
            b.deposit_authority(key(k, "deposit_authority"));
            b.mining_owner(key(k, "mining_owner"));
            b.old_delegate_mining(key(k, "old_delegate_mining"));
            b.new_delegate_mining(key(k, "new_delegate_mining"));
            b.staked_amount(num(&a["amount"]) as u64);
            b.new_delegate(key(a, "new_delegate"));
            b.instruction()
        }
        ("slash", "instruction") => Slash { deposit_authority: key(k, "deposit_authority"), reward_pool: key(k, "reward_pool"), mining: key(k, "mining") }.instruction(SlashInstructionArgs { mining_owner: key(a, "owner"), slash_amount_in_native: num(&a["native"]) as u64, slash_amount_multiplied_by_period: num(&a["weighted"]) as u64, stake_expiration_date: date(a) }),
        ("slash", _) => {
            let mut b = SlashBuilder::new();
            b.deposit_authority(key(k, "deposit_authority"));
            b.reward_pool(key(k, "reward_pool"));
            b.mining(key(k, "mining"));
            b.mining_owner(key(a, "owner"));
            b.slash_amount_in_native(num(&a["native"]) as u64);
            b.slash_amount_multiplied_by_period(num(&a["weighted"]) as u64);
            if let Some(d) = date(a) {
                b.stake_expiration_date(d);
            }
            b.instruction()
        }
        ("decrease_rewards", "instruction") => DecreaseRewards { deposit_authority: key(k, "deposit_authority"), reward_pool: key(k, "reward_pool"), mining: key(k, "mining") }.instruction(DecreaseRewardsInstructionArgs { mining_owner: key(a, "owner"), decreased_weighted_stake_number: num(&a["penalty"]) as u64 }),
        ("decrease_rewards", _) => {
            let mut b = DecreaseRewardsBuilder::new();
            b.deposit_authority(key(k, "deposit_authority"));
            b.reward_pool(key(k, "reward_pool"));
            b.mining(key(k, "mining"));
            b.mining_owner(key(a, "owner"));
            b.decreased_weighted_stake_number(num(&a["penalty"]) as u64);
            b.instruction()
        }
        _ => unreachable!(),
    }
}
/// the CPI ways; the invocation is recorded by the stand-in for the runtime
pub fn cpi(way: &str, name: &str, program: &AccountInfo<'static>, ai: &dyn Fn(&str) -> &'static AccountInfo<'static>, a: &Value) {
    let program: &AccountInfo<'static> = program;
    match (name, way) {
        ("initialize_pool", "cpi") => drop(InitializePoolCpi::new(program, InitializePoolCpiAccounts { reward_pool: ai("reward_pool"), reward_mint: ai("reward_mint"), vault: ai("vault"), payer: ai("payer"), deposit_authority: ai("deposit_authority"), rent: ai("rent"), token_program: ai("token_program"), system_program: ai("system_program") }, InitializePoolInstructionArgs { fill_authority: key(a, "fill_authority"), distribute_authority: key(a, "distribute_authority") }).invoke()),
        ("initialize_pool", _) => {
            let mut b = InitializePoolCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.reward_mint(ai("reward_mint"));
            b.vault(ai("vault"));
            b.payer(ai("payer"));
            b.deposit_authority(ai("deposit_authority"));
            b.rent(ai("rent"));
            b.token_program(ai("token_program"));
            b.system_program(ai("system_program"));
            b.fill_authority(key(a, "fill_authority"));
            b.distribute_authority(key(a, "distribute_authority"));
            drop(b.invoke());
        }
        ("fill_vault", "cpi") => drop(FillVaultCpi::new(program, FillVaultCpiAccounts { reward_pool: ai("reward_pool"), reward_mint: ai("reward_mint"), vault: ai("vault"), fill_authority: ai("fill_authority"), source_token_account: ai("source_token_account"), token_program: ai("token_program") }, FillVaultInstructionArgs { rewards: num(&a["rewards"]) as u64, distribution_ends_at: num(&a["ends"]) as u64 }).invoke()),
        ("fill_vault", _) => {
            let mut b = FillVaultCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.reward_mint(ai("reward_mint"));
            b.vault(ai("vault"));
            b.fill_authority(ai("fill_authority"));
            b.source_token_account(ai("source_token_account"));
            b.token_program(ai("token_program"));
            b.rewards(num(&a["rewards"]) as u64);
            b.distribution_ends_at(num(&a["ends"]) as u64);
            drop(b.invoke());
        }
        ("initialize_mining", "cpi") => drop(InitializeMiningCpi::new(program, InitializeMiningCpiAccounts { reward_pool: ai("reward_pool"), mining: ai("mining"), payer: ai("payer"), system_program: ai("system_program") }, InitializeMiningInstructionArgs { mining_owner: key(a, "owner") }).invoke()),
        ("initialize_mining", _) => {
            let mut b = InitializeMiningCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.mining(ai("mining"));
            b.payer(ai("payer"));
            b.system_program(ai("system_program"));
            b.mining_owner(key(a, "owner"));
            drop(b.invoke());
        }
        ("deposit_mining", "cpi") => drop(DepositMiningCpi::new(program, DepositMiningCpiAccounts { reward_pool: ai("reward_pool"), mining: ai("mining"), deposit_authority: ai("deposit_authority"), delegate_mining: ai("delegate_mining") }, DepositMiningInstructionArgs { amount: num(&a["amount"]) as u64, lockup_period: cperiod(num(&a["period"]) as u8), mining_owner: key(a, "owner"), delegate: key(a, "delegate") }).invoke()),
        ("deposit_mining", _) => {
            let mut b = DepositMiningCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.mining(ai("mining"));
            b.deposit_authority(ai("deposit_authority"));
            b.delegate_mining(ai("delegate_mining"));
            b.amount(num(&a["amount"]) as u64);
            b.lockup_period(cperiod(num(&a["period"]) as u8));
            b.mining_owner(key(a, "owner"));
            b.delegate(key(a, "delegate"));
            drop(b.invoke());
        }
        ("withdraw_mining", "cpi") => drop(WithdrawMiningCpi::new(program, WithdrawMiningCpiAccounts { reward_pool: ai("reward_pool"), mining: ai("mining"), deposit_authority: ai("deposit_authority"), delegate_mining: ai("delegate_mining") }, WithdrawMiningInstructionArgs { amount: num(&a["amount"]) as u64, mining_owner: key(a, "owner"), delegate: key(a, "delegate") }).invoke()),
        ("withdraw_mining", _) => {
            let mut b = WithdrawMiningCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.mining(ai("mining"));
            b.deposit_authority(ai("deposit_authority"));
            b.delegate_mining(ai("delegate_mining"));
            b.amount(num(&a["amount"]) as u64);
            b.mining_owner(key(a, "owner"));
            b.delegate(key(a, "delegate"));
            drop(b.invoke());
        }
        ("claim", "cpi") => drop(ClaimCpi::new(program, ClaimCpiAccounts { reward_pool: ai("reward_pool"), reward_mint: ai("reward_mint"), vault: ai("vault"), mining: ai("mining"), mining_owner: ai("mining_owner"), deposit_authority: ai("deposit_authority"), mining_owner_reward_token_account: ai("mining_owner_reward_token_account"), token_program: ai("token_program") }).invoke()),
        ("claim", _) => {
            let mut b = ClaimCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.reward_mint(ai("reward_mint"));
            b.vault(ai("vault"));
            b.mining(ai("mining"));
            b.mining_owner(ai("mining_owner"));
            b.deposit_authority(ai("deposit_authority"));
            b.mining_owner_reward_token_account(ai("mining_owner_reward_token_account"));
            b.token_program(ai("token_program"));
            drop(b.invoke());
        }
        ("extend_stake", "cpi") => drop(ExtendStakeCpi::new(program, ExtendStakeCpiAccounts { reward_pool: ai("reward_pool"), mining: ai("mining"), deposit_authority: ai("deposit_authority"), delegate_mining: ai("delegate_mining") }, ExtendStakeInstructionArgs { old_lockup_period: cperiod(num(&a["old_period"]) as u8), new_lockup_period: cperiod(num(&a["new_period"]) as u8), deposit_start_ts: num(&a["start"]) as u64, base_amount: num(&a["base"]) as u64, additional_amount: num(&a["additional"]) as u64, mining_owner: key(a, "owner"), delegate: key(a, "delegate") }).invoke()),
        ("extend_stake", _) => {
            let mut b = ExtendStakeCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.mining(ai("mining"));
            b.deposit_authority(ai("deposit_authority"));
            b.delegate_mining(ai("delegate_mining"));
            b.old_lockup_period(cperiod(num(&a["old_period"]) as u8));
            b.new_lockup_period(cperiod(num(&a["new_period"]) as u8));
            b.deposit_start_ts(num(&a["start"]) as u64);
            b.base_amount(num(&a["base"]) as u64);
            b.additional_amount(num(&a["additional"]) as u64);
            b.mining_owner(key(a, "owner"));
            b.delegate(key(a, "delegate"));
            drop(b.invoke());
        }
        ("distribute_rewards", "cpi") => drop(DistributeRewardsCpi::new(program, DistributeRewardsCpiAccounts { reward_pool: ai("reward_pool"), distribute_authority: ai("distribute_authority") }).invoke()),
        ("distribute_rewards", _) => {
            let mut b = DistributeRewardsCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.distribute_authority(ai("distribute_authority"));
            drop(b.invoke());
        }
        ("close_mining", "cpi") => drop(CloseMiningCpi::new(program, CloseMiningCpiAccounts { mining: ai("mining"), mining_owner: ai("mining_owner"), target_account: ai("target_account"), deposit_authority: ai("deposit_authority"), reward_pool: ai("reward_pool") }).invoke()),
        ("close_mining", _) => {
            let mut b = CloseMiningCpiBuilder::new(program);
            b.mining(ai("mining"));
            b.mining_owner(ai("mining_owner"));
            b.target_account(ai("target_account"));
            b.deposit_authority(ai("deposit_authority"));
            b.reward_pool(ai("reward_pool"));
            drop(b.invoke());
        }
        ("change_delegate", "cpi") => drop(ChangeDelegateCpi::new(program, ChangeDelegateCpiAccounts { reward_pool: ai("reward_pool"), mining: ai("mining"), deposit_authority: ai("deposit_authority"), mining_owner: ai("mining_owner"), old_delegate_mining: ai("old_delegate_mining"), new_delegate_mining: ai("new_delegate_mining") }, ChangeDelegateInstructionArgs { staked_amount: num(&a["amount"]) as u64, new_delegate: key(a, "new_delegate") }).invoke()),
        ("change_delegate", _) => {
            let mut b = ChangeDelegateCpiBuilder::new(program);
            b.reward_pool(ai("reward_pool"));
            b.mining(ai("mining"));
            b.deposit_authority(ai("deposit_authority"));
            b.mining_owner(ai("mining_owner"));
            b.old_delegate_mining(ai("old_delegate_mining"));
            b.new_delegate_mining(ai("new_delegate_mining"));
            b.staked_amount(num(&a["amount"]) as u64);
            b.new_delegate(key(a, "new_delegate"));
            drop(b.invoke());
        }
        ("slash", "cpi") => drop(SlashCpi::new(program, SlashCpiAccounts { deposit_authority: ai("deposit_authority"), reward_pool: ai("reward_pool"), mining: ai("mining") }, SlashInstructionArgs { mining_owner: key(a, "owner"), slash_amount_in_native: num(&a["native"]) as u64, slash_amount_multiplied_by_period: num(&a["weighted"]) as u64, stake_expiration_date: date(a) }).invoke()),
        ("slash", _) => {
            let mut b = SlashCpiBuilder::new(program);
            b.deposit_authority(ai("deposit_authority"));
            b.reward_pool(ai("reward_pool"));
            b.mining(ai("mining"));
            b.mining_owner(key(a, "owner"));
            b.slash_amount_in_native(num(&a["native"]) as u64);
            b.slash_amount_multiplied_by_period(num(&a["weighted"]) as u64);
            if let Some(d) = date(a) {
                b.stake_expiration_date(d);
            }
            drop(b.invoke());
        }
        ("decrease_rewards", "cpi") => drop(DecreaseRewardsCpi::new(program, DecreaseRewardsCpiAccounts { deposit_authority: ai("deposit_authority"), reward_pool: ai("reward_pool"), mining: ai("mining") }, DecreaseRewardsInstructionArgs { mining_owner: key(a, "owner"), decreased_weighted_stake_number: num(&a["penalty"]) as u64 }).invoke()),
        ("decrease_rewards", _) => {
            let mut b = DecreaseRewardsCpiBuilder::new(program);
            b.deposit_authority(ai("deposit_authority"));
            b.reward_pool(ai("reward_pool"));
            b.mining(ai("mining"));
            b.mining_owner(key(a, "owner"));
            b.decreased_weighted_stake_number(num(&a["penalty"]) as u64);
            drop(b.invoke());
        }
        _ => unreachable!(),
    }
}
