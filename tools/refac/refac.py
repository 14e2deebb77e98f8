"""Behaviour-preserving rewrites of the program, used to see that the checks stay quiet.  refac.py NAME DIR applies one to a copy of the repository."""
import sys, os
S = 'programs/rewards/src/'
POOL, MINE, STATE, UTILS, ASSERTS, IX = S+'state/reward_pool.rs', S+'state/mining.rs', S+'state/mod.rs', S+'utils.rs', S+'asserts.rs', S+'instruction.rs'
H = lambda n: S + f'instructions/{n}.rs'
R = {}
R['day-helper'] = [
 (UTILS, '/// Get current unix time\n', '/// First second of the day\npub(crate) fn start_of_day(ts: u64) -> u64 {\n    ts - ts % SECONDS_PER_DAY\n}\n\n/// Get current unix time\n'),
 (UTILS, 'let beginning_of_the_day = start_ts - (start_ts % SECONDS_PER_DAY);', 'let beginning_of_the_day = start_of_day(start_ts);'),
 (POOL, 'utils::{get_curr_unix_ts, LockupPeriod', 'utils::{get_curr_unix_ts, start_of_day, LockupPeriod'),
 (POOL, 'let curr_ts = Clock::get().unwrap().unix_timestamp as u64;\n        let beginning_of_the_day = curr_ts - (curr_ts % SECONDS_PER_DAY);', 'let beginning_of_the_day = start_of_day(get_curr_unix_ts());', 'all'),
 (POOL, 'stake_expiration_date - (stake_expiration_date % SECONDS_PER_DAY);', 'start_of_day(stake_expiration_date);'),
 (POOL, 'clock::{Clock, SECONDS_PER_DAY}', 'clock::SECONDS_PER_DAY'), (POOL, '    pubkey::Pubkey,\n    sysvar::Sysvar,\n', '    pubkey::Pubkey,\n'),
 (MINE, 'use crate::utils::SafeArithmeticOperations;', 'use crate::utils::{get_curr_unix_ts, start_of_day, SafeArithmeticOperations};'),
 (MINE, 'let curr_ts = Clock::get().unwrap().unix_timestamp as u64;\n        let beginning_of_the_day = curr_ts - (curr_ts % SECONDS_PER_DAY);', 'let curr_ts = get_curr_unix_ts();\n        let beginning_of_the_day = start_of_day(curr_ts);'),
 (MINE, '    clock::{Clock, SECONDS_PER_DAY},\n', ''), (MINE, '    pubkey::Pubkey,\n    sysvar::Sysvar,\n', '    pubkey::Pubkey,\n'),
 (H('fill_vault'), 'distribution_ends_at - (distribution_ends_at % SECONDS_PER_DAY);', 'start_of_day(distribution_ends_at);'),
 (H('fill_vault'), 'let curr_ts = get_curr_unix_ts();\n        let beginning_of_the_curr_day = curr_ts - (curr_ts % SECONDS_PER_DAY);', 'let beginning_of_the_curr_day = start_of_day(get_curr_unix_ts());'),
 (H('fill_vault'), 'account_info::AccountInfo, clock::SECONDS_PER_DAY, entrypoint', 'account_info::AccountInfo, entrypoint'),
 (H('fill_vault'), 'utils::{get_curr_unix_ts, spl_transfer', 'utils::{get_curr_unix_ts, start_of_day, spl_transfer'),
]
R['consume-collect'] = [
 (POOL, '''        let mut processed_dates = vec![];
        for (date_to_process, modifier) in self.weighted_stake_diffs.iter() {
            if date_to_process > &beginning_of_the_day {
                break;
            }

            total_share = total_share.safe_sub(*modifier)?;
            processed_dates.push(*date_to_process);
        }
        for date in processed_dates {
            self.weighted_stake_diffs.remove(&date);
        }
''', '''        let due: Vec<(u64, u64)> = self
            .weighted_stake_diffs
            .iter()
            .take_while(|(date, _)| **date <= beginning_of_the_day)
            .map(|(date, modifier)| (*date, *modifier))
            .collect();
        for (date, modifier) in due {
            total_share = total_share.safe_sub(modifier)?;
            self.weighted_stake_diffs.remove(&date);
        }
''')]
R['consume-first'] = [
 (POOL, '''        let mut processed_dates = vec![];
        for (date_to_process, modifier) in self.weighted_stake_diffs.iter() {
            if date_to_process > &beginning_of_the_day {
                break;
            }

            total_share = total_share.safe_sub(*modifier)?;
            processed_dates.push(*date_to_process);
        }
        for date in processed_dates {
            self.weighted_stake_diffs.remove(&date);
        }
''', '''        loop {
            let first = self
                .weighted_stake_diffs
                .iter()
                .next()
                .map(|(date, modifier)| (*date, *modifier));
            let Some((date, modifier)) = first else {
                break;
            };
            if date > beginning_of_the_day {
                break;
            }
            total_share = total_share.safe_sub(modifier)?;
            self.weighted_stake_diffs.remove(&date);
        }
''')]
R['consume-mining-filter'] = [
 (MINE, '''        for (date, modifier_diff) in weighted_stake_diffs.iter() {
            if date > &beginning_of_the_day {
                break;
            }

            Self::''', '''        for (date, modifier_diff) in weighted_stake_diffs.iter() {
            let is_due = *date <= beginning_of_the_day;
            if !is_due {
                break;
            }
            processed_dates.push(*date);

            Self::'''),
 (MINE, '''            total_share = total_share.safe_sub(*modifier_diff)?;
            processed_dates.push(*date);
''', '''            total_share = total_share.safe_sub(*modifier_diff)?;
'''),
 (MINE, '''        for date in processed_dates {
            weighted_stake_diffs.remove(&date);
        }''', '''        for date in processed_dates.iter() {
            weighted_stake_diffs.remove(date);
        }'''),
]
R['consume-mining-index-loop'] = [
 (MINE, '''        for date in processed_dates {
            weighted_stake_diffs.remove(&date);
        }''', '''        let mut i = 0;
        while i < processed_dates.len() {
            weighted_stake_diffs.remove(&processed_dates[i]);
            i += 1;
        }'''),
]
R['deposit-upsert'] = [
 (POOL, '''        let modifier = if let Some(modifier) = self.weighted_stake_diffs.get(&stake_expiration_date)
        {
            *modifier
        } else {
            0
        };
''', '''        let modifier = self
            .weighted_stake_diffs
            .get(&stake_expiration_date)
            .copied()
            .unwrap_or(0);
'''),
 (POOL, '''        if mining
            .weighted_stake_diffs
            .get(&stake_expiration_date)
            .is_some()
        {
            let modifier = mining
                .weighted_stake_diffs
                .get_mut(&stake_expiration_date)
                .unwrap();
            *modifier = modifier.safe_add(weighted_stake_diff)?;
        } else {
            mining
                .weighted_stake_diffs
                .insert(stake_expiration_date, weighted_stake_diff)
                .ok_or(ProgramError::AccountDataTooSmall)?;
        }
''', '''        if let Some(modifier) = mining.weighted_stake_diffs.get_mut(&stake_expiration_date) {
            *modifier = modifier.safe_add(weighted_stake_diff)?;
        } else if mining
            .weighted_stake_diffs
            .insert(stake_expiration_date, weighted_stake_diff)
            .is_none()
        {
            return Err(ProgramError::AccountDataTooSmall);
        }
'''),
]
R['schedule-helper'] = [
 (POOL, '''        let modifier = if let Some(modifier) = self.weighted_stake_diffs.get(&stake_expiration_date)
        {
            *modifier
        } else {
            0
        };

        self.weighted_stake_diffs
            .insert(
                stake_expiration_date,
                modifier.safe_add(weighted_stake_diff)?,
            )
            .ok_or(ProgramError::AccountDataTooSmall)?;

        if mining
            .weighted_stake_diffs
            .get(&stake_expiration_date)
            .is_some()
        {
            let modifier = mining
                .weighted_stake_diffs
                .get_mut(&stake_expiration_date)
                .unwrap();
            *modifier = modifier.safe_add(weighted_stake_diff)?;
        } else {
            mining
                .weighted_stake_diffs
                .insert(stake_expiration_date, weighted_stake_diff)
                .ok_or(ProgramError::AccountDataTooSmall)?;
        }
''', '''        RewardPool::add_weighted_stake_diff(
            self.weighted_stake_diffs,
            stake_expiration_date,
            weighted_stake_diff,
        )?;
        RewardPool::add_weighted_stake_diff(
            mining.weighted_stake_diffs,
            stake_expiration_date,
            weighted_stake_diff,
        )?;
'''),
 (POOL, '''    fn modify_weighted_stake_diffs(
''', '''    fn add_weighted_stake_diff(
        diffs: &mut impl NodeAllocatorMap<u64, u64>,
        timestamp: u64,
        weighted_stake_diff: u64,
    ) -> ProgramResult {
        let current = diffs.get(&timestamp).copied().unwrap_or_default();
        let updated = current.safe_add(weighted_stake_diff)?;
        match diffs.insert(timestamp, updated) {
            Some(_) => Ok(()),
            None => Err(ProgramError::AccountDataTooSmall),
        }
    }

    fn modify_weighted_stake_diffs(
'''),
]
R['delegate-helper'] = [
 (POOL, '''            let delegate_mining_data = &mut delegate_mining_acc.data.borrow_mut();
            let mut delegate_mining = WrappedMining::from_bytes_mut(delegate_mining_data)?;

            delegate_mining.refresh_rewards(self.cumulative_index)?;
            delegate_mining.mining.stake_from_others =
                delegate_mining.mining.stake_from_others.safe_add(amount)?;

            self.pool.total_share = self.pool.total_share.safe_add(amount)?;
''', '''            self.delegate_stake(delegate_mining_acc, amount)?;
'''),
 (POOL, '''            let delegate_mining_data = &mut delegate_mining_acc.data.borrow_mut();
            let mut delegate_mining = WrappedMining::from_bytes_mut(delegate_mining_data)?;

            delegate_mining.refresh_rewards(self.cumulative_index)?;
            delegate_mining.mining.stake_from_others =
                delegate_mining.mining.stake_from_others.safe_sub(amount)?;

            self.pool.total_share = self.pool.total_share.safe_sub(amount)?;
''', '''            self.undelegate_stake(delegate_mining_acc, amount)?;
'''),
 (POOL, '''        let delegate_mining = match delegate_mining {
            Some(delegate_mining_acc) => {
                let delegate_mining_data = &mut delegate_mining_acc.data.borrow_mut();
                let mut delegate_mining = WrappedMining::from_bytes_mut(delegate_mining_data)?;

                delegate_mining.refresh_rewards(self.cumulative_index)?;
                delegate_mining.mining.stake_from_others = delegate_mining
                    .mining
                    .stake_from_others
                    .safe_sub(base_amount)?;
                self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;

                Some(delegate_mining_acc)
            }
            None => None,
        };
''', '''        if let Some(delegate_mining_acc) = delegate_mining {
            self.undelegate_stake(delegate_mining_acc, base_amount)?;
        }
'''),
 (POOL, '''            let old_delegate_mining_data = &mut old_delegate_info.data.borrow_mut();
            let mut old_delegate_mining = WrappedMining::from_bytes_mut(old_delegate_mining_data)?;

            old_delegate_mining.refresh_rewards(self.cumulative_index)?;
            old_delegate_mining.mining.stake_from_others = old_delegate_mining
                .mining
                .stake_from_others
                .safe_sub(staked_amount)?;
            self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;
''', '''            self.undelegate_stake(old_delegate_info, staked_amount)?;
'''),
 (POOL, '''            let new_delegate_mining_data = &mut new_delegate_info.data.borrow_mut();
            let mut new_delegate_mining = WrappedMining::from_bytes_mut(new_delegate_mining_data)?;

            new_delegate_mining.refresh_rewards(self.cumulative_index)?;
            new_delegate_mining.mining.stake_from_others = new_delegate_mining
                .mining
                .stake_from_others
                .safe_add(staked_amount)?;
            self.pool.total_share = self.pool.total_share.safe_add(staked_amount)?;
''', '''            self.delegate_stake(new_delegate_info, staked_amount)?;
'''),
 (POOL, '''    /// Process deposit
''', '''    fn delegate_stake(&mut self, delegate: &AccountInfo, amount: u64) -> ProgramResult {
        let total_share = self.pool.total_share.safe_add(amount)?;
        let mut data = delegate.data.borrow_mut();
        let delegate_mining = &mut WrappedMining::from_bytes_mut(&mut data)?;

        delegate_mining.refresh_rewards(self.cumulative_index)?;
        let sfo = &mut delegate_mining.mining.stake_from_others;
        *sfo = sfo.safe_add(amount)?;
        self.pool.total_share = total_share;
        Ok(())
    }

    fn undelegate_stake(&mut self, delegate: &AccountInfo, amount: u64) -> ProgramResult {
        let mut data = delegate.data.borrow_mut();
        let delegate_mining = &mut WrappedMining::from_bytes_mut(&mut data)?;

        delegate_mining.refresh_rewards(self.cumulative_index)?;
        let sfo = &mut delegate_mining.mining.stake_from_others;
        *sfo = sfo.safe_sub(amount)?;
        self.pool.total_share = self.pool.total_share.safe_sub(amount)?;
        Ok(())
    }

    /// Process deposit
'''),
]
R['find-iter'] = [
 (STATE, '''    let mut current_id = tree.root; // Start at the root node
    let mut result = None;

    while current_id != SENTINEL {
        let node = tree.get_node(current_id); // Get the current node
        if node.key < key {
            // Update result to the current key if it's a valid candidate
            result = Some(node.value);
            // Move to the right subtree to potentially find a larger valid key
            current_id = tree.get_right(current_id);
        } else {
            // Move to the left subtree to find a smaller key
            current_id = tree.get_left(current_id);
        }
    }

    result
''', '''    tree.iter()
        .take_while(|(k, _)| **k < key)
        .last()
        .map(|(_, v)| *v)
'''), (STATE, 'use sokoban::{RedBlackTree, SENTINEL};', 'use sokoban::{NodeAllocatorMap, RedBlackTree};'), (STATE, '    use sokoban::NodeAllocatorMap;\n\n    use super', '    use super')]
R['find-for'] = [
 (STATE, '''    let mut current_id = tree.root; // Start at the root node
    let mut result = None;

    while current_id != SENTINEL {
        let node = tree.get_node(current_id); // Get the current node
        if node.key < key {
            // Update result to the current key if it's a valid candidate
            result = Some(node.value);
            // Move to the right subtree to potentially find a larger valid key
            current_id = tree.get_right(current_id);
        } else {
            // Move to the left subtree to find a smaller key
            current_id = tree.get_left(current_id);
        }
    }

    result
''', '''    let mut result = None;
    for (k, v) in tree.iter() {
        if *k >= key {
            break;
        }
        result = Some(*v);
    }
    result
'''), (STATE, 'use sokoban::{RedBlackTree, SENTINEL};', 'use sokoban::{NodeAllocatorMap, RedBlackTree};'), (STATE, '    use sokoban::NodeAllocatorMap;\n\n    use super', '    use super')]
R['find-loop'] = [
 (STATE, '''    while current_id != SENTINEL {
        let node = tree.get_node(current_id); // Get the current node
        if node.key < key {
            // Update result to the current key if it's a valid candidate
            result = Some(node.value);
            // Move to the right subtree to potentially find a larger valid key
            current_id = tree.get_right(current_id);
        } else {
            // Move to the left subtree to find a smaller key
            current_id = tree.get_left(current_id);
        }
    }

    result
''', '''    loop {
        if current_id == SENTINEL {
            return result;
        }
        let node = tree.get_node(current_id);
        current_id = if key > node.key {
            result = Some(node.value);
            tree.get_right(current_id)
        } else {
            tree.get_left(current_id)
        };
    }
''')]
R['update-index-split'] = [
 (MINE, '''        let vault_index_for_date =
            find_max_value_limited_by_key(cumulative_index, date).unwrap_or(0);

        let rewards = u64::try_from(
            vault_index_for_date
                .safe_sub(*index_with_precision)?
                .safe_mul(u128::from(total_share))?
                .safe_div(PRECISION)?,
        )
        .map_err(|_| MplxRewardsError::InvalidPrimitiveTypesConversion)?;

        if rewards > 0 {
            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;
        }

        *index_with_precision = vault_index_for_date;

        Ok(())
''', '''        let vault_index = match find_max_value_limited_by_key(cumulative_index, date) {
            Some(index) => index,
            None => 0,
        };
        let gained = vault_index.safe_sub(*index_with_precision)?;
        *index_with_precision = vault_index;
        let rewards = Self::rewards_for(gained, total_share)?;
        *unclaimed_rewards = unclaimed_rewards.safe_add(rewards)?;

        Ok(())
    }

    fn rewards_for(gained: u128, weight: u64) -> Result<u64, ProgramError> {
        let scaled = (weight as u128).safe_mul(gained)?;
        let rewards = scaled / PRECISION;
        if rewards > u64::MAX as u128 {
            return Err(MplxRewardsError::InvalidPrimitiveTypesConversion.into());
        }
        Ok(rewards as u64)
''')]
R['decrease-min'] = [
 (MINE, '''            if stake_diff >= &mut decreased_weighted_stake_number {
                *stake_diff = stake_diff.safe_sub(decreased_weighted_stake_number)?;
                break;
            } else {
                decreased_weighted_stake_number =
                    decreased_weighted_stake_number.safe_sub(*stake_diff)?;
                *stake_diff = 0;
            }
''', '''            let taken = decreased_weighted_stake_number.min(*stake_diff);
            *stake_diff -= taken;
            decreased_weighted_stake_number -= taken;
            if decreased_weighted_stake_number == 0 {
                break;
            }
''')]
R['decrease-match'] = [
 (MINE, '''        for (_, stake_diff) in self.weighted_stake_diffs.iter_mut().rev() {
            if stake_diff >= &mut decreased_weighted_stake_number {
                *stake_diff = stake_diff.safe_sub(decreased_weighted_stake_number)?;
                break;
            } else {
                decreased_weighted_stake_number =
                    decreased_weighted_stake_number.safe_sub(*stake_diff)?;
                *stake_diff = 0;
            }
        }
''', '''        let mut left = decreased_weighted_stake_number;
        for (_, stake_diff) in self.weighted_stake_diffs.iter_mut().rev() {
            match stake_diff.checked_sub(left) {
                Some(rest) => {
                    *stake_diff = rest;
                    break;
                }
                None => {
                    left -= *stake_diff;
                    *stake_diff = 0;
                }
            }
        }
'''), (MINE, 'pub fn decrease_rewards(&mut self, mut decreased', 'pub fn decrease_rewards(&mut self, decreased')]
R['decrease-while'] = [
 (MINE, '''        for (_, stake_diff) in self.weighted_stake_diffs.iter_mut().rev() {
            if stake_diff >= &mut decreased_weighted_stake_number {
                *stake_diff = stake_diff.safe_sub(decreased_weighted_stake_number)?;
                break;
            } else {
                decreased_weighted_stake_number =
                    decreased_weighted_stake_number.safe_sub(*stake_diff)?;
                *stake_diff = 0;
            }
        }
''', '''        let mut diffs = self.weighted_stake_diffs.iter_mut().rev();
        while decreased_weighted_stake_number > 0 {
            let Some((_, stake_diff)) = diffs.next() else {
                break;
            };
            if *stake_diff < decreased_weighted_stake_number {
                decreased_weighted_stake_number -= *stake_diff;
                *stake_diff = 0;
            } else {
                *stake_diff -= decreased_weighted_stake_number;
                decreased_weighted_stake_number = 0;
            }
        }
''')]
R['safe-math-if'] = [
 (UTILS, '''    fn safe_sub(&self, amount: u64) -> Result<u64, MplxRewardsError> {
        self.checked_sub(amount)
            .ok_or(MplxRewardsError::MathOverflow)
    }

    fn safe_add(&self, amount: u64) -> Result<u64, MplxRewardsError> {
        self.checked_add(amount)
            .ok_or(MplxRewardsError::MathOverflow)
    }

    fn safe_mul(&self, amount: u64) -> Result<u64, MplxRewardsError> {
        self.checked_mul(amount)
            .ok_or(MplxRewardsError::MathOverflow)
    }
''', '''    fn safe_sub(&self, amount: u64) -> Result<u64, MplxRewardsError> {
        if amount > *self {
            return Err(MplxRewardsError::MathOverflow);
        }
        Ok(*self - amount)
    }

    fn safe_add(&self, amount: u64) -> Result<u64, MplxRewardsError> {
        match self.overflowing_add(amount) {
            (sum, false) => Ok(sum),
            (_, true) => Err(MplxRewardsError::MathOverflow),
        }
    }

    fn safe_mul(&self, amount: u64) -> Result<u64, MplxRewardsError> {
        let wide = u128::from(*self) * u128::from(amount);
        u64::try_from(wide).map_err(|_| MplxRewardsError::MathOverflow)
    }
''')]
R['period-table'] = [
 (UTILS, '''        match self {
            LockupPeriod::None => Err(MplxRewardsError::InvalidLockupPeriod),
            LockupPeriod::ThreeMonths => Ok(beginning_of_the_day + SECONDS_PER_DAY * 90),
            LockupPeriod::SixMonths => Ok(beginning_of_the_day + SECONDS_PER_DAY * 180),
            LockupPeriod::OneYear => Ok(beginning_of_the_day + SECONDS_PER_DAY * 365),
            LockupPeriod::Flex => Ok(beginning_of_the_day + SECONDS_PER_DAY * 5),
        }
''', '''        Ok(beginning_of_the_day + SECONDS_PER_DAY * self.days()?)
'''),
 (UTILS, '''        match self {
            LockupPeriod::None => 0,
            LockupPeriod::ThreeMonths => 2,
            LockupPeriod::SixMonths => 4,
            LockupPeriod::OneYear => 6,
            LockupPeriod::Flex => 1,
        }
''', '''        const MULTIPLIERS: [u64; 5] = [0, 1, 2, 4, 6];
        MULTIPLIERS[*self as usize]
''')]
R['asserts-reorder'] = [
 (ASSERTS, '''    let mining_pubkey = Pubkey::create_program_address(
        &[
            b"mining".as_ref(),
            mining_owner.as_ref(),
            reward_pool.key.as_ref(),
            &[wrapped_mining.mining.bump],
        ],
        program_id,
    )?;

    assert_account_key(mining, &mining_pubkey)?;
    assert_account_key(
        deposit_authority,
        &wrapped_reward_pool.pool.deposit_authority,
    )?;
    assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;

    if mining_owner != &wrapped_mining.mining.owner {
        msg!(
            "Assert account error. Got {} Expected {}",
            mining_owner,
            wrapped_mining.mining.owner
        );

        return Err(ProgramError::InvalidArgument);
    }
''', '''    assert_account_key(
        deposit_authority,
        &wrapped_reward_pool.pool.deposit_authority,
    )?;
    let record = &*wrapped_mining.mining;
    assert_pubkey_eq(mining_owner, &record.owner)?;
    assert_pubkey_eq(reward_pool.key, &record.reward_pool)?;

    let expected = create_mining_address(program_id, mining_owner, reward_pool.key, record.bump)?;
    assert_account_key(mining, &expected)?;
'''), (ASSERTS, '    state::{WrappedMining, WrappedRewardPool},\n};', '    state::{WrappedMining, WrappedRewardPool},\n    utils::create_mining_address,\n};')]
R['loader-helper'] = [
 (UTILS, '''        let (idx, acc) = iter.next().ok_or(ProgramError::NotEnoughAccountKeys)?;
        if acc.owner.eq(owner) {
            return Ok(acc);
        }

        msg!(
            "Account #{}:{} owner error. Got {} Expected {}",
            idx,
            acc.key,
            acc.owner,
            owner
        );
        Err(MplxRewardsError::InvalidAccountOwner.into())
''', '''        let Some((idx, acc)) = iter.next() else {
            return Err(ProgramError::NotEnoughAccountKeys);
        };
        if acc.owner != owner {
            msg!(
                "Account #{}:{} owner error. Got {} Expected {}",
                idx,
                acc.key,
                acc.owner,
                owner
            );
            return Err(MplxRewardsError::InvalidAccountOwner.into());
        }
        Ok(acc)
'''),
 (UTILS, '''        if acc.is_signer {
            return Ok(acc);
        }

        msg!("Account #{}:{} missing signature", idx, acc.key,);
        Err(ProgramError::MissingRequiredSignature)
''', '''        match acc.is_signer {
            true => Ok(acc),
            false => {
                msg!("Account #{}:{} missing signature", idx, acc.key,);
                Err(ProgramError::MissingRequiredSignature)
            }
        }
'''),
 (UTILS, '''    if mining.key != delegate_mining.key {
        Ok(Some(delegate_mining))
    } else {
        // None means delegate_mining is the same as mining
        Ok(None)
    }
''', '''    // None means delegate_mining is the same as mining
    Ok((mining.key != delegate_mining.key).then_some(delegate_mining))
'''),
 (UTILS, '''    if *delegate_mining.key
        != create_mining_address(
            program_id,
            delegate,
            reward_pool_key,
            WrappedImmutableMining::from_bytes(&delegate_mining.data.borrow())?
                .mining
                .bump,
        )
        .map_err(|_| MplxRewardsError::DerivationError)?
    {
        return Err(MplxRewardsError::InvalidMining.into());
    }

    Ok(())
''', '''    let data = delegate_mining.data.borrow();
    let bump = WrappedImmutableMining::from_bytes(&data)?.mining.bump;
    let expected = create_mining_address(program_id, delegate, reward_pool_key, bump)
        .map_err(|_| MplxRewardsError::DerivationError)?;

    if delegate_mining.key == &expected {
        Ok(())
    } else {
        Err(MplxRewardsError::InvalidMining.into())
    }
''')]
R['fill-direct'] = [
 (H('fill_vault'), '''        let days_diff = distribution_ends_at_day_start
            .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?;

        wrapped_reward_pool.pool.distribution_ends_at = wrapped_reward_pool
            .pool
            .distribution_ends_at
            .safe_add(days_diff)?;

        wrapped_reward_pool.pool.tokens_available_for_distribution = wrapped_reward_pool
            .pool
            .tokens_available_for_distribution
            .safe_add(rewards)?;
''', '''        let pool = wrapped_reward_pool.pool;
        let tokens = pool.tokens_available_for_distribution.safe_add(rewards)?;
        if distribution_ends_at_day_start < pool.distribution_ends_at {
            return Err(MplxRewardsError::MathOverflow.into());
        }
        pool.distribution_ends_at = distribution_ends_at_day_start;
        pool.tokens_available_for_distribution = tokens;
''')]
R['claim-flat'] = [
 (H('claim'), '''            wrapped_mining.refresh_rewards(&*wrapped_reward_pool.cumulative_index)?;
            let amount = wrapped_mining.mining.unclaimed_rewards;
            wrapped_mining.mining.claim();
            amount
        };

        amount
    };
''', '''            wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;
            std::mem::take(&mut wrapped_mining.mining.unclaimed_rewards)
        };

        amount
    };
'''),
 (H('claim'), '''    let mut amount_writer = vec![];
    amount.serialize(&mut amount_writer)?;
    set_return_data(&amount_writer);
''', '''    set_return_data(&amount.to_le_bytes());
'''), (H('claim'), 'use borsh::BorshSerialize;\n', ''), (MINE, '''    /// Claim reward
    pub fn claim(&mut self) {
        self.unclaimed_rewards = 0;
    }

''', '')]
R['pool-init-fields'] = [
 (POOL, '''        let mut data = [0; 7];
        data[0] = account_type;
        RewardPool {
            data,
            token_account_bump,
            deposit_authority,
            distribute_authority,
            fill_authority,
            reward_mint,
            ..Default::default()
        }
''', '''        let mut pool = RewardPool::default();
        pool.data[0] = account_type;
        pool.token_account_bump = token_account_bump;
        pool.reward_mint = reward_mint;
        pool.deposit_authority = deposit_authority;
        pool.fill_authority = fill_authority;
        pool.distribute_authority = distribute_authority;
        pool
'''),
 (H('initialize_pool'), '''    *wrapped_reward_pool.pool = pool;
    wrapped_reward_pool.weighted_stake_diffs.initialize();
    wrapped_reward_pool.cumulative_index.initialize();
''', '''    wrapped_reward_pool.cumulative_index.initialize();
    wrapped_reward_pool.weighted_stake_diffs.initialize();
    *wrapped_reward_pool.pool = pool;
''')]
R['daily-simpler'] = [
 (POOL, '''        let distribution_days_left: u128 =
            (self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY).into();

        if distribution_days_left == 0 {
            return Ok(self.tokens_available_for_distribution);
        }

        // ((tokens_available_for_distribution * precision) / days_left) / precision
        Ok(u64::try_from(
            (u128::from(self.tokens_available_for_distribution))
                .safe_mul(PRECISION)?
                .safe_div(distribution_days_left)?
                .safe_div(PRECISION)?,
        )
        .map_err(|_| MplxRewardsError::InvalidPrimitiveTypesConversion)?)
''', '''        let now = get_curr_unix_ts();
        let days_left = if now < self.distribution_ends_at {
            (self.distribution_ends_at - now) / SECONDS_PER_DAY
        } else {
            0
        };

        Ok(match days_left {
            0 => self.tokens_available_for_distribution,
            days => self.tokens_available_for_distribution / days,
        })
''')]
R['distribute-early'] = [
 (POOL, '''        self.pool.total_share =
            self.consume_old_modifiers(beginning_of_the_day, self.pool.total_share)?;
        if self.cumulative_index.contains(&beginning_of_the_day) {
            return Ok(());
        }

        WrappedRewardPool::update_index(
            self.cumulative_index,
            &mut self.pool.index_with_precision,
            rewards,
            self.pool.total_share,
            beginning_of_the_day,
        )?;

        self.pool.tokens_available_for_distribution = self
            .pool
            .tokens_available_for_distribution
            .safe_sub(rewards)?;

        Ok(())
''', '''        let already_distributed = self.cumulative_index.get(&beginning_of_the_day).is_some();
        let total_share = self.consume_old_modifiers(beginning_of_the_day, self.pool.total_share)?;
        let pool = &mut *self.pool;
        pool.total_share = total_share;
        if !already_distributed {
            let left = pool.tokens_available_for_distribution.safe_sub(rewards)?;
            WrappedRewardPool::update_index(
                self.cumulative_index,
                &mut pool.index_with_precision,
                rewards,
                total_share,
                beginning_of_the_day,
            )?;
            pool.tokens_available_for_distribution = left;
        }

        Ok(())
''')]
R['slash-helper'] = [
 (POOL, '''            let diff_record = mining
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;

            let diff_record = self
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;
''', '''            RewardPool::modify_weighted_stake_diffs(
                self.weighted_stake_diffs,
                beginning_of_the_stake_expiration_date,
                diff_by_expiration_date,
            )?;
            RewardPool::modify_weighted_stake_diffs(
                mining.weighted_stake_diffs,
                beginning_of_the_stake_expiration_date,
                diff_by_expiration_date,
            )?;
''')]
R['extend-split'] = [
 (POOL, '''        let deposit_old_expiration_ts = if old_lockup_period == LockupPeriod::Flex {
            0 // it's expired, so the date is in the past
        } else {
            old_lockup_period.end_timestamp(deposit_start_ts)?
        };
''', '''        let deposit_old_expiration_ts = match old_lockup_period {
            // it's expired, so the date is in the past
            LockupPeriod::Flex => 0,
            locked => locked.end_timestamp(deposit_start_ts)?,
        };
'''),
 (POOL, '''        if curr_ts < deposit_old_expiration_ts {
            // current_part''', '''        let still_locked = deposit_old_expiration_ts > curr_ts;
        let weight_to_remove = if still_locked {
            // current_part'''),
 (POOL, '''            // also, we need to reduce staking power because we want to extend stake from "scratch"
            mining.mining.share = mining.mining.share.safe_sub(curr_part_of_weighted_stake)?;

            self.pool.total_share = self
                .pool
                .total_share
                .safe_sub(curr_part_of_weighted_stake)?;
        } else {
            // otherwise, we want to substract flex multiplier, becase deposit has expired already
            mining.mining.share = mining
                .mining
                .share
                .safe_sub(curr_part_of_weighted_stake_for_flex)?;

            self.pool.total_share = self
                .pool
                .total_share
                .safe_sub(curr_part_of_weighted_stake_for_flex)?;
        }
''', '''            // also, we need to reduce staking power because we want to extend stake from "scratch"
            curr_part_of_weighted_stake
        } else {
            // otherwise, we want to substract flex multiplier, becase deposit has expired already
            curr_part_of_weighted_stake_for_flex
        };
        self.pool.total_share = self.pool.total_share.safe_sub(weight_to_remove)?;
        mining.mining.share = mining.mining.share.safe_sub(weight_to_remove)?;
''')]
R['close-loop'] = [
 (H('close_mining'), '''    let dest_starting_lamports = target_account.lamports();

    **target_account.lamports.borrow_mut() = dest_starting_lamports.safe_add(mining.lamports())?;
    **mining.lamports.borrow_mut() = 0;
    let mut source_data = mining.data.borrow_mut();
    source_data.fill(0);
''', '''    let rent = mining.lamports();
    let total = target_account.lamports().safe_add(rent)?;
    **target_account.try_borrow_mut_lamports()? = total;
    **mining.try_borrow_mut_lamports()? = 0;
    for byte in mining.try_borrow_mut_data()?.iter_mut() {
        *byte = 0;
    }
''')]
R['close-memset'] = [
 (H('close_mining'), '''    let mut source_data = mining.data.borrow_mut();
    source_data.fill(0);
''', '''    let size = mining.data_len();
    solana_program::program_memory::sol_memset(&mut mining.data.borrow_mut(), 0, size);
'''),
 (H('close_mining'), '''        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }
''', '''        let Mining {
            stake_from_others,
            unclaimed_rewards,
            ..
        } = *wrapped_mining.mining;
        match (stake_from_others, unclaimed_rewards) {
            (0, 0) => (),
            (0, _) => return Err(MplxRewardsError::RewardsMustBeClaimed.into()),
            _ => return Err(MplxRewardsError::StakeFromOthersMustBeZero.into()),
        }
'''), (H('close_mining'), 'state::{WrappedMining,', 'state::{Mining, WrappedMining,')]
R['handler-inline'] = [
 (H('extend_stake'), '''    let delegate_mining = get_delegate_mining(delegate_mining, mining)?;

    if let Some(delegate_mining) = delegate_mining {
        verify_delegate_mining_address(program_id, delegate_mining, delegate, reward_pool.key)?
    }

    wrapped_reward_pool.extend(
        &mut wrapped_mining,
        old_lockup_period,
        new_lockup_period,
        deposit_start_ts,
        base_amount,
        additional_amount,
        delegate_mining,
    )?;

    Ok(())
''', '''    let delegate_mining = match get_delegate_mining(delegate_mining, mining)? {
        Some(other) => {
            verify_delegate_mining_address(program_id, other, delegate, reward_pool.key)?;
            Some(other)
        }
        None => None,
    };

    wrapped_reward_pool.extend(
        &mut wrapped_mining,
        old_lockup_period,
        new_lockup_period,
        deposit_start_ts,
        base_amount,
        additional_amount,
        delegate_mining,
    )
'''),
 (H('change_delegate'), '''        let old_delegate =
            WrappedImmutableMining::from_bytes(&old_delegate_mining.data.borrow())?
                .mining
                .owner;
''', '''        let data = old_delegate_mining.data.borrow();
        let old_delegate = WrappedImmutableMining::from_bytes(&data)?.mining.owner;
''')]
R['views-size'] = [
 (POOL, '''        let (pool, trees) = bytes.split_at_mut(RewardPool::LEN);
        let (weighted_stake_diffs, cumulative_index) =
            trees.split_at_mut(std::mem::size_of::<PoolWeightedStakeDiffs>());

        let pool = RewardPool::load_mut_bytes(pool)
            .ok_or(MplxRewardsError::RetreivingZeroCopyAccountFailire)?;
''', '''        const TREE_AT: usize = RewardPool::LEN;
        const INDEX_AT: usize = TREE_AT + std::mem::size_of::<PoolWeightedStakeDiffs>();
        let (front, cumulative_index) = bytes.split_at_mut(INDEX_AT);
        let (pool, weighted_stake_diffs) = front.split_at_mut(TREE_AT);

        let pool = match RewardPool::load_mut_bytes(pool) {
            Some(pool) => pool,
            None => return Err(MplxRewardsError::RetreivingZeroCopyAccountFailire.into()),
        };
''')]
R['ctor-helper'] = [
 (IX, '''    Instruction::new_with_borsh(
        *program_id,
        &RewardsInstruction::''', '''    rewards_instruction(
        program_id,
        RewardsInstruction::''', 'all'),
]
R['dispatch-split'] = [
 (H('mod'), '''    let instruction = RewardsInstruction::try_from_slice(instruction_data)?;

    match instruction {
        RewardsInstruction::InitializePool {
            fill_authority,
            distribute_authority,
        } => {
            msg!("RewardsInstruction: InitializePool");
            process_initialize_pool(program_id, accounts, fill_authority, distribute_authority)
        }
''', '''    let instruction = match RewardsInstruction::try_from_slice(instruction_data) {
        Ok(instruction) => instruction,
        Err(error) => return Err(error.into()),
    };
    if let RewardsInstruction::InitializePool {
        fill_authority,
        distribute_authority,
    } = instruction
    {
        msg!("RewardsInstruction: InitializePool");
        return process_initialize_pool(program_id, accounts, fill_authority, distribute_authority);
    }

    match instruction {
        RewardsInstruction::InitializePool { .. } => unreachable!(),
''')]
def apply(name, root):
    for e in R[name]:
        p = os.path.join(root, e[0]); s = open(p).read(); n = s.count(e[1])
        if n == 0 or n > 1 and len(e) < 4: raise SystemExit(f'{name}: {n} matches in {e[0]}: {e[1][:80]!r}')
        open(p, 'w').write(s.replace(e[1], e[2]))
    if name == 'ctor-helper':
        p = os.path.join(root, IX); s = open(p).read()
        import re
        open(p, 'w').write(s + '''
fn rewards_instruction(
    program_id: &Pubkey,
    data: RewardsInstruction,
    accounts: Vec<AccountMeta>,
) -> Instruction {
    Instruction {
        program_id: *program_id,
        accounts,
        data: borsh::to_vec(&data).unwrap(),
    }
}
''')
if __name__ == '__main__':
    if len(sys.argv) == 1: print('\n'.join(R))
    else: apply(sys.argv[1], sys.argv[2])
