#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
S='programs/rewards/src/'
I=S+'instructions/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[(f if '/' in f and f.startswith('clients') else S+f) for f in files],
        state=[dict(name=n,meaning=m,where=S+w) for n,m,w in state],
        mechanism=[dict(name=n,where=(w if w.startswith('clients') else S+w)) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))
ANY='every content of the pool, member and delegate accounts (any number of scheduled expiries and recorded days), every clock value and every instruction argument'
p('C01','Settling a member credits exactly its pro-rata share of past distributions',
 "Whenever a stake deposit, withdrawal, extension, slash, penalty, delegate change or claim succeeds, the member's balance of unclaimed rewards (before a claim pays it out) grows by exactly the sum, over the stretches between consecutive expiries of its stakes that are due by today, of floor(weight in force times growth of the pool's reward index over the stretch, divided by the index precision); a delegate passed to the instruction is settled the same way. A stake expiring on a day stops counting before that day's distribution, every distribution recorded up to and including today is counted, and no distribution is ever counted twice. After it, the expiries due by today are gone from the member's schedule, its weight was lowered by exactly their amounts, and its index position equals the latest recorded index.",
 ['inputs','histories'],ANY,
 'Integration tests settle a handful of members with one or two expiries at fixed dates; the statement is over an unbounded list of expiries and recorded days, at any second of the day.',
 ['state/mining.rs','state/mod.rs'],
 [('settlement walks due expiries then the tail','state/mining.rs'),('strict predecessor lookup in the index history','state/mod.rs')],
 [('index position of a member','index up to which the member was paid','state/mining.rs'),('unclaimed rewards','credited, not yet paid','state/mining.rs')],['member account after any instruction'])
p('C02','A distribution raises the index by exactly amount per weight, once per day',
 "A successful distribution first lowers the pool's total weight by every reduction scheduled up to and including today and drops those entries, and then, if nothing is recorded for today, raises the reward index by floor(precision times amount / remaining total weight), records the new index under the start of today, and lowers the tokens available for distribution by exactly the amount. If today is already recorded, index, history and available tokens stay as they are. Nothing else in the pool changes.",
 ['inputs','histories'],'every pool content, clock value, and repeated calls on one day',
 'Tests distribute on a few fixed days with tiny histories; the claim quantifies over all schedules, histories and amounts.',
 ['state/reward_pool.rs','instructions/distribute_rewards.rs'],[('distribution','state/reward_pool.rs'),('distribution handler','instructions/distribute_rewards.rs')])
p('C03','The daily amount is an even split of what is left over the full days left',
 "The amount a distribution takes is floor(tokens available / number of full days until the end date), and all available tokens once less than one full day is left or the end date has passed. It never exceeds the tokens available.",
 ['inputs'],'every available amount, end date and clock value',
 'Existing tests use one or two schedules; rounding and the day boundary cases are not reached.',
 ['state/reward_pool.rs','instructions/distribute_rewards.rs'],[('daily budget','state/reward_pool.rs')])
p('C04','A deposit adds exactly amount times multiplier, and schedules its reduction',
 "A successful deposit, on top of the settlement, adds amount times the period's multiplier to the member's weight and to the pool's total, and adds the part above the flexible multiplier to the scheduled reductions of both the member and the pool at the period's expiry day counted from today, leaving every other scheduled day untouched. With a delegate other than the member itself, the delegate's received stake and the pool's total grow by the amount as well. Periods that are not a real lockup period are refused.",
 ['inputs','histories'],ANY+', with and without a delegate',
 'Tests deposit fixed amounts into nearly empty schedules; merging with existing entries at any day, and amounts near overflow, are not sampled.',
 ['state/reward_pool.rs','instructions/deposit_mining.rs','utils.rs'],[('deposit','state/reward_pool.rs'),('deposit handler','instructions/deposit_mining.rs')])
p('C05','A withdrawal removes exactly the amount from member, pool and delegate',
 "A successful withdrawal, on top of the settlement, lowers the member's weight and the pool's total by exactly the amount, applies and drops the pool's reductions due by today, and, with a delegate other than the member itself, lowers the delegate's received stake and the pool's total by the amount once more. A withdrawal larger than the member's weight, the delegate's received stake or the pool's total is refused. No future scheduled reduction changes.",
 ['inputs','histories'],ANY,
 'Tests withdraw round amounts once; interplay with due and future reductions is not sampled.',
 ['state/reward_pool.rs','instructions/withdraw_mining.rs'],[('withdraw','state/reward_pool.rs'),('withdraw handler','instructions/withdraw_mining.rs')])
p('C06','Extending a stake replaces the old stake everywhere by the new one',
 "A successful extension, on top of the settlement, removes the old stake and then books base plus additional amount as a fresh deposit for the new period: an unexpired old stake is removed with its full multiplier and its scheduled reduction is taken out of both the member's and the pool's schedule at the old expiry day, an expired or flexible one is removed with the flexible multiplier only. A delegate's received stake and its contribution to the pool's total change from the base amount to the base plus additional amount. Extending an unexpired stake for which no reduction is scheduled is refused.",
 ['inputs','histories'],ANY+', all pairs of periods',
 'Tests cover a few period pairs and never look at the schedule of the pool afterwards.',
 ['state/reward_pool.rs','instructions/extend_stake.rs'],[('extend','state/reward_pool.rs'),('extend handler','instructions/extend_stake.rs')])
p('C07','A slash removes weight and its scheduled reduction from member and pool alike',
 "A successful slash, on top of the settlement, lowers the member's weight and the pool's total by the weighted amount and applies the pool's reductions due by today; if an expiry date is given, the scheduled reductions of both member and pool on that date's day fall by the weighted amount minus the native amount, all others stay. It fails if no reduction is scheduled on that day for either, or if any of the numbers would go below zero.",
 ['inputs','histories'],ANY,
 'One or two slashes with fixed numbers are tested; missing entries, other days and exact boundaries are not.',
 ['state/reward_pool.rs','instructions/penalties/slash.rs'],[('slash','state/reward_pool.rs'),('slash handler','instructions/penalties/slash.rs')])
p('C08','A penalty lowers weight exactly and eats scheduled reductions latest day first',
 "A successful penalty, on top of the settlement, lowers the member's weight by exactly the penalty and lowers its scheduled reductions starting with the latest day until the penalty is used up, so that for every day the reductions scheduled from that day on sum to max(0, previous sum minus penalty). A penalty above the member's weight is refused, and a zero penalty leaves weight and schedule as settled. The pool account is not changed.",
 ['inputs','histories'],'every schedule length and content, every penalty',
 'Three unit tests with two entries each; the statement is over any number of entries and any split.',
 ['state/mining.rs','instructions/penalties/decrease_rewards.rs'],[('penalty waterfall','state/mining.rs')])
p('C09','Changing delegate moves exactly the staked amount between delegates',
 "A successful delegate change lowers the old delegate's received stake by the staked amount and raises the new delegate's by the same amount, where a delegate that is the member itself is left out on its side; the pool's total changes by the sum of the two changes and the member's own weight and schedule change only by settlement. Old and new delegate being the same is refused, as is moving more than the old delegate received.",
 ['inputs','histories'],ANY,
 'Tests cover three delegate moves with fixed amounts.',
 ['state/reward_pool.rs','instructions/change_delegate.rs'],[('change delegate','state/reward_pool.rs'),('handler','instructions/change_delegate.rs')])
p('C10','Pool weight always moves together with the weights of its members',
 "For every day from today on, the pool's total weight net of its reductions scheduled up to that day changes, through any successful deposit, withdrawal, extension, slash or delegate change, by exactly as much as the summed weights (own stake net of reductions scheduled up to that day, plus stake received as delegate) of the members the instruction touches. Claims, penalties, closings, distributions and account creations never raise a member's weight and leave the pool's weight for every day unchanged.",
 ['inputs','histories'],'every day from today on, every account content, every instruction',
 'A per-day equation between two accounts for all future days; tests only look at the current total after a few steps.',
 ['state/reward_pool.rs','state/mining.rs'],[('pool and member schedules are updated in pairs','state/reward_pool.rs')])
p('C11','Stake changes never alter rewards earned in the past',
 "No deposit, withdrawal, extension, slash, penalty or delegate change alters what any member or delegate has earned up to now: credited plus not yet settled rewards of every account it touches are the same immediately before and after it. In particular new stake, own or delegated, earns nothing from distributions made before it, and removed stake keeps what it earned.",
 ['inputs','histories'],ANY+', including accounts never settled before',
 'Tests settle every account on the same day; retroactive effects need an account whose settlement lags behind several distributions.',
 ['state/reward_pool.rs','state/mining.rs'],[('settle before changing weight','state/reward_pool.rs')],
 [('received stake','weight received as delegate','state/mining.rs')])
p('C12','Members are never credited more than was distributed',
 "Crediting is solvent: one distribution gives all members together at most the amount it takes out of the pool's available tokens, for any member weights that sum to at most the pool's total weight of that day, and settling later, in several steps, or in any order never credits more than that. Rounding always favours the vault.",
 ['inputs','histories','schedules'],'any number of members, any weights, any interleaving of settlements and distributions',
 'An aggregate over all members and histories; tests have at most a few members and divisible numbers.',
 ['state/reward_pool.rs','state/mining.rs'],[('index step rounds down','state/reward_pool.rs'),('credit rounds down','state/mining.rs')])
p('C13','A claim pays exactly the settled rewards once, from the vault to the owner',
 "A successful claim transfers exactly the member's unclaimed rewards after settlement from the pool's vault to a token account owned by the member's owner, under the deposit authority, resets the unclaimed rewards to zero, and returns that amount as return data. When there is nothing to pay no transfer is made. No other transfer happens, weight and schedule change only by settlement, and the pool account is not modified.",
 ['inputs','histories'],ANY+', every account list',
 'Tests claim for fixed members with the proper accounts.',
 ['instructions/claim.rs','state/mining.rs','utils.rs'],[('claim handler','instructions/claim.rs')])
p('C14','Filling adds exactly the paid-in tokens and only ever moves the end date forward',
 "A successful fill transfers exactly the given positive amount from the source account to the pool's vault under the fill authority, adds exactly that amount to the tokens available for distribution, and sets the end date to the start of the given day. A fill whose end day lies before today or before the current end date is refused, as is a zero amount. Nothing else in the pool changes.",
 ['inputs','histories'],'every amount, date, clock value and pool content',
 'Tests use one or two dates.',
 ['instructions/fill_vault.rs'],[('fill handler','instructions/fill_vault.rs')])
p('C15','Every instruction takes effect only under the signature of the proper role',
 "A deposit, withdrawal, extension, slash, penalty, delegate change, claim or closing takes effect only if the deposit authority stored in the pool signed; a delegate change, claim or closing only if the member's owner signed too; a fill only if the pool's stored fill authority, and a distribution only if its stored distribute authority, signed. Creating a pool needs the signatures of payer and deposit authority, creating a member account that of the payer.",
 ['inputs','configurations'],'every list of accounts, with any keys, owners, signer flags and repetitions',
 'Tests drive the authorised path, with a few negative cases.',
 ['asserts.rs','utils.rs','instructions/mod.rs'],[('account checks','asserts.rs'),('account loader','utils.rs')])
p('C16','Instructions only touch accounts that belong together',
 "Whenever an instruction succeeds, the pool and every member or delegate account it settles or changes are owned by this program; the member account records the given pool and the given (or signing) owner, and for deposit, withdrawal, extension, slash, penalty and delegate change it lies at the address derived from owner, pool and its bump; a delegate other than the member lies at the address derived from the given delegate and the pool (for the old delegate of a delegate change, from its recorded owner and the pool); the vault of a claim or fill lies at the address derived from pool and mint.",
 ['inputs','configurations'],'every list of accounts, including accounts of other pools',
 'Tests mostly pass matching accounts; foreign pools and members in every position are not tried.',
 ['asserts.rs','utils.rs','instructions/change_delegate.rs','instructions/close_mining.rs','instructions/claim.rs'],[('pool/member binding','asserts.rs'),('delegate binding','utils.rs')])
p('C17','A pool is initialised exactly once, to an empty, correctly configured state',
 "Initialising a pool succeeds only on a program-owned account of exactly the pool size that is not marked initialised, and only together with creating its vault, a fresh token account for the given mint, owned by the deposit authority, at the address derived from pool and mint. Afterwards the pool records the signing deposit authority, the given fill and distribute authorities, the mint and the vault's bump, is marked as a pool, and has zero weight, index, end date and available tokens with an empty schedule and history.",
 ['inputs','configurations'],'every account list and content',
 'A single happy path is tested.',
 ['instructions/initialize_pool.rs','state/reward_pool.rs'],[('pool initialisation','instructions/initialize_pool.rs')])
p('C18','A member account is created once, empty, at its derived address',
 "Creating a member account succeeds only for an account without data at the address derived from owner and pool, and only by creating it, rent exempt, with the member size and owned by this program. Afterwards it records that pool, owner and bump, is marked as a member account, and has zero weight, received stake, unclaimed rewards and index position and an empty schedule; the pool account is not modified.",
 ['inputs','configurations'],'every account list and content',
 'A single happy path is tested.',
 ['instructions/initialize_mining.rs','state/mining.rs'],[('member initialisation','instructions/initialize_mining.rs')])
p('C19','Closing a member account loses no rewards and no lamports',
 "A closing succeeds only if, after settlement against the member's own pool, the account has no unclaimed rewards and no stake received as delegate. It then moves all its lamports to the target account, conserving their sum, and wipes the account's data completely. The pool account is not modified.",
 ['inputs','histories'],ANY,
 'Two or three cases are tested, none with lagging settlement or foreign pools.',
 ['instructions/close_mining.rs'],[('close handler','instructions/close_mining.rs')])
p('C20','Full schedules or histories are an error, never a silent loss',
 "When a deposit, extension or distribution has to record a new day in a member's schedule, the pool's schedule or the index history that has no free slot left, the instruction fails and changes nothing; it never succeeds with the entry missing.",
 ['inputs','histories'],'schedules and histories of every fill level up to capacity',
 'Needs 50 member expiries, 365 pool expiries or 1095 distributions; no test comes near.',
 ['state/reward_pool.rs','state/mod.rs'],[('insert into bounded maps','state/reward_pool.rs')])
p('C21','Lockup periods have their published multipliers and lengths, on day boundaries',
 "The flexible period weighs 1 and expires 5 days, three months 2 and 90 days, six months 4 and 180 days, one year 6 and 365 days after the start of the day the stake starts in, always on a day boundary. The empty period weighs 0 and has no expiry. The day counts reported for the periods are the same ones.",
 ['inputs'],'every period and every start time',
 'Tests use single start times.',
 ['utils.rs'],[('lockup period table','utils.rs')])
p('C22','Arithmetic is exact or the instruction fails',
 "In no successful instruction does any addition, subtraction, multiplication, division, or narrowing of an amount, weight, index or date wrap around, saturate unintentionally or lose high bits; the checked arithmetic helpers return the exact result or an error and never panic.",
 ['inputs'],'all values of all operands',
 'Overflow needs values near the type limits at each of dozens of sites.',
 ['utils.rs','state/reward_pool.rs','state/mining.rs'],[('checked arithmetic helpers','utils.rs')])
p('C23','Instruction bytes reach the right handler with the right arguments',
 "The bytes and account list produced by the program crate's own constructor for each instruction decode to that instruction with exactly the values given, and are dispatched to its handler with the accounts in the positions, and with the signer flags and write permission, the handler relies on: an account whose data or lamports the handler changes is listed writable. Unknown discriminators, truncated bytes and trailing bytes are rejected.",
 ['inputs'],'all argument values',
 'Tests use each constructor with a few values; swapped fields of equal type and missing flags for rare paths go unnoticed.',
 ['instruction.rs','instructions/mod.rs'],[('instruction enum and constructors','instruction.rs'),('dispatch','instructions/mod.rs')])
p('C24','The generated Rust client speaks exactly the same wire format as the program',
 "For all values, the instruction built by the generated Rust client for each instruction carries the bytes the program decodes to that same instruction and values. Its account list has the accounts the program expects, in order, with signer and write permission wherever the program requires them.",
 ['inputs'],'all instructions and argument values',
 'No test links client and program.',
 ['instruction.rs','clients/rust/src/generated/instructions/mod.rs'],[('generated instruction builders','clients/rust/src/generated/instructions/mod.rs')])
p('C25','All views of an account agree on its layout',
 "Reading a pool or member account through the mutable and the immutable view yields the same record, schedule and history for every content; a write through the mutable view is visible in exactly that field through the immutable one and nowhere else. Account data too short for the layout is rejected by both.",
 ['inputs'],'all contents and data lengths',
 'One sample per account type is tested.',
 ['state/reward_pool.rs','state/mining.rs'],[('zero-copy views','state/mining.rs')])
p('C26','The index history only grows and never rewrites the past',
 "No instruction removes or changes an index recorded for an earlier day, and a new record is made only by a distribution, for today, with a value not below any recorded one; the pool's current index always equals the latest recorded value, or zero if none is recorded.",
 ['inputs','histories'],'every reachable history',
 'Needs arbitrary histories; tests hold at most a few days.',
 ['state/reward_pool.rs'],[('distribution records the index','state/reward_pool.rs')])
p('C27','Identity and configuration never change after initialisation',
 "After initialisation no instruction changes a pool's authorities, mint, vault bump or type mark, or a member's pool, owner, mint, bump or type mark, except that closing wipes the member account. Accounts and fields an instruction is not specified to change (the other members, an end date outside fills, available tokens outside fills and distributions, unclaimed rewards outside settlement and claim) keep their value.",
 ['inputs','histories'],'all instructions and account contents',
 'Frame conditions over every field and instruction are not asserted by tests.',
 ['state/reward_pool.rs','state/mining.rs','instructions/mod.rs'],[('handlers','instructions/mod.rs')])
p('C28','Tokens and lamports move only where specified',
 "The program asks for token transfers only in a claim (vault to owner) and a fill (source to vault), at most once each, creates accounts only in the two initialisations, and changes lamports directly only in a closing. It signs for derived addresses only when creating the vault or the member account, with exactly that account's seeds.",
 ['inputs','configurations'],'all instructions, accounts and arguments',
 'Absence of effects over all inputs is not testable by samples.',
 ['utils.rs','instructions/mod.rs'],[('token and system program calls','utils.rs')])
p('C29','Settlement and due expiries can never get stuck',
 "For every pool and member state satisfying the accounting rules (index history never decreasing and not dated in the future, the member settled up to some day, its scheduled reductions not exceeding its weight, the pool's not exceeding the total, what the member has to be credited and its product with the precision within the number range), settling the member always succeeds and ends. So does a claim by its owner with the tokens in the vault, and a distribution by its authority on a pool with weight left and a history slot (or today already recorded), whatever number of expiries is due, however long nothing was settled or distributed, and whether or not days or tokens to distribute are left.",
 ['inputs','histories'],'all well-formed states, any number of due expiries',
 'A lock-out needs unusual schedules or gaps; tests use short regular ones.',
 ['state/mining.rs','state/reward_pool.rs','instructions/claim.rs','instructions/distribute_rewards.rs'],[('settlement','state/mining.rs'),('expiry consumption','state/reward_pool.rs')])
p('C30','An instruction succeeds whenever its specified conditions hold',
 "Each of the twelve instructions, sent with its documented accounts, signatures and data, on a pool and members satisfying the accounting rules, with its own documented conditions met (right authority, bound accounts, sufficient stake, weight or tokens, permitted period, matching delegate, a schedule slot free where one is needed) and every result within the number range, succeeds: it neither errs nor panics, every loop ends, and no token, system or rent call it makes is one the callee refuses. No further condition is imposed on amounts, times, balances or the order of accounts' contents.",
 ['inputs','histories','configurations'],'all instructions, well-formed states, arguments and clock values',
 'A wrongly refused corner (an equality, an empty schedule, a zero balance, the last second) is hit only by chance.',
 ['instructions/mod.rs','state/reward_pool.rs','state/mining.rs','utils.rs'],[('handlers','instructions/mod.rs'),('accounting','state/reward_pool.rs'),('account loading','utils.rs')])
p('C31','The accounting rules are kept by every instruction',
 "Every successful instruction takes a pool and members that meet the accounting rules to ones that meet them: a member's scheduled reductions do not exceed its weight, nor the pool's the total; on every day from today on the pool's total less its reductions covers the weights of all members, own and received, less theirs; nothing due is left scheduled for a settled member, whose index position is not ahead of the recorded index; the index history is never decreasing, never above the pool's index and never dated in the future. For a withdrawal or a slash this holds if the stake taken out is not still scheduled to shrink.",
 ['inputs','histories'],'all instructions, any well-formed state, any day from today on, any number of other members',
 'An invariant of the state over all histories cannot be shown by sample runs.',
 ['state/reward_pool.rs','state/mining.rs'],[('stake accounting','state/reward_pool.rs'),('settlement and penalties','state/mining.rs')])
p('C32','Both generated clients read accounts exactly as the program stored them',
 "For every content of a pool or member account, the decoders of the generated Rust client and of the generated JavaScript client (the data serializer, deserialize, fetch, safeFetch, and the fields and decoder of the account query) return in each named field exactly the value the program stores there, and the remaining bytes of the record unchanged. The Rust decoders accept exactly the data that is long enough for the record and never panic; the JavaScript ones report a missing account as missing.",
 ['inputs'],'all account contents, and data lengths (Rust)',
 'No test decodes an account written by the program; two fields of equal type swapped, or an offset off by a field, yield plausible values.',
 ['state/reward_pool.rs','state/mining.rs','clients/rust/src/generated/accounts/reward_pool.rs','clients/rust/src/generated/accounts/mining.rs','clients/js/src/generated/accounts/rewardPool.ts','clients/js/src/generated/accounts/mining.ts'],[('Rust decoders','clients/rust/src/generated/accounts/mining.rs'),('JavaScript decoders','clients/js/src/generated/accounts/mining.ts')])
p('C33','The generated JavaScript client speaks exactly the wire format of the program',
 "For all values, the instruction built by the generated JavaScript client for each instruction is addressed to the program and carries the bytes the program decodes to that same instruction and values. Its account list is exactly the accounts given by the caller (as a key, a derived address or a signer), or the published default where one may be left out, in the program's order, with signer and write permission wherever the program requires them; the required signers are attached.",
 ['inputs','configurations'],'all instructions, argument values, ways of giving each account and program registrations',
 'No test links the JavaScript client to the program.',
 ['instruction.rs','clients/js/src/generated/instructions/index.ts','clients/js/src/generated/shared/index.ts'],[('generated instruction functions','clients/js/src/generated/instructions/index.ts'),('account metas and signers','clients/js/src/generated/shared/index.ts')])
p('C34','An error code means the same in the program and both clients',
 "The program raises each of its 16 errors as the custom code equal to its number. The program's and the Rust client's error types have the same names, numbers and descriptions and decode every integer to the error of that number or to none; the JavaScript client resolves exactly these codes and names to the error with that name, code and description, for the given program and cause, and nothing else, and names the program's address and registered name.",
 ['inputs'],'all codes and integers',
 'Error tables are not tested at all; a wrong row shows only when that error occurs in production.',
 ['error.rs','clients/rust/src/generated/errors/mplx_rewards.rs','clients/js/src/generated/errors/mplxRewards.ts','clients/js/src/generated/programs/mplxRewards.ts'],[('error type','error.rs'),('Rust error type','clients/rust/src/generated/errors/mplx_rewards.rs'),('JavaScript error table','clients/js/src/generated/errors/mplxRewards.ts')])
p('C35','A refusal names a condition that really fails',
 "Whenever an instruction is refused with a code that stands for a condition (missing accounts or signature, wrong account owner, no stake left, empty lockup period, end date in the past, unclaimed rewards, zero rewards, stake received from others, missing scheduled reduction, equal delegates, wrong account size, already initialised, wrong member account, penalty above the weight, no slot free), that condition is indeed violated. Conversely, when exactly one thing is wrong (an account or signature missing; an account of another program; the wrong authority, member account, delegate account, mint, vault or reward target; nothing to fill, an end date in the past, no stake, a full table, no lockup period, a scheduled reduction missing or too small, rewards unclaimed, stake received, equal delegates, a penalty or amount above what is there) and all else is in order, the instruction is refused with the code of that condition: it is not accepted and does not panic.",
 ['inputs','histories','configurations'],'all instructions, account contents, arguments and clock values',
 'Tests look at few refusals, and rarely at the code.',
 ['instructions/mod.rs','error.rs','asserts.rs','state/reward_pool.rs','state/mining.rs','utils.rs'],[('handlers','instructions/mod.rs'),('account assertions','asserts.rs'),('error type','error.rs')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
