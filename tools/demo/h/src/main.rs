//! Runs the program's entry point natively on accounts given as JSON lines and reports what it did.
#![allow(invalid_reference_casting)]
//! Clock, rent and cross-program calls are stand-ins that behave like the runtime for the three calls the program makes.
#[cfg(feature = "client")]
mod client;
mod wire;
use serde_json::{json, Value};
use sokoban::{NodeAllocatorMap, RedBlackTree};
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent,
};
use std::{
    cell::RefCell,
    io::{BufRead, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

type PoolDiffs = RedBlackTree<u64, u64, 365>;
type MineDiffs = RedBlackTree<u64, u64, 50>;
type Hist = RedBlackTree<u64, u128, 1095>;
const POOL: usize = 64480;
const MINE: usize = 1776;

thread_local! {
    static NOW: RefCell<i64> = const { RefCell::new(0) };
    static PROG: RefCell<Pubkey> = RefCell::new(Pubkey::default());
    static LOG: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
    static OWNERS: RefCell<Vec<(usize, Pubkey)>> = const { RefCell::new(vec![]) };
    static KEEP: RefCell<Vec<Vec<u128>>> = const { RefCell::new(vec![]) };
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn pk(v: &Value) -> Pubkey {
    Pubkey::new_from_array(unhex(v.as_str().unwrap()).try_into().unwrap())
}
fn num(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        _ => v.as_u64().unwrap() as u128,
    }
}
fn aligned(len: usize) -> &'static mut [u8] {
    KEEP.with(|k| {
        let mut v = vec![0u128; len / 16 + 1];
        let p = v.as_mut_ptr() as *mut u8;
        k.borrow_mut().push(v);
        unsafe { std::slice::from_raw_parts_mut(p, len) }
    })
}
fn tree<T>(b: &mut [u8]) -> &mut T {
    assert_eq!(b.len(), std::mem::size_of::<T>());
    assert_eq!(b.as_ptr() as usize % std::mem::align_of::<T>(), 0);
    unsafe { &mut *(b.as_mut_ptr() as *mut T) }
}
macro_rules! fill {
    ($t:ty, $b:expr, $v:expr, $vt:ty) => {{
        let t: &mut $t = tree($b);
        t.initialize();
        for e in $v.as_array().unwrap() {
            t.insert(num(&e[0]) as u64, num(&e[1]) as $vt);
        }
    }};
}
macro_rules! dump {
    ($t:ty, $b:expr) => {{
        let b = $b;
        if b.iter().all(|x| *x == 0) {
            Value::Null
        } else {
            let t: &mut $t = tree(b);
            Value::Array(t.iter().map(|(k, v)| json!([k.to_string(), v.to_string()])).collect())
        }
    }};
}

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: NOW.with(|n| *n.borrow()), ..Default::default() };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        LOG.with(|l| l.borrow_mut().push(json!({"ret": hex(d)})));
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let prog = PROG.with(|p| *p.borrow());
        let mut signed = vec![];
        for s in seeds {
            signed.push(Pubkey::create_program_address(s, &prog).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        LOG.with(|l| {
            l.borrow_mut().push(json!({
                "cpi": hex(ix.program_id.as_ref()), "data": hex(&ix.data),
                "metas": ix.accounts.iter().map(|m| json!([hex(m.pubkey.as_ref()), m.is_signer, m.is_writable])).collect::<Vec<_>>(),
                "infos": infos.iter().map(|a| hex(a.key.as_ref())).collect::<Vec<_>>(),
                "signers": signed.iter().map(|k| hex(k.as_ref())).collect::<Vec<_>>(),
            }))
        });
        let mut accs = vec![];
        for m in &ix.accounts {
            let a = infos.iter().find(|a| a.key == &m.pubkey);
            let a = match a {
                Some(a) => a,
                None => return Err(ProgramError::NotEnoughAccountKeys),
            };
            if m.is_signer && !a.is_signer && !signed.contains(a.key) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !a.is_writable {
                return Err(ProgramError::InvalidArgument);
            }
            accs.push(a);
        }
        if ix.program_id == solana_program::system_program::id() {
            // create_account: tag 0, lamports, space, owner
            if ix.data.len() != 52 || ix.data[0..4] != [0, 0, 0, 0] {
                return Err(ProgramError::InvalidInstructionData);
            }
            let lam = u64::from_le_bytes(ix.data[4..12].try_into().unwrap());
            let space = u64::from_le_bytes(ix.data[12..20].try_into().unwrap()) as usize;
            let owner = Pubkey::new_from_array(ix.data[20..52].try_into().unwrap());
            let (from, to) = (accs[0], accs[1]);
            if to.data_len() != 0 || to.owner != &Pubkey::default() || to.lamports() != 0 || from.lamports() < lam || space > 10 << 20 {
                return Err(ProgramError::Custom(0));
            }
            **from.try_borrow_mut_lamports()? -= lam;
            **to.try_borrow_mut_lamports()? += lam;
            *to.try_borrow_mut_data()? = aligned(space);
            OWNERS.with(|o| o.borrow_mut().push((to.key as *const _ as usize, owner)));
            // the runtime rewrites the owner in place
            unsafe { std::ptr::write_volatile(to.owner as *const Pubkey as *mut [u8; 32], owner.to_bytes()) };
            Ok(())
        } else if ix.program_id == spl_token::id() {
            match ix.data.first() {
                Some(3) => {
                    let amt = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
                    let (s, d, auth) = (accs[0], accs[1], accs[2]);
                    if s.owner != &spl_token::id() || d.owner != &spl_token::id() || s.data_len() != 165 || d.data_len() != 165 {
                        return Err(ProgramError::InvalidAccountData);
                    }
                    let (so, sa, sm) = {
                        let b = s.try_borrow_data()?;
                        (b[32..64].to_vec(), u64::from_le_bytes(b[64..72].try_into().unwrap()), b[..32].to_vec())
                    };
                    if so != auth.key.to_bytes() || sa < amt || sm != d.try_borrow_data()?[..32] {
                        return Err(ProgramError::Custom(1));
                    }
                    if s.key != d.key {
                        s.try_borrow_mut_data()?[64..72].copy_from_slice(&(sa - amt).to_le_bytes());
                        let da = u64::from_le_bytes(d.try_borrow_data()?[64..72].try_into().unwrap());
                        d.try_borrow_mut_data()?[64..72].copy_from_slice(&da.checked_add(amt).ok_or(ProgramError::Custom(14))?.to_le_bytes());
                    }
                    Ok(())
                }
                Some(1) => {
                    let (a, mint, owner) = (accs[0], accs[1], accs[2]);
                    let mut b = a.try_borrow_mut_data()?;
                    if b.len() != 165 || a.owner != &spl_token::id() || b[108] != 0 {
                        return Err(ProgramError::Custom(6));
                    }
                    b[..32].copy_from_slice(mint.key.as_ref());
                    b[32..64].copy_from_slice(owner.key.as_ref());
                    b[108] = 1;
                    Ok(())
                }
                _ => Err(ProgramError::InvalidInstructionData),
            }
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

fn run(c: &Value) -> Value {
    NOW.with(|n| *n.borrow_mut() = num(&c["now"]) as i64);
    let prog = pk(&c["program"]);
    PROG.with(|p| *p.borrow_mut() = prog);
    LOG.with(|l| l.borrow_mut().clear());
    let mut keys: Vec<Box<Pubkey>> = vec![];
    let mut owners: Vec<Box<Pubkey>> = vec![];
    let mut lam: Vec<Box<u64>> = vec![];
    let specs = c["accounts"].as_array().unwrap();
    for a in specs {
        if a.get("dup").is_some() {
            continue;
        }
        keys.push(Box::new(pk(&a["key"])));
        owners.push(Box::new(pk(&a["owner"])));
        lam.push(Box::new(num(&a["lamports"]) as u64));
    }
    let mut infos: Vec<AccountInfo> = vec![];
    let mut j = 0;
    let mut lam_it = lam.iter_mut();
    for a in specs {
        if let Some(d) = a.get("dup") {
            let x: AccountInfo = infos[d.as_u64().unwrap() as usize].clone();
            infos.push(x);
            continue;
        }
        let data = aligned(num(&a["len"]) as usize);
        if let Some(ps) = a.get("patch") {
            for p in ps.as_array().unwrap() {
                let o = num(&p[0]) as usize;
                let b = unhex(p[1].as_str().unwrap());
                data[o..o + b.len()].copy_from_slice(&b);
            }
        }
        if let Some(v) = a.get("pool_diffs") {
            fill!(PoolDiffs, &mut data[176..11888], v, u64);
        }
        if let Some(v) = a.get("hist") {
            fill!(Hist, &mut data[11888..64480], v, u128);
        }
        if let Some(v) = a.get("mine_diffs") {
            fill!(MineDiffs, &mut data[144..1776], v, u64);
        }
        infos.push(AccountInfo {
            key: unsafe { &*(keys[j].as_ref() as *const Pubkey) },
            lamports: Rc::new(RefCell::new(unsafe { &mut *(lam_it.next().unwrap().as_mut() as *mut u64) })),
            data: Rc::new(RefCell::new(data)),
            owner: unsafe { &*(owners[j].as_ref() as *const Pubkey) },
            rent_epoch: 0,
            is_signer: a["signer"].as_bool().unwrap(),
            is_writable: a["writable"].as_bool().unwrap(),
            executable: a.get("exe").and_then(|x| x.as_bool()).unwrap_or(false),
        });
        j += 1;
    }
    let ix = unhex(c["ix"].as_str().unwrap());
    let infos: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute::<&[AccountInfo], &'static [AccountInfo<'static>]>(&infos[..]) };
    let r = catch_unwind(AssertUnwindSafe(|| mplx_rewards::instructions::process_instruction(&prog, infos, &ix)));
    let res = match r {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err: {e:?}"),
        Err(_) => "panic".to_string(),
    };
    let mut out = vec![];
    if res == "ok" || c.get("dump").is_some() {
        for a in infos {
            let mut b = match a.data.try_borrow_mut() {
                Ok(b) => b,
                Err(_) => {
                    out.push(json!({"leaked": true}));
                    continue;
                }
            };
            let l = **a.lamports.borrow();
            let d = catch_unwind(AssertUnwindSafe(|| match b.len() {
                POOL => json!({"rec": hex(&b[..176]), "diffs": dump!(PoolDiffs, &mut b[176..11888]), "hist": dump!(Hist, &mut b[11888..64480])}),
                MINE => json!({"rec": hex(&b[..144]), "diffs": dump!(MineDiffs, &mut b[144..1776])}),
                _ => json!({"rec": hex(&b[..])}),
            }))
            .unwrap_or(json!({"bad": true}));
            let mut o = d;
            o["lamports"] = json!(l.to_string());
            o["owner"] = json!(hex(unsafe { &std::ptr::read_volatile(a.owner as *const Pubkey as *const [u8; 32]) }));
            o["len"] = json!(b.len());
            o["zero"] = json!(b.iter().all(|x| *x == 0));
            out.push(o);
        }
    }
    KEEP.with(|k| k.borrow_mut().clear());
    json!({"result": res, "accounts": out, "log": LOG.with(|l| l.borrow().clone())})
}

fn ix_json(i: &Instruction) -> Value {
    json!({"program": hex(i.program_id.as_ref()), "data": hex(&i.data), "metas": i.accounts.iter().map(|m| json!([hex(m.pubkey.as_ref()), m.is_signer, m.is_writable])).collect::<Vec<_>>()})
}
/// single functions of the crate
fn call(c: &Value) -> Value {
    use mplx_rewards::{state::*, utils::LockupPeriod as L};
    match c["fn"].as_str().unwrap() {
        "lockup" => {
            let p = [L::None, L::Flex, L::ThreeMonths, L::SixMonths, L::OneYear][num(&c["period"]) as usize];
            let s = num(&c["start"]) as u64;
            let f = |g: &dyn Fn() -> Option<u64>| match catch_unwind(AssertUnwindSafe(g)) {
                Ok(Some(x)) => json!(x.to_string()),
                Ok(None) => json!("refused"),
                Err(_) => json!("panic"),
            };
            json!({"multiplier": f(&|| Some(p.multiplier())), "days": f(&|| p.days().ok()), "end_timestamp": f(&|| p.end_timestamp(s).ok())})
        }
        "views" => {
            let len = num(&c["len"]) as usize;
            let b = aligned(len);
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i as u64).wrapping_mul(0x9e37_79b9).wrapping_add(num(&c["fill"]) as u64).to_le_bytes()[1];
            }
            let base = b.as_ptr() as usize;
            let copy = b.to_vec();
            fn at<T>(base: usize, x: &T) -> Value {
                json!([x as *const T as usize - base, std::mem::size_of::<T>()])
            }
            let go = |g: &mut dyn FnMut() -> Option<Value>| match catch_unwind(AssertUnwindSafe(g)) {
                Ok(Some(x)) => x,
                _ => json!("refused"),
            };
            let p: *mut [u8] = b;
            let r = match c["which"].as_str().unwrap() {
                "pool" => json!({
                    "mut": go(&mut || WrappedRewardPool::from_bytes_mut(unsafe { &mut *p }).ok().map(|w| json!({"pool": at(base, &*w.pool), "diffs": at(base, &*w.weighted_stake_diffs), "hist": at(base, &*w.cumulative_index)}))),
                    "imm": go(&mut || WrappedImmutableRewardPool::from_bytes(unsafe { &*p }).ok().map(|w| json!({"pool": at(base, w.pool), "diffs": at(base, w.weighted_stake_diffs), "hist": at(base, w.cumulative_index)}))),
                }),
                _ => json!({
                    "mut": go(&mut || WrappedMining::from_bytes_mut(unsafe { &mut *p }).ok().map(|w| json!({"mining": at(base, &*w.mining), "diffs": at(base, &*w.weighted_stake_diffs)}))),
                    "imm": go(&mut || WrappedImmutableMining::from_bytes(unsafe { &*p }).ok().map(|w| json!({"mining": at(base, w.mining), "diffs": at(base, w.weighted_stake_diffs)}))),
                }),
            };
            let same = unsafe { &*p } == &copy[..];
            KEEP.with(|k| k.borrow_mut().clear());
            json!({"views": r, "unchanged": same})
        }
        "id" => json!({"id": hex(mplx_rewards::id().as_ref())}),
        "ctor" => ix_json(&wire::ctor(c["name"].as_str().unwrap(), &c["keys"], &c["args"])),
        #[cfg(feature = "client")]
        "client" => {
            let (name, way, k, a) = (c["name"].as_str().unwrap(), c["way"].as_str().unwrap(), &c["keys"], &c["args"]);
            match catch_unwind(AssertUnwindSafe(|| match way {
                "instruction" | "builder" => ix_json(&client::plain(way, name, k, a, c["consts"].as_bool().unwrap_or(true))),
                _ => {
                    LOG.with(|l| l.borrow_mut().clear());
                    let info = |key: Pubkey| -> &'static AccountInfo<'static> {
                        Box::leak(Box::new(AccountInfo {
                            key: Box::leak(Box::new(key)),
                            lamports: Rc::new(RefCell::new(Box::leak(Box::new(0)))),
                            data: Rc::new(RefCell::new(Box::leak(Box::new([])))),
                            owner: Box::leak(Box::default()),
                            rent_epoch: 0,
                            is_signer: true,
                            is_writable: true,
                            executable: false,
                        }))
                    };
                    client::cpi(way, name, info(pk(&k["program"])), &|n| info(pk(&k[n])), a);
                    let l = LOG.with(|l| l.borrow().clone());
                    json!({"calls": l.len(), "program": l[0]["cpi"], "data": l[0]["data"], "metas": l[0]["metas"], "infos": l[0]["infos"]})
                }
            })) {
                Ok(r) => r,
                Err(_) => json!({"result": "panic"}),
            }
        }
        _ => json!({"result": "unknown"}),
    }
}

fn main() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut o = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).unwrap();
        let r = if c.get("fn").is_some() { call(&c) } else { run(&c) };
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
