"""writes replay/src/wire.rs and replay/src/client.rs from the tables: native calls of the constructors and of the generated client"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import spec
from spec import *
import client
from client import CAMEL, ANAMES, fname
U = '//! Written by tools/mkwire.py.\n'
def val(x, kind, ref):
    n = dict(ARGS_ALL)[x]
    if x == 'date': return 'date(a)'
    if n == 32: return f'{"&" if ref else ""}key(a, "{x}")'
    if n == 1: return f'period(num(&a["{x}"]) as u8)' if kind == 'p' else f'cperiod(num(&a["{x}"]) as u8)'
    return f'num(&a["{x}"]) as u64'
ARGS_ALL = [p for t in ARGS for p in ARGS[t]] + [('date', 8)]
def argn(t): return [x for x, _ in ARGS[t] if x != 'has_date'] + (['date'] if t == SLASH else [])
o = U + '''use crate::{num, pk};
use mplx_rewards::{instruction as i, utils::LockupPeriod as L};
use serde_json::Value;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
pub fn key(a: &Value, n: &str) -> Pubkey {
    pk(&a[n])
}
pub fn date(a: &Value) -> Option<u64> {
    a.get("date").filter(|d| !d.is_null()).map(|d| num(d) as u64)
}
fn period(p: u8) -> L {
    [L::None, L::Flex, L::ThreeMonths, L::SixMonths, L::OneYear][p as usize]
}
pub fn ctor(name: &str, k: &Value, a: &Value) -> Instruction {
    let p = &key(k, "program");
    match name {
'''
for t in range(12):
    ps = ['p'] + [f'&key(k, "{x[1:]}")' if x[0] == '@' else val(x, 'p', True) for x in PARAMS[t]]
    o += f'        "{NAMES[t]}" => i::{NAMES[t]}({", ".join(ps)}),\n'
o += '        _ => unreachable!(),\n    }\n}\n'
open(V + '/replay/src/wire.rs', 'w').write(o)
o = U + '''use crate::{num, wire::{date, key}};
use rewards::{instructions::*, types::LockupPeriod as L};
use serde_json::Value;
use solana_program::{account_info::AccountInfo, instruction::Instruction};
fn cperiod(p: u8) -> L {
    [L::None, L::Flex, L::ThreeMonths, L::SixMonths, L::OneYear][p as usize].clone()
}
/// the account struct's and the builder's way
pub fn plain(way: &str, name: &str, k: &Value, a: &Value, consts: bool) -> Instruction {
    match (name, way) {
'''
for t in range(12):
    C = CAMEL[t]; an = ANAMES[t]; xs = argn(t); cs = CONSTS.get(t, {})
    acc = ', '.join(f'{n}: key(k, "{n}")' for n in an)
    args = f'{C}InstructionArgs {{ ' + ', '.join(f'{fname(t, x)}: {val(x, "c", False)}' for x in xs) + ' }' if xs else ''
    o += f'        ("{NAMES[t]}", "instruction") => {C} {{ {acc} }}.instruction({args}),\n'
    o += f'        ("{NAMES[t]}", _) => {{\n            let mut b = {C}Builder::new();\n'
    for i, n in enumerate(an): o += (f'            if consts {{\n                b.{n}(key(k, "{n}"));\n            }}\n' if i in cs else f'            b.{n}(key(k, "{n}"));\n')
    for x in xs: o += (f'            if let Some(d) = date(a) {{\n                b.{fname(t, x)}(d);\n            }}\n' if x == 'date' else f'            b.{fname(t, x)}({val(x, "c", False)});\n')
    o += '            b.instruction()\n        }\n'
o += '        _ => unreachable!(),\n    }\n}\n/// the CPI ways; the invocation is recorded by the stand-in for the runtime\npub fn cpi(way: &str, name: &str, program: &AccountInfo<\'static>, ai: &dyn Fn(&str) -> &\'static AccountInfo<\'static>, a: &Value) {\n    let program: &AccountInfo<\'static> = program;\n    match (name, way) {\n'
for t in range(12):
    C = CAMEL[t]; an = ANAMES[t]; xs = argn(t)
    acc = ', '.join(f'{n}: ai("{n}")' for n in an)
    args = f', {C}InstructionArgs {{ ' + ', '.join(f'{fname(t, x)}: {val(x, "c", False)}' for x in xs) + ' }' if xs else ''
    o += f'        ("{NAMES[t]}", "cpi") => drop({C}Cpi::new(program, {C}CpiAccounts {{ {acc} }}{args}).invoke()),\n'
    o += f'        ("{NAMES[t]}", _) => {{\n            let mut b = {C}CpiBuilder::new(program);\n'
    for i, n in enumerate(an): o += f'            b.{n}(ai("{n}"));\n'
    for x in xs: o += (f'            if let Some(d) = date(a) {{\n                b.{fname(t, x)}(d);\n            }}\n' if x == 'date' else f'            b.{fname(t, x)}({val(x, "c", False)});\n')
    o += '            drop(b.invoke());\n        }\n'
o += '        _ => unreachable!(),\n    }\n}\n'
open(V + '/replay/src/client.rs', 'w').write(o)
