//! The few libz3 entry points the executor needs.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
pub type Cfg = *mut c_void;
pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Sym = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Params = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_set_param_value(c: Cfg, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_dec_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
}

/// One context per template; dropped with it (asts are garbage with the context).
pub struct Z3 {
    pub c: Ctx,
    pub s: Solver,
    pub bv8: Sort,
    pub bv64: Sort,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, None);
            let k = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, k.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            let bv8 = Z3_mk_bv_sort(c, 8);
            let bv64 = Z3_mk_bv_sort(c, 64);
            Z3 { c, s, bv8, bv64 }
        }
    }
    pub fn var8(&self, i: u32) -> Ast {
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), self.bv8) }
    }
    pub fn k8(&self, v: u64) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.c, v, self.bv8) }
    }
    pub fn k64(&self, v: u64) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.c, v, self.bv64) }
    }
    pub fn tt(&self) -> Ast {
        unsafe { Z3_mk_true(self.c) }
    }
    pub fn ff(&self) -> Ast {
        unsafe { Z3_mk_false(self.c) }
    }
    pub fn not(&self, a: Ast) -> Ast {
        unsafe { Z3_mk_not(self.c, a) }
    }
    pub fn and(&self, a: &[Ast]) -> Ast {
        unsafe { Z3_mk_and(self.c, a.len() as c_uint, a.as_ptr()) }
    }
    pub fn or(&self, a: &[Ast]) -> Ast {
        unsafe { Z3_mk_or(self.c, a.len() as c_uint, a.as_ptr()) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_eq(self.c, a, b) }
    }
    pub fn ite(&self, c: Ast, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.c, c, a, b) }
    }
    pub fn ule(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvule(self.c, a, b) }
    }
    pub fn ult(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvult(self.c, a, b) }
    }
    pub fn slt(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvslt(self.c, a, b) }
    }
    pub fn add(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvadd(self.c, a, b) }
    }
    pub fn sub(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvsub(self.c, a, b) }
    }
    pub fn mul(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvmul(self.c, a, b) }
    }
    pub fn band(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvand(self.c, a, b) }
    }
    pub fn bor(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvor(self.c, a, b) }
    }
    pub fn bxor(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvxor(self.c, a, b) }
    }
    pub fn shl(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvshl(self.c, a, b) }
    }
    pub fn lshr(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvlshr(self.c, a, b) }
    }
    pub fn ashr(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_bvashr(self.c, a, b) }
    }
    pub fn zext(&self, n: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_zero_ext(self.c, n, a) }
    }
    pub fn sext(&self, n: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_sign_ext(self.c, n, a) }
    }
    pub fn extract(&self, hi: u32, lo: u32, a: Ast) -> Ast {
        unsafe { Z3_mk_extract(self.c, hi, lo, a) }
    }
    pub fn push(&self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&self) {
        unsafe { Z3_solver_pop(self.c, self.s, 1) }
    }
    pub fn assert(&self, a: Ast) {
        unsafe { Z3_solver_assert(self.c, self.s, a) }
    }
    pub fn check(&self) -> Res {
        match unsafe { Z3_solver_check(self.c, self.s) } {
            1 => Res::Sat,
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }
    /// After Sat: the value of each variable.
    pub fn model(&self, vars: &[Ast]) -> Vec<u8> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let mut out = Vec::new();
            for v in vars {
                let mut a: Ast = std::ptr::null_mut();
                Z3_model_eval(self.c, m, *v, true, &mut a);
                let mut n = 0u64;
                Z3_get_numeral_uint64(self.c, a, &mut n);
                out.push(n as u8);
            }
            Z3_model_dec_ref(self.c, m);
            out
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}
