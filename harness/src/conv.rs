//! Host functions declared the way hosts do, one for each Rust type that is
//! tried: they get a value and give it back.

use dyon::embed::{ConvertVec4, PushVariable};
use dyon::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct P {
    x: f64,
    y: f64,
}
dyon_obj! {P { x, y }}

#[derive(Clone, Debug)]
pub struct Q {
    p: P,
    name: String,
    tags: Vec<String>,
}
dyon_obj! {Q { p, name, tags }}

#[derive(Clone, Debug)]
pub struct E {
    on: Option<bool>,
    at: Vec4,
    any: Variable,
}
dyon_obj! {E { on, at, any }}

macro_rules! conv {
    ($($name:ident : $t:ty),* $(,)?) => {
        $(dyon_fn! {fn $name(x: $t) -> $t {x}})*
        fn add_conv(m: &mut Module) {
            $(m.add_str(stringify!($name), $name, Dfn::nl(vec![Type::Any], Type::Any));)*
        }
    };
}

conv! {
    c_any: Variable, c_f64: f64, c_f32: f32, c_u32: u32, c_usize: usize, c_bool: bool, c_string: String, c_astr: Arc<String>,
    c_vec4: Vec4, c_mat4: Mat4,
    c_of: Option<f64>, c_os: Option<String>, c_oob: Option<Option<bool>>, c_ova: Option<Variable>,
    c_rfs: Result<f64, String>, c_rsf: Result<String, f64>, c_rov: Result<Option<f64>, Vec<String>>,
    c_a2: [f64; 2], c_a3: [String; 3], c_a4: [bool; 4], c_aa: [[f64; 2]; 2], c_an: [Variable; 3],
    c_t2: (f64, String), c_t3: (bool, f64, String), c_t4: (String, bool, f64, Option<f64>), c_tt: (f64, (bool, f64)),
    c_vf: Vec<f64>, c_vs: Vec<String>, c_vb: Vec<bool>, c_vu: Vec<u32>, c_vvf: Vec<Vec<f64>>, c_vos: Vec<Option<String>>, c_ovb: Option<Vec<bool>>,
    c_vt: Vec<(f64, bool)>, c_vv4: Vec<Vec4>, c_va: Vec<Variable>,
    c_p: P, c_q: Q, c_e: E, c_vp: Vec<P>, c_op: Option<P>, c_rp: Result<P, Q>, c_a2p: [P; 2],
}

macro_rules! vecs {
    ($($name:ident $via:ident : $t:ty),* $(,)?) => {
        $(
            /// By the stack, as `rt.pop_vec4`.
            fn $name(rt: &mut Runtime) -> Result<Variable, String> {
                let x: $t = rt.pop_vec4()?;
                Ok(Variable::Vec4(ConvertVec4::to(&x)))
            }
            /// By the wrapper and its conversions.
            fn $via(rt: &mut Runtime) -> Result<Variable, String> {
                let x: Vec4 = rt.pop()?;
                let x: $t = x.into();
                Ok(<Vec4 as From<$t>>::from(x).push_var())
            }
        )*
        fn add_vecs(m: &mut Module) {
            $(
                m.add_str(stringify!($name), $name, Dfn::nl(vec![Type::Any], Type::Any));
                m.add_str(stringify!($via), $via, Dfn::nl(vec![Type::Any], Type::Any));
            )*
        }
    };
}

vecs! {
    p_f2 i_f2: [f32; 2], p_f3 i_f3: [f32; 3], p_f4 i_f4: [f32; 4], p_d2 i_d2: [f64; 2], p_d3 i_d3: [f64; 3], p_d4 i_d4: [f64; 4],
}

macro_rules! intos {
    ($($name:ident : $t:ty),* $(,)?) => {
        $(
            fn $name(rt: &mut Runtime) -> Result<Variable, String> {
                let x: Vec4 = rt.pop()?;
                let x: $t = x.into();
                Ok(<Vec4 as From<$t>>::from(x).push_var())
            }
        )*
        fn add_intos(m: &mut Module) {
            $(m.add_str(stringify!($name), $name, Dfn::nl(vec![Type::Any], Type::Any));)*
        }
    };
}

intos! {
    i_tf2: (f32, f32), i_tf3: (f32, f32, f32), i_tf4: (f32, f32, f32, f32), i_td2: (f64, f64), i_td3: (f64, f64, f64), i_td4: (f64, f64, f64, f64),
    i_u2: [u32; 2], i_tu2: (u32, u32),
}

dyon_fn! {fn g2(a: f64, b: String) -> (f64, String) {(a, b)}}
dyon_fn! {fn g3(a: bool, b: String, c: f64) -> (bool, String, f64) {(a, b, c)}}
dyon_fn! {fn g4(a: f64, b: f64, c: f64, d: f64) -> [f64; 4] {[a, b, c, d]}}
dyon_fn! {fn v2(a: f64, b: String) {
    crate::exec::log_out(&(a, b).push_var());
}}

fn cur_f64(rt: &mut Runtime) -> Result<Variable, String> {
    Ok(rt.current_object::<f64>("cn")?.push_var())
}
fn cur_vf(rt: &mut Runtime) -> Result<Variable, String> {
    Ok(rt.current_object::<Vec<f64>>("cn")?.push_var())
}

// Rust objects, in the forms of examples/functions.rs.
dyon_fn! {fn mk(a: f64) -> #f64 {a}}
dyon_fn! {fn mki(a: f64) -> #i32 {a as i32}}
dyon_fn! {fn mk5() -> #f64 {5.0}}
dyon_fn! {fn rd(a: #&f64) -> f64 {*a}}
dyon_fn! {fn set(a: #&mut f64, b: f64) {*a = b}}
dyon_fn! {fn setby(a: #&mut f64, b: #f64) {*a = b}}
dyon_fn! {fn addby(a: #&mut f64, b: #&f64) -> f64 {
    *a += *b;
    *a
}}
dyon_fn! {fn subby(a: #&mut f64, b: #f64) -> f64 {
    *a -= b;
    *a
}}
dyon_fn! {fn setref(a: #&mut f64, b: #&f64) {*a = *b}}
dyon_fn! {fn minus(a: #&f64, b: #&f64) -> #f64 {a - b}}
dyon_fn! {fn scale(a: #&f64, b: f64) -> #f64 {a * b}}
dyon_fn! {fn less(a: #f64, b: f64) -> f64 {a - b}}

pub fn add(m: &mut Module) {
    use Type::*;
    add_conv(m);
    add_vecs(m);
    add_intos(m);
    m.add_str("g2", g2, Dfn::nl(vec![Any; 2], Any));
    m.add_str("g3", g3, Dfn::nl(vec![Any; 3], Any));
    m.add_str("g4", g4, Dfn::nl(vec![Any; 4], Any));
    m.add_str("v2", v2, Dfn::nl(vec![Any; 2], Void));
    m.add_str("cur_f64", cur_f64, Dfn::nl(vec![], Any));
    m.add_str("cur_vf", cur_vf, Dfn::nl(vec![], Any));
    m.add_str("mk", mk, Dfn::nl(vec![F64], Any));
    m.add_str("mki", mki, Dfn::nl(vec![F64], Any));
    m.add_str("mk5", mk5, Dfn::nl(vec![], Any));
    m.add_str("rd", rd, Dfn::nl(vec![Any], F64));
    m.add_str("set", set, Dfn::nl(vec![Any, F64], Void));
    m.add_str("setby", setby, Dfn::nl(vec![Any; 2], Void));
    m.add_str("addby", addby, Dfn::nl(vec![Any; 2], F64));
    m.add_str("subby", subby, Dfn::nl(vec![Any; 2], F64));
    m.add_str("setref", setref, Dfn::nl(vec![Any; 2], Void));
    m.add_str("minus", minus, Dfn::nl(vec![Any; 2], Any));
    m.add_str("scale", scale, Dfn::nl(vec![Any, F64], Any));
    m.add_str("less", less, Dfn::nl(vec![Any, F64], F64));
}
