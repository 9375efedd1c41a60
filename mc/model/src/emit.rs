//! Prints programs as Rust source.

use crate::ast::*;
use std::fmt::Write;

pub fn ty_name(ty: Ty) -> String {
    match ty {
        Ty::Str => "String".into(),
        Ty::U8 => "u8".into(),
        Ty::I32 => "i32".into(),
        Ty::Bool => "bool".into(),
        Ty::Tok(n) => format!("rt::Tok{}", n),
    }
}

fn type_text(m: &Module, p: &Prog, k: &FKind) -> String {
    match k {
        FKind::Seg(t) => ty_name(*t),
        FKind::Query(QTy::Pairs) => "Vec<(String, String)>".into(),
        FKind::Query(QTy::Struct) => "rt::QStruct".into(),
        FKind::Query(QTy::Unit) => "()".into(),
        FKind::BodyBytes => "rt::BodyBytes".into(),
        FKind::GSee => "rt::GSee".into(),
        FKind::GHdr(n) => format!("rt::GHdr{}", n),
        FKind::GDyn(n) => format!("rt::GDyn{}", n),
        FKind::BodyDyn => "rt::BodyDyn".into(),
        FKind::Forward(i) => {
            if p.generic {
                "I".into()
            } else {
                full_name(m, *i)
            }
        }
        FKind::Raw(t) => t.clone(),
    }
}

/// Name of a type, with the type argument for generic ones.
pub fn full_name(m: &Module, i: usize) -> String {
    let p = &m.types[i];
    if p.generic {
        let inner = p
            .variants
            .iter()
            .find_map(|v| v.forward())
            .expect("generic program without forward");
        format!("{}<{}>", p.name, full_name(m, inner))
    } else {
        p.name.clone()
    }
}

fn attrs(v: &Variant, ind: &str, out: &mut String) {
    for r in &v.routes {
        writeln!(out, "{}#[{}({:?})]", ind, r.method, r.pat.text()).unwrap();
    }
}

fn fields(m: &Module, p: &Prog, v: &Variant, ind: &str, out: &mut String) {
    for f in &v.fields {
        let attr = match f.kind {
            FKind::Query(_) => "#[query_params] ",
            FKind::BodyBytes | FKind::BodyDyn => "#[body] ",
            FKind::Forward(_) => "#[forward] ",
            _ => "",
        };
        writeln!(
            out,
            "{}    {}{}: {},",
            ind,
            attr,
            f.name,
            type_text(m, p, &f.kind)
        )
        .unwrap();
    }
}

pub fn prog(m: &Module, p: &Prog) -> String {
    let mut out = String::new();
    writeln!(out, "#[derive(FromRequest, Debug)]").unwrap();
    let gen = if p.generic { "<I>" } else { "" };
    if p.is_struct {
        let v = &p.variants[0];
        attrs(v, "", &mut out);
        if v.fields.is_empty() && !v.braces {
            writeln!(out, "pub struct {}{};", p.name, gen).unwrap();
        } else {
            writeln!(out, "pub struct {}{} {{", p.name, gen).unwrap();
            fields(m, p, v, "", &mut out);
            writeln!(out, "}}").unwrap();
        }
    } else {
        writeln!(out, "pub enum {}{} {{", p.name, gen).unwrap();
        for v in &p.variants {
            attrs(v, "    ", &mut out);
            if v.fields.is_empty() && !v.braces {
                writeln!(out, "    {},", v.name).unwrap();
            } else {
                writeln!(out, "    {} {{", v.name).unwrap();
                fields(m, p, v, "    ", &mut out);
                writeln!(out, "    }},").unwrap();
            }
        }
        writeln!(out, "}}").unwrap();
    }
    out
}

pub fn module(m: &Module) -> String {
    let mut out = String::new();
    for p in &m.types {
        out.push_str(&prog(m, p));
    }
    out
}
