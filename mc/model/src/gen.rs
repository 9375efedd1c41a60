//! `gen FAMILY TIER OUTDIR SHARDS CORES_TOML [SKIPPED]`: writes the package with a family's programs.
//!
//! Files are only touched if their contents change, so that cargo can reuse earlier builds.

use model::{emit, families};
use std::fmt::Write as _;
use std::{env, fs, path::Path};

pub fn put(path: &Path, text: &str) {
    if fs::read_to_string(path).ok().as_ref().map(|s| &s[..]) != Some(text) {
        fs::write(path, text).unwrap();
    }
}

fn main() {
    let a: Vec<String> = env::args().collect();
    let (fam, tier, out, shards) = (&a[1], &a[2], Path::new(&a[3]), a[4].parse::<usize>().unwrap());
    let head = fs::read_to_string(&a[5]).unwrap();
    let skip: Vec<usize> = a.get(6).map_or(vec![], |s| s.split(',').map(|i| i.parse().unwrap()).collect());
    let cases = families::family(fam, tier == "thorough");
    fs::create_dir_all(out.join("src")).unwrap();
    let mut toml = format!("[package]\nname = \"gen_{}\"\nversion = \"0.1.0\"\nedition = \"2018\"\nautobins = false\n\n", fam);
    toml.push_str(&head);
    for s in 0..shards {
        write!(toml, "\n[[bin]]\nname = \"{}_{}\"\npath = \"src/s{}.rs\"\n", fam, s, s).unwrap();
        let mut src = String::from("#![allow(warnings)]\nuse hyperdrive::FromRequest;\n");
        let mut table = String::new();
        for (i, c) in cases.iter().enumerate().filter(|(i, _)| i % shards == s && !skip.contains(i)) {
            writeln!(src, "mod p{} {{ use super::*;", i).unwrap();
            src.push_str(&emit::module(&c.module));
            src.push_str("}\n");
            let main = emit::full_name(&c.module, c.module.types.len() - 1);
            // generic arguments need paths too
            let path = main
                .split('<')
                .map(|p| format!("p{}::{}", i, p))
                .collect::<Vec<_>>()
                .join("<");
            writeln!(table, "        ({}, rt::decoder::<{}>()),", i, path).unwrap();
        }
        if fam == "p08" {
            table = table.replace("rt::decoder::", "rt::dynrt::decoder::");
        }
        let entry = if fam == "p08" { "dynrt::dyn_main" } else { "shard_main" };
        writeln!(src, "fn main() {{\n    rt::{}({:?}, {:?}, {}, {}, vec![\n{}    ]);\n}}", entry, fam, tier, s, shards, table).unwrap();
        put(&out.join(format!("src/s{}.rs", s)), &src);
    }
    put(&out.join("Cargo.toml"), &toml);
    println!("{}", cases.len());
}
