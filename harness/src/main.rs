mod auc;
mod auc_mon;
mod conc;
mod core;
mod ed_mon;
mod wire_mon;
mod err_mon;
mod groups_data;
mod group_mon;
mod hostile;
mod quiet_mon;
mod srp_mon;
mod spake_mon;
mod srp_ref;
mod toys;
use crate::core::*;
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let prop = a[0].clone();
    let mut x = Ctx {
        prop: prop.clone(),
        seed: 1,
        thorough: false,
        scale: 1.0,
        threads: 8,
        only: None,
        stage_cap: Duration::from_secs(120),
        obs: Obs::default(),
        violations: vec![],
        errors: vec![],
        stages: vec![],
        rules: vec![],
    };
    let mut out: Option<String> = None;
    let mut watch = 60;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--seed" => x.seed = v.parse().unwrap(),
            "--thorough" => {
                x.thorough = true;
                i += 1;
                continue;
            }
            "--scale" => x.scale = v.parse().unwrap(),
            "--threads" => x.threads = v.parse().unwrap(),
            "--stage" => x.only = Some((v, 0)),
            "--case" => x.only = Some((x.only.unwrap().0, v.parse().unwrap())),
            "--cap" => x.stage_cap = Duration::from_secs(v.parse().unwrap()),
            "--watch" => watch = v.parse().unwrap(),
            "--out" => out = Some(v),
            o => panic!("unknown option {o}"),
        }
        i += 2;
    }
    install_hook();
    if prop != "C29" {
        start_watchdog(prop.clone(), x.seed, watch, out.clone());
    }
    match prop.as_str() {
        "C01" => srp_mon::c01(&mut x),
        "C02" => srp_mon::c02(&mut x),
        "C03" => srp_mon::c03(&mut x),
        "C04" => srp_mon::c04(&mut x),
        "C05" => srp_mon::c05(&mut x),
        "C06" => srp_mon::c06(&mut x),
        "C07" => {
            srp_mon::c07(&mut x);
            auc_mon::c07(&mut x)
        }
        "C09" => spake_mon::c09(&mut x),
        "C10" => spake_mon::c10(&mut x),
        "C11" => spake_mon::c11(&mut x),
        "C12" => spake_mon::c12(&mut x),
        "C13" => spake_mon::c13(&mut x),
        "C14" => auc_mon::c14(&mut x),
        "C15" => auc_mon::c15(&mut x),
        "C16" => auc_mon::c16(&mut x),
        "C17" => auc_mon::c17(&mut x),
        "C18" => auc_mon::c18(&mut x),
        "C19" => auc_mon::c19(&mut x),
        "C20" => auc_mon::c20(&mut x),
        "C21" => auc_mon::c21(&mut x),
        "C34" => auc_mon::c34(&mut x),
        "C22" => {
            auc_mon::c22(&mut x);
            spake_mon::c22(&mut x)
        }
        "C23" => conc::c23(&mut x),
        "C24" => hostile::c24(&mut x),
        "C27" => group_mon::c27(&mut x),
        "C29" => quiet_mon::c29(&mut x),
        "C31" => ed_mon::c31(&mut x),
        "C32" => wire_mon::c32(&mut x),
        "C28" => err_mon::c28(&mut x),
        "C26" => {
            auc_mon::c26(&mut x);
            srp_mon::c26(&mut x);
            spake_mon::c26(&mut x)
        }
        p => panic!("unknown property {p}"),
    }
    let j = x.json();
    match out {
        Some(p) => std::fs::write(p, j).unwrap(),
        None => println!("{j}"),
    }
    let code = if !x.violations.is_empty() { 1 } else if !x.errors.is_empty() { 2 } else { 0 };
    std::process::exit(code);
}
