use crate::Level;
use crate::ctx::Ctx;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c26b;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod clikit;
pub mod ftpkit;
pub mod dngcmp;

pub struct Check {
  pub id: &'static str,
  pub level: fn() -> Level,
  pub run: fn(&Ctx),
}

pub fn table() -> Vec<Check> {
  vec![
    Check { id: "C01", level: c01::level, run: c01::run },
    Check { id: "C02", level: c02::level, run: c02::run },
    Check { id: "C03", level: c03::level, run: c03::run },
    Check { id: "C04", level: c04::level, run: c04::run },
    Check { id: "C05", level: c05::level, run: c05::run },
    Check { id: "C06", level: c06::level, run: c06::run },
    Check { id: "C07", level: c07::level, run: c07::run },
    Check { id: "C08", level: c08::level, run: c08::run },
    Check { id: "C09", level: c09::level, run: c09::run },
    Check { id: "C10", level: c10::level, run: c10::run },
    Check { id: "C11", level: c11::level, run: c11::run },
    Check { id: "C12", level: c12::level, run: c12::run },
    Check { id: "C13", level: c13::level, run: c13::run },
    Check { id: "C14", level: c14::level, run: c14::run },
    Check { id: "C17", level: c17::level, run: c17::run },
    Check { id: "C18", level: c18::level, run: c18::run },
    Check { id: "C19", level: c19::level, run: c19::run },
    Check { id: "C15", level: c15::level, run: c15::run },
    Check { id: "C16", level: c16::level, run: c16::run },
    Check { id: "C20", level: c20::level, run: c20::run },
    Check { id: "C21", level: c21::level, run: c21::run },
    Check { id: "C22", level: c22::level, run: c22::run },
    Check { id: "C23", level: c23::level, run: c23::run },
    Check { id: "C24", level: c24::level, run: c24::run },
    Check { id: "C25", level: c25::level, run: c25::run },
    Check { id: "C26", level: c26::level, run: c26::run },
    Check { id: "C27", level: c27::level, run: c27::run },
    Check { id: "C28", level: c28::level, run: c28::run },
    Check { id: "C29", level: c29::level, run: c29::run },
    Check { id: "C30", level: c30::level, run: c30::run },
  ]
}

/// Development helpers: `mc helper dng <path> <w> <h> <seed>` writes a reference-built DNG.
pub fn helper(args: &[String]) {
  use crate::fix::*;
  if args[0] == "drop" {
    return c24::drop_and_exec(&args[1..]);
  }
  if args[0] == "ftpd" {
    return ftpkit::child(&args[1..]);
  }
  if args[0] == "dng" {
    let n = |i: usize| args[i].parse::<usize>().unwrap();
    let spec = Spec::new(n(2), n(3), Kind::Cfa("RGGB".into()), 14, n(4) as u64);
    std::fs::write(&args[1], dng_file(&spec, &Layout::default())).unwrap();
  }
}
