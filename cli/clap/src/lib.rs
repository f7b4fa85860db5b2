//! Stand-in for clap 3 beta's derive interface: `-x VALUE`, `--long VALUE`, `--long=VALUE`,
//! defaults and subcommands, which is what the library's command line bindings use.
pub use clap_derive::Clap;

pub trait Clap: Sized {
    fn from_list(args: &[String]) -> Result<Self, String>;
    /// argv[1] chooses the binding, the rest is its command line
    fn parse() -> Self {
        let args: Vec<String> = std::env::args().skip(2).collect();
        match Self::from_list(&args) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("error: {}", e);
                std::process::exit(64)
            }
        }
    }
}

/// value of an option; `known` are all the names the command takes
pub fn value(args: &[String], short: Option<&str>, long: Option<&str>) -> Result<Option<String>, String> {
    let mut found = None;
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        let hit = |n: Option<&str>, dash: &str| n.map(|n| format!("{}{}", dash, n));
        let (s, l) = (hit(short, "-"), hit(long, "--"));
        if Some(a) == s.as_ref() || Some(a) == l.as_ref() {
            let v = args.get(i + 1).ok_or(format!("{} needs a value", a))?;
            if found.replace(v.clone()).is_some() {
                return Err(format!("{} given twice", a));
            }
            i += 1;
        } else if let Some(l) = &l {
            if let Some(v) = a.strip_prefix(&format!("{}=", l)) {
                if found.replace(v.to_string()).is_some() {
                    return Err(format!("{} given twice", a));
                }
            }
        }
        i += 1;
    }
    Ok(found)
}

pub fn check(args: &[String], names: &[String]) -> Result<(), String> {
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        if names.contains(a) {
            i += 2;
        } else if a.starts_with("--") && names.iter().any(|n| a.starts_with(&format!("{}=", n))) {
            i += 1;
        } else {
            return Err(format!("unexpected argument {}", a));
        }
    }
    for (i, n) in names.iter().enumerate() {
        if names[..i].contains(n) {
            return Err(format!("{} names two options", n));
        }
    }
    Ok(())
}
