//! C23: the command line program.
use super::common::*;
use crate::mon::*;
use crate::run::*;
use ruruby_parse::Loc;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn c23() -> Check {
    Check {
        id: "C23",
        rule: "the built program, run as a process on generated, changed and random texts through -e and through files, and on no, missing and unreadable files, writes exactly the library's tree and rendering, \
               or the library's error on standard error, and exits accordingly",
        modes: vec![
            Mode { name: "exec", quick: 10_000, thorough: 200_000, f: exec },
            Mode { name: "file", quick: 10_000, thorough: 200_000, f: file },
            Mode { name: "none", quick: 40, thorough: 200, f: none },
            Mode { name: "unreadable", quick: 200, thorough: 2_000, f: unreadable },
        ],
        assumptions: &["a text which starts with a hyphen is given attached to -e", "the exit status for an unreadable file is not judged"],
        must: &["exec:tree", "exec:error", "exec:eof", "file:tree", "file:error", "file:eof", "file:relative", "file:link", "file:args", "exec:verbose", "file:verbose", "none", "unreadable:missing", "unreadable:utf8", "unreadable:directory", "exec:attached", "exec:multiline"],
    }
}

fn program_path() -> PathBuf {
    std::env::var_os("VMON_CLI").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif/cli-target/debug/ruruby-parse"))
}

struct Ran {
    out: String,
    err: String,
    code: Option<i32>,
}

fn run(args: &[&str], cwd: &Path) -> Result<Ran, String> {
    let o = Command::new(program_path()).args(args).current_dir(cwd).env_remove("RUST_BACKTRACE").env_remove("CLICOLOR_FORCE").stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    Ok(Ran { out: String::from_utf8_lossy(&o.stdout).to_string(), err: String::from_utf8_lossy(&o.stderr).to_string(), code: o.status.code() })
}

/// What the library makes of the text, as the program is to print it.
enum Want {
    Tree(String),
    Error(String),
}

fn want(c: &mut Case, src: &str, kind: &str) -> Option<Want> {
    match c.parse_as(&Entry::Program, src, "") {
        Obs::Ok(r) => {
            c.hit(format!("{}:tree", kind));
            Some(Want::Tree(format!("{:#?}\n{}\n", r.node, r.source_info.get_location(&Loc(0, 0)))))
        }
        Obs::Err(e) => {
            c.hit(format!("{}:error", kind));
            if e.kind == ruruby_parse::ParseErrKind::UnexpectedEOF {
                c.hit(format!("{}:eof", kind));
            }
            Some(Want::Error(format!("{:?}\n{}", e.kind, e.source_info.get_location(&e.loc))))
        }
        Obs::Panic(_) => {
            c.hit("panic");
            None
        }
    }
}

fn compare(c: &mut Case, desc: &str, src: &str, w: &Want, r: &Ran, verbose: bool) -> bool {
    let mut out = r.out.as_str();
    let mut bad = None;
    if verbose {
        match out.split_once('\n') {
            Some((v, rest)) if v.starts_with("ruruby-parse ") && v["ruruby-parse ".len()..].split('.').count() == 3 => out = rest,
            _ => bad = Some("the version is not printed".to_string()),
        }
    }
    match w {
        _ if bad.is_some() => {}
        Want::Tree(t) => {
            if r.code != Some(0) {
                bad = Some(format!("exit status {:?} for an accepted text; standard error: {}", r.code, clip_str(&r.err, 400)));
            } else if out != t {
                let k = out.bytes().zip(t.bytes()).take_while(|(a, b)| a == b).count();
                bad = Some(format!("the output differs from the library's at byte {}: {:?}, expected {:?}", k, clip_str(&String::from_utf8_lossy(&out.as_bytes()[k.saturating_sub(40)..]), 200), clip_str(&String::from_utf8_lossy(&t.as_bytes()[k.saturating_sub(40)..]), 200)));
            } else if !r.err.is_empty() {
                bad = Some(format!("standard error is not empty: {:?}", clip_str(&r.err, 300)));
            }
        }
        Want::Error(e) => {
            if r.code == Some(0) || r.code.is_none() {
                bad = Some(format!("exit status {:?} for a rejected text; output {:?}", r.code, clip_str(out, 200)));
            } else if !out.is_empty() {
                bad = Some(format!("output for a rejected text: {:?}", clip_str(out, 300)));
            } else if !r.err.contains(e.as_str()) {
                bad = Some(format!("standard error is {:?}, which lacks the library's {:?}", clip_str(&r.err, 600), clip_str(e, 400)));
            }
        }
    }
    if let Some(b) = bad {
        c.fail_desc(desc, src, b);
        return false;
    }
    true
}

fn some_text(c: &mut Case) -> Option<String> {
    let s = match c.rng.below(10) {
        0 => c.rng.s(&["", "\n", "1", "a = 1; a", "'é' \"日本\"", "if", "foo(", "1 +", "1 2", ")", "a\nb\n", "__FILE__", "__LINE__", "# c", "\"a\\n\"", "'", "def f; end\n1 2\n", "x=1;y=x", "é = 1\n)", "[1,\n2,\n)"]).to_string(),
        _ => any_text(c),
    };
    // The library is asked here, where the terminal may be another one.
    if console::Term::stdout().is_term() && s.lines().any(|l| l.len() > 70) {
        return None;
    }
    Some(s)
}

fn exec(c: &mut Case) {
    let Some(src) = some_text(c) else { return };
    if src.contains('\0') {
        return;
    }
    let Some(w) = want(c, &src, "exec") else { return };
    c.nontrivial(&src);
    if src.contains('\n') {
        c.hit("exec:multiline");
    }
    let verbose = c.rng.p(1, 8);
    let attached = format!("-e{}", src);
    let mut args: Vec<&str> = vec![];
    if verbose {
        c.hit("exec:verbose");
        args.push("-v");
    }
    if src.starts_with('-') || (!src.is_empty() && !src.starts_with('=') && c.rng.p(1, 6)) {
        c.hit("exec:attached");
        args.push(&attached);
    } else {
        args.extend(["-e", &src]);
    }
    match run(&args, Path::new("/")) {
        Ok(r) => {
            let desc = format!("ruruby-parse {:?}", args);
            compare(c, &desc, &src, &w, &r, verbose);
        }
        Err(e) => c.inconclusive(e),
    }
}

fn scratch(c: &Case) -> Result<Scratch, String> {
    let d = std::env::temp_dir().join(format!("vmon-cli-{}-{}-{}", std::process::id(), c.mode, c.idx));
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    Ok(Scratch(d))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const FILES: &[&str] = &["x.rb", "a b.rb", "é日.rb", "noext", "x.txt", "-.rb", "a'b\".rb", "#x.rb", "%s.rb"];

fn file(c: &mut Case) {
    let Some(src) = some_text(c) else { return };
    let Some(w) = want(c, &src, "file") else { return };
    c.nontrivial(&src);
    let d = match scratch(c) {
        Ok(d) => d,
        Err(e) => return c.inconclusive(e),
    };
    let name = c.rng.s(FILES);
    let p = d.0.join(name);
    let made = (|| -> std::io::Result<String> {
        std::fs::write(&p, &src)?;
        Ok(match c.rng.below(4) {
            0 => {
                c.hit("file:relative");
                format!("./{}", name)
            }
            1 => {
                c.hit("file:link");
                let l = d.0.join("link");
                std::os::unix::fs::symlink(&p, &l)?;
                l.to_string_lossy().to_string()
            }
            _ => p.to_string_lossy().to_string(),
        })
    })();
    let arg = match made {
        Ok(a) => a,
        Err(e) => return c.inconclusive(e.to_string()),
    };
    let verbose = c.rng.p(1, 8);
    let mut args: Vec<&str> = vec![];
    if verbose {
        c.hit("file:verbose");
        args.push("-v");
    }
    args.push(&arg);
    if c.rng.p(1, 4) {
        c.hit("file:args");
        args.extend(["x", "y"]);
    }
    match run(&args, &d.0) {
        Ok(r) => {
            let desc = format!("ruruby-parse {:?} with the text in the file", args);
            if compare(c, &desc, &src, &w, &r, verbose) && std::fs::read(&p).ok().as_deref() != Some(src.as_bytes()) {
                c.fail_desc(&desc, &src, "the file was changed");
            }
        }
        Err(e) => c.inconclusive(e),
    }
}

fn none(c: &mut Case) {
    const SAMPLE: &str = "a=3; if a==3 then 0 else 1 end";
    c.hit("none");
    c.nontrivial(SAMPLE);
    let Some(w) = want(c, SAMPLE, "none") else { return };
    let verbose = c.rng.coin();
    match run(if verbose { &["-v"] } else { &[] }, Path::new("/")) {
        Ok(r) => {
            compare(c, "ruruby-parse without arguments", SAMPLE, &w, &r, verbose);
        }
        Err(e) => c.inconclusive(e),
    }
}

fn unreadable(c: &mut Case) {
    let d = match scratch(c) {
        Ok(d) => d,
        Err(e) => return c.inconclusive(e),
    };
    let name = c.rng.s(FILES);
    let p = d.0.join(name);
    let what = c.rng.s(&["missing", "utf8", "directory", "dangling", "below-file"]);
    let made = match what {
        "utf8" => {
            let mut b = program(c, &[4, 10], 2, &[0]).0.into_bytes();
            let i = c.rng.below(b.len() + 1);
            b.insert(i, *c.rng.pick(&[0xff, 0x80, 0xc3, 0xf5]));
            if std::str::from_utf8(&b).is_ok() {
                return;
            }
            std::fs::write(&p, b)
        }
        "directory" => std::fs::create_dir(&p),
        "dangling" => std::os::unix::fs::symlink(d.0.join("nowhere"), &p),
        _ => Ok(()),
    };
    if let Err(e) = made {
        return c.inconclusive(e.to_string());
    }
    let mut arg = p.to_string_lossy().to_string();
    if what == "below-file" {
        let _ = std::fs::write(&p, "1");
        arg += "/x.rb";
    }
    c.hit(format!("unreadable:{}", what));
    c.nontrivial(&format!("{} {}", what, name));
    match run(&[&arg], &d.0) {
        Ok(r) => {
            let bad = if !r.out.is_empty() {
                Some(format!("output {:?}", clip_str(&r.out, 300)))
            } else if !r.err.contains(&arg) {
                Some(format!("standard error {:?} does not name the file", clip_str(&r.err, 300)))
            } else if r.code.is_none() {
                Some("died of a signal".to_string())
            } else {
                None
            };
            if let Some(b) = bad {
                c.fail_desc(&format!("ruruby-parse with a file which cannot be read ({})", what), &arg, b);
            }
        }
        Err(e) => c.inconclusive(e),
    }
}
