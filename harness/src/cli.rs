//! Runs the command-line tools built from /repo in a scratch directory
use crate::Ctx;
use std::io::Read;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub ok: bool,
    pub stdout: String,
    pub stderr: String,
}

pub fn run(c: &Ctx, tool: &str, args: &[String], dir: &Path) -> Result<Out, String> {
    let mut ch = Command::new(c.bin.join(tool))
        .args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot run {}: {}", tool, e))?;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let h2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st,
            _ => {
                if t.elapsed().as_secs() > 30 {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err(format!("{} {:?} did not end within 30 s", tool, args));
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        }
    };
    Ok(Out { ok: st.success(), stdout: h1.join().unwrap(), stderr: h2.join().unwrap() })
}

pub fn args(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|s| s.to_string()).collect()
}

/// Runs in the directory of the graph, or in another one with --path
pub fn place(r: &mut crate::util::Rng, mut a: Vec<String>, dir: &Path) -> (Vec<String>, std::path::PathBuf) {
    if r.chance(3, 4) {
        return (a, dir.to_path_buf());
    }
    let other = dir.join("elsewhere");
    std::fs::create_dir_all(&other).unwrap();
    let p = args(&[*r.pick(&["--path", "-p"]), if r.chance(1, 2) { dir.to_str().unwrap() } else { ".." }]);
    let k = if r.chance(1, 2) { a.len() } else { 0 };
    a.splice(k..k, p);
    (a, other)
}

/// Creates .graph/commands with the given content
pub fn put(dir: &Path, content: &str) {
    std::fs::create_dir_all(dir.join(".graph")).unwrap();
    std::fs::write(dir.join(".graph").join("commands"), content).unwrap();
}

pub fn get(dir: &Path) -> String {
    std::fs::read_to_string(dir.join(".graph").join("commands")).unwrap_or_default()
}
