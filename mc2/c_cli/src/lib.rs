//! Commands write to the output of their process: a check runs itself again, with some of its cases, and reads what each says.
use std::io::Write;
use std::ops::Range;
use std::process::{Command, Stdio};

const VAR: &str = "LKMC_PART";
fn line(what: &str, i: usize) -> String {
    format!("\n<<<lkmc {what} {i}>>>\n")
}
/// what follows belongs to this part of this case
pub fn mark(what: &str, i: usize) {
    let (mut o, mut e) = (std::io::stdout(), std::io::stderr());
    o.write_all(line(what, i).as_bytes()).unwrap();
    o.flush().unwrap();
    e.write_all(line(what, i).as_bytes()).unwrap();
}
pub fn say(b: &[u8]) {
    std::io::stdout().write_all(b).unwrap()
}
/// in a process that was asked for some cases: each of them, in a thread
pub fn serve(case: impl Fn(usize, &dyn Fn(&str), usize) + Sync) -> bool {
    let Ok(v) = std::env::var(VAR) else { return false };
    std::env::remove_var(VAR);
    let n: Vec<usize> = v.split(' ').map(|v| v.parse().unwrap()).collect();
    for i in n[1]..n[2] {
        std::thread::scope(|s| {
            s.spawn(|| case(n[0], &|w| mark(w, i), i));
        });
    }
    mark("done", n[2]);
    true
}
pub struct Told(Vec<u8>, Vec<u8>, String);
/// the cases of a section
pub fn ask(section: usize, r: Range<usize>) -> Told {
    let out = Command::new(std::env::current_exe().unwrap()).env(VAR, format!("{section} {} {}", r.start, r.end)).stdin(Stdio::null()).output().unwrap();
    let last = String::from_utf8_lossy(&out.stderr).chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect::<String>();
    Told(out.stdout, out.stderr, format!("the process ended with {}: {last}", out.status))
}
fn part<'a>(all: &'a [u8], what: &str, i: usize) -> Option<&'a [u8]> {
    let find = |h: &[u8], n: &[u8]| h.windows(n.len()).position(|w| w == n);
    let l = line(what, i);
    let from = find(all, l.as_bytes())? + l.len();
    let len = find(&all[from..], b"\n<<<lkmc ")?;
    Some(&all[from..from + len])
}
impl Told {
    pub fn out(&self, what: &str, i: usize) -> Result<&[u8], kit::Bad> {
        part(&self.0, what, i).ok_or_else(|| kit::Bad { key: "ended".into(), msg: self.2.clone() })
    }
    pub fn err(&self, what: &str, i: usize) -> Result<&[u8], kit::Bad> {
        part(&self.1, what, i).ok_or_else(|| kit::Bad { key: "ended".into(), msg: self.2.clone() })
    }
}
