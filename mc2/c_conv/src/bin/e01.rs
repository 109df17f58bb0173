//! Named files: what is stored under a path is what is read from it, and no path leads out of the directory.
use c_core::Scratch;
use kit::*;
use linkspace_common::eval::lk_scope;
use linkspace_common::runtime::Linkspace;
use std::collections::BTreeMap;
use std::path::Path;

/// the rights of this thread to files, while it lives, are those of nobody: what gets out reaches nothing
struct Nobody;
impl Nobody {
    fn new() -> Nobody {
        unsafe {
            libc::setfsgid(65534);
            libc::setfsuid(65534);
        }
        Nobody
    }
}
impl Drop for Nobody {
    fn drop(&mut self) {
        unsafe {
            libc::setfsuid(0);
            libc::setfsgid(0);
        }
    }
}
fn can_be_nobody() -> bool {
    let _n = Nobody::new();
    // what it is now
    unsafe { libc::setfsuid(u32::MAX) == 65534 }
}
#[derive(Clone, Debug, PartialEq)]
enum Node {
    File(Vec<u8>),
    Dir,
}
#[derive(Clone, Debug)]
enum Op {
    Set(String, &'static [u8], bool),
    Get(String, bool),
    Eval(String),
}
type Tree = BTreeMap<Vec<String>, Node>;
/// the names on the way, or None if it is refused; whether it can only be a directory
fn path_of(p: &str) -> Option<(Vec<String>, bool)> {
    if p.starts_with('/') {
        return None;
    }
    let mut v = vec![];
    for (i, c) in p.split('/').enumerate() {
        match c {
            // said twice, or of no effect
            "" => (),
            "." if i > 0 => (),
            "." | ".." => return None,
            c => v.push(c.to_string()),
        }
    }
    Some((v, p.is_empty() || p.ends_with('/') || p.ends_with("/.")))
}
fn valid(v: &[String]) -> bool {
    v.iter().all(|c| c.len() < 256 && !c.contains('\0'))
}
/// something on the way is a file
fn blocked(t: &Tree, v: &[String]) -> bool {
    (1..v.len()).any(|n| matches!(t.get(&v[..n]), Some(Node::File(_))))
}
fn set(t: &mut Tree, p: &str, b: &[u8], over: bool) -> bool {
    let Some((v, dir)) = path_of(p) else { return false };
    let there = match t.get(&v) {
        Some(Node::Dir) => true,
        Some(_) => !over,
        None => false,
    };
    if dir || !valid(&v) || blocked(t, &v) || there {
        return false;
    }
    (1..v.len()).for_each(|n| drop(t.insert(v[..n].to_vec(), Node::Dir)));
    t.insert(v, Node::File(b.to_vec()));
    true
}
/// contents, not there, or an error
fn get(t: &Tree, p: &str) -> Result<Option<Vec<u8>>, ()> {
    let (v, dir) = path_of(p).ok_or(())?;
    if p.contains('\0') || blocked(t, &v) {
        return Err(());
    }
    match t.get(&v) {
        _ if v.is_empty() => Err(()),
        Some(Node::File(_)) if dir => Err(()),
        Some(Node::File(b)) => Ok(Some(b.clone())),
        Some(Node::Dir) => Err(()),
        None => Ok(None),
    }
}
fn scan(dir: &Path, at: &[String], t: &mut Tree) {
    for e in std::fs::read_dir(dir).into_iter().flatten() {
        let e = e.unwrap();
        let k = [at, &[e.file_name().into_string().unwrap()]].concat();
        if e.path().is_dir() {
            t.insert(k.clone(), Node::Dir);
            scan(&e.path(), &k, t)
        } else {
            t.insert(k, Node::File(std::fs::read(e.path()).unwrap()));
        }
    }
}
struct Place {
    _dir: Scratch,
    lk: Linkspace,
    root: std::path::PathBuf,
    outside: Tree,
}
impl Place {
    fn new() -> Place {
        let dir = Scratch::new();
        // as many directories as the longest path can lead up
        let up = dir.0.join("u");
        let base = up.join("u/a");
        std::fs::create_dir_all(&base).unwrap();
        let up = up.join("u");
        for (n, d) in [("secret", &up), ("secret", &base), ("b", &base)] {
            std::fs::write(d.join(n), n).unwrap();
        }
        let env = dir.open_in("u/u/a").unwrap();
        for p in [&dir.0, &dir.0.join("u"), &up, &base, &up.join("secret"), &base.join("secret"), &base.join("b")] {
            std::os::unix::fs::chown(p, Some(65534), Some(65534)).unwrap();
        }
        let lk: Linkspace = Linkspace::new_opt_rt(env, Default::default()).into();
        let mut p = Place { root: base.join("files"), _dir: dir, lk, outside: Tree::new() };
        p.outside = p.around();
        p
    }
    /// everything beside the directory
    fn around(&self) -> Tree {
        let mut t = Tree::new();
        scan(&self._dir.0, &[], &mut t);
        t.retain(|k, _| !(k.len() > 3 && k[3] == "files") && k.last().unwrap() != "lock.mdb" && k.last().unwrap() != "data.mdb");
        t
    }
    fn clear(&self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
    fn play(&self, ops: &[Op]) -> CaseResult {
        self.clear();
        let mut t = Tree::new();
        let mut any = false;
        for (n, o) in ops.iter().enumerate() {
            // absolute paths to what lies beside
            let abs = |p: &str| p.replace("/@", self._dir.0.join("u/u").to_str().unwrap());
            let failed = {
                let _n = Nobody::new();
                match o {
                    Op::Set(p, b, over) => {
                        let got = no_panic(|| self.lk.set_files_data(abs(p).as_ref(), b, *over).is_ok());
                        let want = set(&mut t, p, b, *over);
                        any |= want;
                        (got != Ok(want)).then(|| format!("{got:?} instead of {want}"))
                    }
                    Op::Get(p, strict) => {
                        let got = no_panic(|| self.lk.files_data(abs(p).as_ref(), *strict).map_err(|_| ()));
                        let want = match get(&t, p) {
                            Ok(None) if *strict => Err(()),
                            w => w,
                        };
                        any |= matches!(want, Ok(Some(_)));
                        // whether a name that can not be is an error or not there
                        let either = abs(p).split('/').any(|c| c.len() > 255) && got == Ok(Err(()));
                        (!either && got != Ok(want.clone())).then(|| format!("{got:?} instead of {want:?}"))
                    }
                    Op::Eval(p) => {
                        let lk = &self.lk;
                        let rt = || Ok(lk.clone());
                        let hex: String = abs(p).bytes().map(|b| format!("\\x{b:02x}")).collect();
                        let got = no_panic(|| {
                            let e = abe::parse_abe_strict_b(format!("[files:{hex}]").as_bytes()).unwrap();
                            abe::eval::eval(&lk_scope(&rt, false), &e).map(|v| v.concat()).map_err(|_| ())
                        });
                        let want = get(&t, p).and_then(|v| v.ok_or(()));
                        (got != Ok(want.clone())).then(|| format!("{got:?} instead of {want:?}"))
                    }
                }
            };
            if let Some(f) = failed {
                return bad("result", format!("operation {n}: {f}"));
            }
            let mut real = Tree::new();
            scan(&self.root, &[], &mut real);
            // directories on the way to a file that could not be stored may have been made
            if let Op::Set(p, ..) = o {
                for (k, v) in real.iter().filter(|(_, v)| **v == Node::Dir) {
                    if !t.contains_key(k) && path_of(p).is_some_and(|(p, _)| p.starts_with(k)) {
                        t.insert(k.clone(), v.clone());
                    }
                }
            }
            if real != t {
                return bad("files", format!("after operation {n} there are {real:?} instead of {t:?}"));
            }
            if self.around() != self.outside {
                return bad("outside", format!("operation {n} changed something outside: {:?}", self.around()));
            }
        }
        Ok(any)
    }
}
thread_local! { static PLACE: Place = Place::new(); }
fn main() {
    kit::main("E01", "model_checking", |cx| {
        cx.rule("a tree of directories and files: storing makes the directories on the way and the file, over an existing one only if asked to; reading gives what was stored last, nothing (or an error if asked for) if there is none; a path with a part that leads up, to itself at the start, or to the root is refused; nothing beside the directory is touched or read");
        cx.assume("nobody else puts links into the directory; each operation runs with the rights of nobody so that a path that leads out reaches nothing");
        let long = "l".repeat(256);
        let fits = "f".repeat(255);
        let names = ["a", "b", "..", ".", "", &long, &fits, "a\0b", "\\", "..."];
        let mut paths: Vec<String> = vec!["/@/secret".into(), "/@/a/secret".into(), "/@/a/files/a".into(), "/@/a/files".into(), "/".into(), "/a".into(), "//a".into(), "../../secret".into()];
        for n in 1..=cx.pick(3, 4) {
            paths.extend((0..(names.len() as u64).pow(n)).map(|i| nth_digits(names.len(), n as usize, i).into_iter().map(|i| names[i]).collect::<Vec<_>>().join("/")));
        }
        // names that are too long only at the end: how far the way there is made is not specified
        paths.retain(|p| !p.is_empty() && !p.split('/').rev().skip(1).any(|c| c.len() > 255) && p.len() < 900);
        let base: Vec<Vec<Op>> = vec![
            vec![],
            vec![Op::Set("a".into(), b"1", true)],
            vec![Op::Set("a/b".into(), b"12", true), Op::Set("b".into(), b"", true)],
            vec![Op::Set("a/a/a".into(), b"123", false), Op::Set("b/a".into(), b"x", false)],
        ];
        if !can_be_nobody() {
            paths.retain(|p| !p.starts_with('/') || p.starts_with("/@"))
        }
        cx.bound("paths", paths.len());
        let go = |ops: &[Op]| {
            cx.states(ops.len() as u64);
            cx.transitions(ops.len() as u64);
            cx.traces(1);
            cx.case_k(b"", &|| format!("{ops:?}").replace(&long, "LONG").replace(&fits, "FITS"), || PLACE.with(|p| p.play(ops)))
        };
        cx.section("every path", || {
            cx.par(paths.len() as u64, |i| {
                let p = &paths[i as usize];
                for b in &base {
                    for o in [Op::Get(p.clone(), false), Op::Get(p.clone(), true), Op::Eval(p.clone()), Op::Set(p.clone(), b"new", true), Op::Set(p.clone(), b"n", false)] {
                        let mut ops = b.clone();
                        ops.extend([o, Op::Get(p.clone(), false)]);
                        go(&ops);
                    }
                }
            })
        });
        let mut ops = vec![];
        for p in ["a", "a/b", "a/b/c", "b", "a//b", "a/..", "../b"] {
            ops.extend([Op::Set(p.into(), b"first", true), Op::Set(p.into(), b"2", false), Op::Set(p.into(), b"", true), Op::Get(p.into(), false)]);
        }
        let n = cx.pick(3, 4);
        cx.bound("histories", format!("{} operations, {n} in a row", ops.len()));
        cx.section("histories", || {
            cx.par((ops.len() as u64).pow(n), |i| {
                let l: Vec<Op> = nth_digits(ops.len(), n as usize, i).into_iter().map(|d| ops[d].clone()).collect();
                go(&l)
            })
        });
    })
}
