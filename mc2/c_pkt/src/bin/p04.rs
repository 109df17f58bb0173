//! The text forms of a packet: field expressions, link lists, printed packets and html.
use byte_fmt::abe::{eval::eval, parse_abe, scope::basic_scope, TypedABE};
use c_pkt::*;
use kit::*;
use linkspace_pkt::{eval::pkt_scope, exprs::LinkExpr, repr::*, *};

fn run(p: &dyn NetPkt, e: &str) -> Result<Vec<u8>, String> {
    let x = parse_abe(e, false).map_err(|e| format!("parse: {e}"))?;
    let l = eval(&(basic_scope(), pkt_scope(p)), &x).map_err(|e| format!("eval: {e}"))?;
    Ok(l.concat())
}
fn plain(e: &str) -> Result<Vec<u8>, String> {
    let x = parse_abe(e, false).map_err(|e| format!("parse: {e}"))?;
    let l = eval(&basic_scope(), &x).map_err(|e| format!("eval: {e}"))?;
    l.into_exact_bytes().map_err(|_| "delimited".to_string())
}
fn space_of(e: &str) -> Result<Vec<Vec<u8>>, String> {
    let s: SpaceBuf = e.parse::<TypedABE<SpaceBuf>>().map_err(|e| format!("parse: {e}"))?.eval(&basic_scope()).map_err(|e| format!("eval: {e}"))?;
    Ok(s.iter().map(|c| c.to_vec()).collect())
}
fn known(e: &str) -> Result<Vec<u8>, String> {
    match e {
        "[#:0]" => Ok(vec![0; 32]),
        "[#:pub]" => Ok(PUBLIC.to_vec()),
        "[#:test]" => Ok(TEST_GROUP.to_vec()),
        e => plain(e),
    }
}
fn fit16(e: &str) -> Result<[u8; 16], String> {
    e.parse::<TypedABE<Domain>>().map_err(|e| e.to_string())?.eval(&basic_scope()).map_err(|e| e.to_string()).map(|d| d.0)
}
/// text inside and attributes of the tags, with entities resolved
fn html(h: &str) -> Result<Vec<(String, Vec<(String, String)>, String)>, String> {
    let mut out = vec![(String::new(), vec![], String::new())];
    let mut open: Vec<String> = vec![];
    let mut rest = h;
    while let Some(c) = rest.chars().next() {
        if c == '<' {
            let end = rest.find('>').ok_or("a tag that does not end")?;
            let tag = &rest[1..end];
            rest = &rest[end + 1..];
            if let Some(t) = tag.strip_prefix('/') {
                if open.pop().as_deref() != Some(t) {
                    return Err(format!("</{t}> closes another tag"));
                }
                out.push((format!("/{t}"), vec![], String::new()));
                continue;
            }
            let name_end = tag.find(|c: char| c.is_ascii_whitespace()).unwrap_or(tag.len());
            let name = &tag[..name_end];
            if !["div", "span", "ol", "li", "pre"].contains(&name) {
                return Err(format!("a <{name}> tag"));
            }
            let mut at = vec![];
            let mut a = tag[name_end..].trim_start();
            while !a.is_empty() {
                let eq = a.find("='").ok_or(format!("attribute {a}"))?;
                let close = a[eq + 2..].find('\'').ok_or(format!("attribute {a}"))?;
                if !a[..eq].chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
                    return Err(format!("attribute {a}"));
                }
                at.push((a[..eq].to_string(), a[eq + 2..eq + 2 + close].to_string()));
                a = a[eq + 3 + close..].trim_start();
            }
            open.push(name.to_string());
            out.push((name.to_string(), at, String::new()));
            continue;
        }
        let text = &mut out.last_mut().unwrap().2;
        if c == '&' {
            // &lt; and its like; without the semicolon the following letters could continue the name
            let (e, ch) = [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&#39;", '\''), ("&#x27;", '\'')]
                .into_iter()
                .find(|(e, _)| rest.starts_with(e))
                .ok_or(format!("text with an unfinished entity {:?}", rest.chars().take(6).collect::<String>()))?;
            text.push(ch);
            rest = &rest[e.len()..];
            continue;
        }
        text.push(c);
        rest = &rest[c.len_utf8()..];
    }
    if !open.is_empty() {
        return Err(format!("open tags {open:?}"));
    }
    Ok(out)
}
fn one(s: &Spec, all: bool) -> CaseResult {
    let rs = rspace_buf(&s.space.iter().map(|c| &c[..]).collect::<Vec<_>>());
    let links = s.link_vec();
    let key = (s.kind == 7).then(|| SigningKey::try_from([3; 32]).unwrap());
    let p = build(s, &rs, &links, key.as_ref()).map_err(|e| Bad::from(format!("refused: {e}")))?;
    let mut s = s.clone();
    s.signed = p.signed().map(|v| (v.pubkey.0, v.signature.0));
    let s = &s;
    let p: &dyn NetPkt = &p;
    for (name, want) in s.fields() {
        let got = run(p, &format!("[{name}]"));
        ensure!(got.as_ref() == Ok(&want), "[{name}] is {} and should be {}", got.map(|b| show_cut(&b)).unwrap_or_else(|e| e), show_cut(&want));
        if !all && name != "data" && !name.starts_with("comp") && name != "spacename" && name != "domain" {
            continue;
        }
        ensure!(run(p, &format!("[{name}:bytes]")).as_ref() == Ok(&want), "[{name}:bytes] differs from [{name}]");
        let abe = run(p, &format!("[{name}:abe]")).map_err(|e| Bad { key: format!("[{name}:abe]"), msg: format!("[{name}:abe] fails: {e}") })?;
        let abe = String::from_utf8(abe).map_err(|_| format!("[{name}:abe] is not text"))?;
        ensure!(abe == FieldEnum::try_from_name(name).unwrap().into_abe(p), "two expressions for {name}");
        match name {
            "spacename" | "rspacename" => ensure!(space_of(&abe).as_ref() == Ok(&s.space), "[{name}:abe] is {abe} which is the space {:?}", space_of(&abe)),
            _ => {
                let v = plain(&abe);
                ensure!(v.as_ref() == Ok(&want), "[{name}:abe] is {abe} which is {} and should be {}", v.map(|b| show_cut(&b)).unwrap_or_else(|e| e), show_cut(&want));
            }
        }
        let text = run(p, &format!("[{name}:str]")).map_err(|e| Bad { key: format!("[{name}:str]"), msg: format!("[{name}:str] fails: {e}") })?;
        ensure!(std::str::from_utf8(&text).is_ok(), "[{name}:str] is not text");
        ensure!(run(p, &format!("[{name}:other]")).is_err(), "[{name}:other] gives something");
    }
    // links
    let lines = run(p, "[links]").map_err(|e| format!("[links] fails: {e}"))?;
    let lines = String::from_utf8(lines).map_err(|_| "[links] is not text")?;
    let got: Vec<Link> = if lines.is_empty() { vec![] } else { lines.split('\n').map(|l| l.parse::<LinkExpr>().map_err(|e| format!("{l}: {e}"))?.eval(&basic_scope()).map_err(|e| format!("{l}: {e}"))).collect::<Result<_, String>>().map_err(|e| Bad { key: "link text".into(), msg: format!("a printed link is not a link: {e}") })? };
    ensure!(got == links, "the printed links are other links: {lines}");
    ensure!(run(p, "[/links:[ptr]]") == Ok(links.iter().flat_map(|l| l.ptr.0).collect()), "[/links:[ptr]]");
    ensure!(run(p, "[/links:[tag]]") == Ok(links.iter().flat_map(|l| l.tag.0).collect()), "[/links:[tag]]");
    ensure!(run(p, "[/links:[i]]") == Ok((0..links.len() as u16).flat_map(|i| i.to_be_bytes()).collect()), "[/links:[i]]");
    for e in ["ptr", "tag", "i"] {
        for f in ["str", "abe"] {
            let r = run(p, &format!("[/links:[{e}:{f}]]"));
            ensure!(r.as_ref().map(|r| std::str::from_utf8(r).is_ok()) == Ok(true), "[/links:[{e}:{f}]] is {r:?}");
        }
    }
    for (i, l) in links.iter().enumerate() {
        for n in 0..=16 {
            let tail = &l.tag.0[16 - n..];
            let want = links.iter().find(|l| l.tag.0.ends_with(tail)).unwrap().ptr.0.to_vec();
            let e = format!("[link:{}]", AB(tail.to_vec()));
            ensure!(run(p, &e).as_ref() == Ok(&want), "{e} for link {i} is {:?}", run(p, &e));
        }
    }
    ensure!(run(p, "[link:no-such-tag-here]").is_err() && run(p, "[link:a-name-of-17-byte]").is_err(), "a link that is not there");
    // printed
    let default = eval::pkt_fmt(p);
    ensure!(default == eval::netpkt_fmt(p) && default == eval::point_fmt(p), "formats differ");
    for n in ["pkt", "netpkt", "point"] {
        ensure!(run(p, &format!("[{n}]")).as_deref() == Ok(default.as_bytes()), "[{n}] differs from the default format");
    }
    let quick = PktFmt(p).to_string();
    ensure!(run(p, "[pkt-quick]").as_deref() == Ok(quick.as_bytes()), "[pkt-quick]");
    ensure!(run(p, "[netbytes]").as_ref() == Ok(&s.bytes()), "[netbytes]");
    let lossy = String::from_utf8_lossy(&s.data).into_owned();
    for (form, text) in [("default", &default), ("quick", &quick)] {
        let mut it = text.split_inclusive('\n').enumerate().filter(|(i, l)| *i != s.links.len() + 8 || *l != "\n" || form == "quick").map(|v| v.1);
        let mut field = |name: &str| -> Result<String, String> {
            let l = it.next().ok_or(format!("{form} has no line {name}"))?.strip_suffix('\n').ok_or("unfinished line")?;
            let (a, b) = l.split_once('\t').ok_or(format!("{form}: line {l:?}"))?;
            if a != name {
                return Err(format!("{form}: line {l:?} instead of {name}"));
            }
            Ok(b.to_string())
        };
        ensure!(field("type")? == match s.kind { 1 => "DataPoint", 3 => "LinkPoint", 7 => "KeyPoint", _ => "ErrorPoint" }, "type");
        ensure!(field("hash")?.parse::<LkHash>().map_err(|e| e.to_string())?.0 == s.hash(), "{form}: hash");
        let g = field("group")?;
        ensure!(known(&g).as_deref() == Ok(&s.group), "{form}: group {g}");
        let d = field("domain")?;
        ensure!(fit16(&d) == Ok(s.domain), "{form}: domain {d} is {:?}", fit16(&d));
        let sp = field("space")?;
        ensure!(space_of(&sp).as_ref() == Ok(&s.space), "{form}: space {sp} is {:?}", space_of(&sp));
        let k = field("pubkey")?;
        ensure!(known(&k).as_deref() == Ok(&s.key_bytes()), "{form}: pubkey {k}");
        ensure!(field("create")? == s.stamp.to_string(), "{form}: create");
        ensure!(field("links")? == s.links.len().to_string(), "{form}: links");
        for (t, h) in &s.links {
            let l = field("")?;
            let (a, b) = l.rsplit_once(' ').ok_or("a link line")?;
            ensure!(fit16(a) == Ok(*t), "{form}: link line {l:?} has tag {:?}", fit16(a));
            ensure!(b.parse::<LkHash>().ok().map(|b| b.0) == Some(*h), "{form}: link line {l:?}");
        }
        ensure!(field("data")? == s.data.len().to_string(), "{form}: data");
        let rest: String = it.collect();
        let want = lossy.clone() + if form == "default" { "\n" } else { "" };
        ensure!(rest == want, "{form}: data printed as {rest:?}");
    }
    let mut cut = String::new();
    PktFmt(p).to_str(&mut cut, true, 1).map_err(|e| e.to_string())?;
    ensure!(cut.starts_with("recv\t???\n") && cut["recv\t???\n".len()..] == quick[..quick.len() - lossy.len()].to_string() + &String::from_utf8_lossy(&s.data[..s.data.len().min(1)]), "limited to one byte: {cut:?}");
    let _ = format!("{:?} {}", PktFmtDebug(p), PktFmtDebug(p));
    // html
    for with_data in [true, false] {
        let mut h = String::new();
        PktFmt(p).to_html(&mut h, with_data, None).map_err(|e| e.to_string())?;
        let t = html(&h).map_err(|e| Bad { key: "html".into(), msg: format!("{e} in {h}") })?;
        let count = |tag: &str| t.iter().filter(|x| x.0 == tag).count();
        let l = s.is_link();
        ensure!(count("pre") == with_data as usize && count("div") == 1 && count("ol") == if l { 2 } else { 0 } && count("li") == if l { s.space.len() + s.links.len() } else { 0 }, "html has other elements: {h}");
        let attr = |name: &str| t.iter().flat_map(|x| x.1.iter().map(move |a| (a, x))).filter(|(a, _)| a.0 == name).map(|(a, x)| (a.1.clone(), x.2.clone())).collect::<Vec<_>>();
        if with_data {
            ensure!(attr("lk-data") == [(s.data.len().to_string(), lossy.clone())], "html data reads {:?}", attr("lk-data"));
        }
        ensure!(attr("lk-point")[0].0.parse::<LkHash>().ok().map(|h| h.0) == Some(s.hash()), "html hash");
        if l {
            let (d64, d) = attr("lk-domain").remove(0);
            ensure!(plain(&format!("[b:{d64}]")).as_deref() == Ok(&s.domain) && fit16(&d) == Ok(s.domain), "html domain {d64} {d}");
            for (i, c) in s.space.iter().enumerate() {
                let (c64, txt) = attr(&format!("lk-space{i}")).remove(0);
                ensure!(plain(&format!("[b:{c64}]")).as_ref() == Ok(c) && plain(&txt).as_ref() == Ok(c), "html component {c64} {txt}");
            }
            for (i, (g, (t, _))) in attr("lk-tag").iter().zip(&s.links).enumerate() {
                ensure!(plain(&format!("[b:{}]", g.0)).as_deref() == Ok(t) && fit16(&g.1) == Ok(*t), "html tag {i} {g:?}");
            }
            ensure!(attr("lk-create") == [(s.stamp.to_string(), s.stamp.to_string())], "html stamp");
        }
    }
    Ok(true)
}
fn main() {
    kit::main("P04", "model_checking", |cx| {
        cx.rule("every stated packet, with every text form of every field read back by the expression language and compared with what the packet says; non-trivial: the packet was built and all its forms compared");
        let alpha: Vec<&[u8]> = vec![b"&", b"<", b">", b";", b"lt", b"'", b"\"", b"\n", b"\t", b"\\", b"[", b"]", b"/", b":", b" ", b"\0", &[0xff], &[0x80], "é".as_bytes(), b"a"];
        let mk = |kind: u8| Spec { kind, ..data_spec(&[]) };
        let go = |s: Spec, all: bool| {
            cx.states(1);
            cx.transitions(if all { 220 } else { 120 });
            cx.traces(1);
            cx.case(s.describe().as_bytes(), || one(&s, all));
        };
        let right = |b: &[u8]| { let mut a = [0; 16]; a[16 - b.len()..].copy_from_slice(b); a };
        cx.section("names of fields", || {
            let mut seen = vec![];
            for f in FieldEnum::LIST {
                cx.case(f.info().name.as_bytes(), || {
                    let i = f.info();
                    ensure!(FieldEnum::try_from_name(i.name) == Some(f) && FieldEnum::try_from_id(i.name.as_bytes()) == Some(f) && FieldEnum::try_from_id(&[i.token]) == Some(f) && f as u8 == i.token, "the name or the letter of {f} finds another field");
                    ensure!(f.to_string() == i.name && i.name.parse::<FieldEnum>().ok() == Some(f), "text of {f}");
                    ensure!(FieldEnum::LIST.iter().filter(|g| g.info().name == i.name || g.info().token == i.token).count() == 1, "{f} is not the only one");
                    // the writable fields are exactly those of the network header, and apart from each other
                    let mut h = NetPktHeader::cfrom([0; 32]);
                    let var = VAR_FIELDS.contains(&f);
                    match f.mut_route(&mut h) {
                        None => ensure!(!var, "{f} is not writable"),
                        Some(b) => {
                            ensure!(var && Some(b.len()) == f.fixed_size(), "{f} is writable with {} bytes", b.len());
                            b.fill(0xa5);
                        }
                    }
                    let b = *h.as_bytes();
                    ensure!(b.iter().filter(|b| **b != 0).count() == if var { f.fixed_size().unwrap() } else { 0 }, "{f} wrote {b:?}");
                    let p = datapoint(b"x", h);
                    let mut v = vec![];
                    f.bytes(&p, &mut v).unwrap();
                    ensure!(!var || v == vec![0xa5; v.len()], "{f} reads {v:?} after it was written");
                    ensure!(f.fixed_size().is_none() || f.fixed_size() == Some(v.len()), "{f} has {} bytes", v.len());
                    Ok(var)
                });
                seen.push(f);
            }
            for b in 0..=255u8 {
                cx.case(&[b], || {
                    let r = FieldEnum::try_from_id(&[b]);
                    ensure!(r.map(|f| f.info().token) == FieldEnum::LIST.iter().find(|f| f.info().token == b).map(|_| b), "letter {b}");
                    Ok(r.is_some())
                });
            }
        });
        cx.section("every byte at every kind of place", || {
            cx.par(256, |b| {
                let b = b as u8;
                for at in [0, 1, 14, 15] {
                    let mut x = *b"\0\0domain-or-tag\0";
                    x[at] = b;
                    go(Spec { domain: x, links: vec![(*b"0123456789abcdef", [1; 32]), (x, [b; 32])], space: vec![vec![b], vec![b'a', b], vec![b; 16], vec![b; 32], vec![b; 33]], data: vec![b], stamp: b as u64, group: [b; 32], ..mk([3, 7][at & 1]) }, true);
                }
                go(Spec { data: vec![b'a', b], ..mk(1) }, true);
                go(Spec { data: vec![b; 3], ..mk(0x80) }, true);
                for at in 0..32 {
                    if b.count_ones() == 1 || cx.quick() == false {
                        let mut s = mk(3);
                        s.head[at] = b;
                        s.group[at] = b;
                        go(s, true);
                    }
                }
            });
        });
        cx.section("data", || {
            all_concats(cx, &alpha, cx.pick(3, 4), |c| go(Spec { data: c.to_vec(), ..mk(1) }, false));
        });
        cx.section("components", || {
            all_concats(cx, &alpha, cx.pick(2, 3), |c| {
                if c.is_empty() {
                    return;
                }
                let c = c.to_vec();
                let long = |n: usize| c.iter().copied().cycle().take(n).collect::<Vec<u8>>();
                go(Spec { space: vec![c.clone()], ..mk(3) }, false);
                go(Spec { space: vec![c.clone(), b"x".to_vec(), long(16), long(32)], ..mk(3) }, false);
                go(Spec { space: (0..8).map(|n| long(n + 10)).collect(), ..mk(7) }, false);
            });
        });
        cx.section("domains and tags", || {
            all_concats(cx, &alpha, cx.pick(2, 3), |c| {
                let mut left = [0; 16];
                left[..c.len()].copy_from_slice(c);
                let mut full = [b'f'; 16];
                full[5..5 + c.len()].copy_from_slice(c);
                for d in [right(c), left, full] {
                    go(Spec { domain: d, links: vec![(d, [7; 32]), (right(b"a"), [8; 32]), (d, [9; 32])], ..mk(3) }, false)
                }
            });
        });
        cx.section("groups and keys", || {
            for g in [[0; 32], PUBLIC.0, TEST_GROUP.0, [255; 32], *b"[x]:/\\\n\t&<>'\"0123456789abcdefghi"] {
                for kind in [3, 7] {
                    for st in [0, 1, u64::MAX, 1 << 63] {
                        go(Spec { group: g, stamp: st, links: vec![(right(b"g"), g)], ..mk(kind) }, true)
                    }
                }
            }
        });
    })
}
