//! Reads documents the way an HTML reader does, to see their structure.
//!
//! Tags, attributes in double quotes, text, character references. Elements nest as written (no
//! implied end tags), and no content is special by the name of its element.
use crate::ast::H;
use serde_json::{json, Value as Json};

#[derive(Debug, PartialEq)]
enum Node {
    El(String, Vec<(String, String)>, Vec<Node>),
    Text(String),
}

const VOID: [&str; 14] = crate::ast::VOID;

fn decode(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        let Some(e) = rest.find(';') else { break };
        let name = &rest[1..e];
        let c = match name {
            "amp" => Some('&'),
            "lt" => Some('<'),
            "gt" => Some('>'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            _ if name.starts_with("#x") || name.starts_with("#X") => u32::from_str_radix(&name[2..], 16).ok().and_then(char::from_u32),
            _ if name.starts_with('#') => name[1..].parse().ok().and_then(char::from_u32),
            _ => None,
        };
        match c {
            Some(c) => {
                o.push(c);
                rest = &rest[e + 1..];
            }
            None => {
                o.push('&');
                rest = &rest[1..];
            }
        }
    }
    o.push_str(rest);
    o
}

fn parse(s: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Node>)> = vec![];
    let mut top: Vec<Node> = vec![];
    let mut p = 0;
    let b = s.as_bytes();
    while p < s.len() {
        if b[p] != b'<' {
            let e = s[p..].find('<').map(|i| p + i).unwrap_or(s.len());
            let t = Node::Text(decode(&s[p..e]));
            stack.last_mut().map(|x| &mut x.2).unwrap_or(&mut top).push(t);
            p = e;
            continue;
        }
        if s[p..].starts_with("</") {
            let e = s[p..].find('>').ok_or("unfinished end tag")? + p;
            let name = s[p + 2..e].to_ascii_lowercase();
            let Some((n, a, k)) = stack.pop() else { return Err(format!("end tag {name} without a start tag")) };
            if n != name {
                return Err(format!("end tag {name} closes {n}"));
            }
            stack.last_mut().map(|x| &mut x.2).unwrap_or(&mut top).push(Node::El(n, a, k));
            p = e + 1;
            continue;
        }
        let rest = &s[p + 1..];
        if !rest.starts_with(|c: char| c.is_ascii_alphabetic()) {
            return Err(format!("markup that is no element at {:?}", rest.chars().take(20).collect::<String>()));
        }
        let n = rest.find(|c: char| c.is_ascii_whitespace() || c == '>' || c == '/').ok_or("unfinished tag")?;
        let tag = rest[..n].to_ascii_lowercase();
        p += 1 + n;
        let mut attrs = vec![];
        loop {
            while p < s.len() && (b[p].is_ascii_whitespace() || b[p] == b'/') {
                p += 1;
            }
            if p >= s.len() {
                return Err("unfinished tag".into());
            }
            if b[p] == b'>' {
                p += 1;
                break;
            }
            let from = p;
            // a reader takes anything up to these as the name
            p += 1;
            while p < s.len() && !b[p].is_ascii_whitespace() && !matches!(b[p], b'=' | b'>' | b'/') {
                p += 1;
            }
            let name = s[from..p].to_ascii_lowercase();
            let mut value = String::new();
            if p < s.len() && b[p] == b'=' {
                p += 1;
                match b.get(p) {
                    Some(q @ (b'"' | b'\'')) => {
                        let e = s[p + 1..].find(*q as char).ok_or("unfinished attribute value")? + p + 1;
                        value = decode(&s[p + 1..e]);
                        p = e + 1;
                    }
                    _ => {
                        let e = s[p..].find(|c: char| c.is_ascii_whitespace() || c == '>').ok_or("unfinished attribute value")? + p;
                        value = decode(&s[p..e]);
                        p = e;
                    }
                }
            }
            attrs.push((name, value));
        }
        if VOID.contains(&tag.as_str()) {
            stack.last_mut().map(|x| &mut x.2).unwrap_or(&mut top).push(Node::El(tag, attrs, vec![]));
        } else {
            stack.push((tag, attrs, vec![]));
        }
    }
    if let Some((n, ..)) = stack.pop() {
        return Err(format!("{n} is not closed"));
    }
    Ok(top)
}

fn to_json(ns: &[Node]) -> Json {
    let mut o: Vec<Json> = vec![];
    for n in ns {
        match n {
            Node::El(t, a, k) => o.push(json!([t, a.iter().map(|(n, v)| json!([n, v])).collect::<Vec<_>>(), to_json(k)])),
            Node::Text(t) => push_text(&mut o, t),
        }
    }
    Json::Array(o)
}

fn push_text(o: &mut Vec<Json>, t: &str) {
    if t.is_empty() {
        return;
    }
    if let Some(Json::String(l)) = o.last_mut() {
        l.push_str(t);
    } else {
        o.push(Json::String(t.into()));
    }
}

/// The structure a template stands for.
pub fn expected(hs: &[H]) -> Json {
    fn flat(hs: &[H]) -> String {
        hs.iter()
            .map(|h| match h {
                H::Text(t) | H::Raw(t) => t.clone(),
                H::El { .. } => unreachable!("element in an attribute"),
            })
            .collect()
    }
    let mut o: Vec<Json> = vec![];
    for h in hs {
        match h {
            H::Text(t) | H::Raw(t) => push_text(&mut o, t),
            H::El { tag, attrs, kids, .. } => o.push(json!([
                tag,
                attrs.iter().map(|(n, v)| json!([flat(n).to_ascii_lowercase(), v.as_ref().map(|v| flat(v)).unwrap_or_default()])).collect::<Vec<_>>(),
                expected(kids)
            ])),
        }
    }
    Json::Array(o)
}

pub fn compare(got: &[u8], want: &Json) -> Result<(), String> {
    let s = std::str::from_utf8(got).map_err(|_| "not UTF-8".to_string())?;
    let have = to_json(&parse(s)?);
    if have != *want {
        return Err(format!("the document reads as {have} instead of {want}"));
    }
    Ok(())
}
