//! Independent matcher for the documented name-spec language.
//!
//! `*` any run, `?` one character, `[abc]`/`[a-z]`/`[!..]` one character of a
//! set, `{a,b}` alternation, `\x` literal.  Without `{` the spec is a
//! comma-separated list of alternatives.

#[derive(Clone, Debug)]
enum Tok {
    Ch(char),
    Any,
    Star,
    Set(bool, Vec<(char, char)>),
    Alt(Vec<Vec<Tok>>),
}

fn parse(p: &[char], mut i: usize, nested: bool) -> Option<(Vec<Tok>, usize)> {
    let mut out = vec![];
    while i < p.len() {
        match p[i] {
            '?' => out.push(Tok::Any),
            '*' => out.push(Tok::Star),
            '\\' => {
                i += 1;
                out.push(Tok::Ch(*p.get(i)?));
            }
            '[' => {
                let mut j = i + 1;
                let mut neg = false;
                if j < p.len() && (p[j] == '!' || p[j] == '^') {
                    neg = true;
                    j += 1;
                }
                let mut set = vec![];
                let mut first = true;
                loop {
                    let c = *p.get(j)?;
                    if c == ']' && !first {
                        break;
                    }
                    first = false;
                    if p.get(j + 1) == Some(&'-') && p.get(j + 2).is_some_and(|c| *c != ']') {
                        if c > p[j + 2] {
                            return None;
                        }
                        set.push((c, p[j + 2]));
                        j += 3;
                    } else {
                        set.push((c, c));
                        j += 1;
                    }
                }
                i = j;
                out.push(Tok::Set(neg, set));
            }
            '{' => {
                let mut alts = vec![];
                loop {
                    let (t, e) = parse(p, i + 1, true)?;
                    alts.push(t);
                    i = e;
                    if p[e] == '}' {
                        break;
                    }
                }
                out.push(Tok::Alt(alts));
            }
            ',' | '}' if nested => return Some((out, i)),
            '}' => return None,
            c => out.push(Tok::Ch(c)),
        }
        i += 1;
    }
    if nested {
        None
    } else {
        Some((out, i))
    }
}

/// all end positions of matches of `t` starting at `pos`
fn ends(t: &[Tok], s: &[char], pos: usize) -> Vec<usize> {
    let mut cur = vec![pos];
    for tok in t {
        let mut nxt: Vec<usize> = vec![];
        for &p in &cur {
            match tok {
                Tok::Ch(c) => {
                    if s.get(p) == Some(c) {
                        nxt.push(p + 1)
                    }
                }
                Tok::Any => {
                    if p < s.len() {
                        nxt.push(p + 1)
                    }
                }
                Tok::Star => nxt.extend(p..=s.len()),
                Tok::Set(neg, set) => {
                    if let Some(c) = s.get(p) {
                        if set.iter().any(|(a, b)| a <= c && c <= b) != *neg {
                            nxt.push(p + 1)
                        }
                    }
                }
                Tok::Alt(alts) => {
                    for a in alts {
                        nxt.extend(ends(a, s, p))
                    }
                }
            }
        }
        nxt.sort();
        nxt.dedup();
        cur = nxt;
    }
    cur
}

/// `None` = malformed pattern
pub fn glob(pat: &str, name: &str) -> Option<bool> {
    let p: Vec<char> = pat.chars().collect();
    let s: Vec<char> = name.chars().collect();
    let (t, _) = parse(&p, 0, false)?;
    Some(ends(&t, &s, 0).contains(&s.len()))
}

/// byte lengths of all prefixes of `name` matching `pat`, ascending
pub fn prefix_lens(pat: &str, name: &str) -> Option<Vec<usize>> {
    let p: Vec<char> = pat.chars().collect();
    let s: Vec<char> = name.chars().collect();
    let (t, _) = parse(&p, 0, false)?;
    Some(ends(&t, &s, 0).into_iter().map(|n| s[..n].iter().collect::<String>().len()).collect())
}

/// byte start positions of all suffixes of `name` matching `pat`, ascending
pub fn suffix_starts(pat: &str, name: &str) -> Option<Vec<usize>> {
    let p: Vec<char> = pat.chars().collect();
    let s: Vec<char> = name.chars().collect();
    let (t, _) = parse(&p, 0, false)?;
    Some(
        (0..=s.len())
            .filter(|&i| ends(&t, &s, i).contains(&s.len()))
            .map(|n| s[..n].iter().collect::<String>().len())
            .collect(),
    )
}

pub type R<T> = Result<T, String>;

/// Sub-specification `name` matches, if any.
pub fn subspec<'a>(spec: &'a str, name: &str) -> R<Option<&'a str>> {
    if spec.contains('{') {
        return match glob(spec, name) {
            None => Err(format!("malformed {spec}")),
            Some(true) => Ok(Some(spec)),
            Some(false) => Ok(None),
        };
    }
    for s in spec.split(',') {
        match glob(s, name) {
            None => return Err(format!("malformed {s}")),
            Some(true) => return Ok(Some(s)),
            _ => {}
        }
    }
    Ok(None)
}

pub fn matches(spec: &str, name: &str) -> R<bool> {
    Ok(subspec(spec, name)?.is_some())
}

/// split the optional marker off
pub fn opt(spec: &str) -> (&str, bool) {
    match spec.strip_prefix("?~") {
        Some(s) => (s, true),
        None => (spec, false),
    }
}
