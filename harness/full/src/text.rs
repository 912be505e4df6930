//! Numbers and mutations of text files.
use verif_core::Rng;

/// [+-]? (digits [. digits*] | . digits) ([eE] [+-]? digits)?
pub fn number(s: &str) -> Option<f64> {
    let b = s.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let mut n = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        n += digits(&mut i);
    }
    if n == 0 {
        return None;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return None;
        }
    }
    if i != b.len() {
        return None;
    }
    s.parse().ok()
}

pub fn whole(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

/// not a number this harness takes a position on
pub fn odd_number(s: &str) -> bool {
    let l = s.to_lowercase();
    l.contains("nan") || l.contains("inf")
}

/// the number in one of the notations authors use, without loss
pub fn spell(rng: &mut Rng, x: f64) -> String {
    let s = match rng.below(6) {
        0 => format!("{:e}", x),
        1 => format!("{:E}", x),
        2 => {
            let s = format!("{}", x);
            if s.contains('.') {
                s + "00"
            } else {
                s + "."
            }
        }
        3 => {
            let s = format!("{}", x);
            match s.strip_prefix("0.") {
                Some(r) => format!(".{}", r),
                None => s,
            }
        }
        4 => {
            let s = format!("{:e}", x);
            let (m, e) = s.split_once('e').unwrap();
            if e.starts_with('-') {
                format!("{}e{}", m, e)
            } else {
                format!("{}e+{}", m, e)
            }
        }
        _ => format!("{}", x),
    };
    if !s.starts_with('-') && rng.chance(0.1) {
        format!("+{}", s)
    } else {
        s
    }
}

/// numbers that a lossy notation would spoil
pub fn awkward(rng: &mut Rng) -> f64 {
    let s = if rng.chance(0.5) { 1.0 } else { -1.0 };
    s * match rng.below(8) {
        0 => 0.0,
        1 => rng.range(1, 9) as f64,
        2 => rng.logf(1e-12, 1e-6),
        3 => rng.logf(1e6, 1e15),
        4 => (rng.range(1, 999) as f64) / 8.0,
        5 => (rng.range(1, 99999) as f64) / 1000.0,
        _ => rng.logf(1e-3, 1e3),
    }
}

pub fn mutate(rng: &mut Rng, text: &str) -> Vec<u8> {
    let mut v = text.as_bytes().to_vec();
    for _ in 0..if rng.chance(0.7) { 1 } else { rng.range(2, 5) } {
        once(rng, &mut v);
    }
    v
}

fn lines(v: &[u8]) -> Vec<Vec<u8>> {
    v.split(|&c| c == b'\n').map(|x| x.to_vec()).collect()
}

fn once(rng: &mut Rng, v: &mut Vec<u8>) {
    if v.is_empty() {
        v.extend_from_slice(b"\n");
        return;
    }
    let pos = rng.below(v.len());
    let mut ls = lines(v);
    let (a, b) = (rng.below(ls.len()), rng.below(ls.len()));
    match rng.below(17) {
        16 => {
            // a word cut short
            let l = &mut ls[a];
            let at: Vec<usize> = (0..l.len()).filter(|&i| l[i].is_ascii_alphanumeric() && (i == 0 || !l[i - 1].is_ascii_alphanumeric())).collect();
            if at.is_empty() {
                return;
            }
            let s = *rng.pick(&at);
            let e = (s..l.len()).find(|&i| !l[i].is_ascii_alphanumeric()).unwrap_or(l.len());
            let n = e - s;
            let keep = if n > 8 && rng.chance(0.5) { 8 } else { rng.below(n) };
            l.drain(s + keep..e);
        }
        0 => {
            v.remove(pos);
            return;
        }
        1 => {
            v.insert(pos, *rng.pick(b"0123456789/-+.eE \n#$,xyabcdo"));
            return;
        }
        2 => {
            v[pos] = *rng.pick(b"0123456789/-+.eE \n#$,xyabcdo\r\t");
            return;
        }
        3 => {
            v[pos] = rng.below(256) as u8;
            return;
        }
        4 => {
            v.truncate(pos);
            return;
        }
        5 => {
            ls.remove(a);
        }
        6 => {
            let l = ls[a].clone();
            ls.insert(b, l);
        }
        7 => ls.swap(a, b),
        8 => ls.truncate(a),
        9 | 10 | 11 => {
            // one number becomes another
            let (s, e) = match span(rng, &ls[a]) {
                Some(x) => x,
                None => return,
            };
            let t: &[u8] = *rng.pick::<&[u8]>(&[
                &b"0"[..], b"1", b"2", b"3", b"9", b"1000", b"18446744073709551616", b"255", b"256", b"-1", b"1.5", b"1e400", b"1e200", b"-0", b"", b"0x1", b"007",
                b"1e-400", b"--1", b"1e", b".", b"nan", b"inf",
            ]);
            ls[a].splice(s..e, t.iter().cloned());
        }
        12 => {
            // one more or one fewer part
            let l = &mut ls[a];
            match l.iter().rposition(|&c| c == b'/' || c == b' ') {
                Some(p) if rng.chance(0.5) => l.truncate(p),
                Some(p) => {
                    let t = l[p..].to_vec();
                    l.extend(t);
                }
                None => l.push(b' '),
            }
        }
        13 => {
            // words for other words
            let w: &[&[u8]] = &[
                &b"x"[..], b"y", b"xy", b"free", b"angle:1", b"angle:", b"z", b"AL6061", b"TEST", b"STEEL", b"planestress 1", b"planestrain 2", b"axisymmetric", b"polygon", b"end",
                b"$EndNodes", b"$Forces", b"count 0", b"count 1", b"count 2", b"version 2", b"# note", b"",
            ];
            ls[a] = rng.pick(w).to_vec();
        }
        14 => {
            let l = &mut ls[a];
            if l.is_empty() {
                l.push(b'#');
            } else {
                let i = rng.below(l.len());
                let t = l[..i].to_vec();
                if rng.chance(0.5) {
                    *l = t;
                } else {
                    l.splice(i..i, b" ".iter().cloned());
                }
            }
        }
        _ => {
            let l = ls[a].clone();
            ls.push(l);
        }
    }
    *v = ls.join(&b'\n');
}

fn span(rng: &mut Rng, l: &[u8]) -> Option<(usize, usize)> {
    let num = |c: u8| c.is_ascii_digit() || b".-+eE".contains(&c);
    let mut out = Vec::new();
    let mut i = 0;
    while i < l.len() {
        if l[i].is_ascii_digit() {
            let mut s = i;
            while s > 0 && b"-+.".contains(&l[s - 1]) {
                s -= 1;
            }
            let mut e = i;
            while e < l.len() && num(l[e]) {
                e += 1;
            }
            out.push((s, e));
            i = e;
        }
        i += 1;
    }
    if out.is_empty() {
        None
    } else {
        Some(out[rng.below(out.len())])
    }
}
