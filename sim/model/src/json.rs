//! Just enough JSON for replay and evidence files.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn n(x: u64) -> J {
    J::Int(x as i64)
}
impl J {
    pub fn obj() -> J {
        J::Obj(vec![])
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            if let Some(e) = o.iter_mut().find(|e| e.0 == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(o) = self {
            for e in o {
                if e.0 == k {
                    return &e.1;
                }
            }
        }
        &J::Null
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(a) = self {
            a
        } else {
            &[]
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Int(i) => *i as u64,
            J::Num(f) => *f as u64,
            _ => 0,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn st(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(f) => out.push_str(&format!("{}", f)),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Str(s) => wstr(s, out),
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    wstr(k, out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    /// objects one key per line, for readability of replay files
    pub fn pretty(&self) -> String {
        if let J::Obj(o) = self {
            let mut out = String::from("{\n");
            for (i, (k, v)) in o.iter().enumerate() {
                out.push(' ');
                wstr(k, &mut out);
                out.push_str(": ");
                v.write(&mut out);
                if i + 1 < o.len() {
                    out.push(',');
                }
                out.push('\n');
            }
            out.push_str("}\n");
            out
        } else {
            self.dump()
        }
    }
}
fn wstr(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{2028}' || c == '\u{2029}' || (c as u32) == 0x7f || c == '\u{feff}' => {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
pub fn parse(text: &str) -> Result<J, String> {
    let b: Vec<char> = text.chars().collect();
    let mut p = 0;
    let v = val(&b, &mut p)?;
    ws(&b, &mut p);
    if p != b.len() {
        return Err(format!("trailing input at {}", p));
    }
    Ok(v)
}
fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1;
    }
}
fn val(b: &[char], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("eof".into());
    }
    match b[*p] {
        '{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == '}' {
                    *p += 1;
                    return Ok(J::Obj(o));
                }
                let k = match val(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&':') {
                    return Err("colon".into());
                }
                *p += 1;
                let v = val(b, p)?;
                o.push((k, v));
                ws(b, p);
                match b.get(*p) {
                    Some(',') => *p += 1,
                    Some('}') => {}
                    _ => return Err("obj".into()),
                }
            }
        }
        '[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                if *p < b.len() && b[*p] == ']' {
                    *p += 1;
                    return Ok(J::Arr(a));
                }
                a.push(val(b, p)?);
                ws(b, p);
                match b.get(*p) {
                    Some(',') => *p += 1,
                    Some(']') => {}
                    _ => return Err("arr".into()),
                }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*p).ok_or("str")?;
                *p += 1;
                match c {
                    '"' => return Ok(J::Str(s)),
                    '\\' => {
                        let e = *b.get(*p).ok_or("esc")?;
                        *p += 1;
                        match e {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = b.get(*p..*p + 4).ok_or("u")?.iter().collect();
                                *p += 4;
                                let v = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                s.push(std::char::from_u32(v).unwrap_or('\u{fffd}'));
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => {
            *p += 4;
            Ok(J::Bool(true))
        }
        'f' => {
            *p += 5;
            Ok(J::Bool(false))
        }
        'n' => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_digit() || "+-.eE".contains(b[*p])) {
                *p += 1;
            }
            let t: String = b[st..*p].iter().collect();
            if let Ok(i) = t.parse::<i64>() {
                Ok(J::Int(i))
            } else if let Ok(u) = t.parse::<u64>() {
                Ok(J::Int(u as i64))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|e| format!("{} {:?}", e, t))
            }
        }
    }
}
