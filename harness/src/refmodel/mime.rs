//! The WHATWG MIME type parser and serialiser, transcribed over code points.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RefMime {
    pub base: String,
    pub sub: String,
    /// insertion order, names lower case and unique
    pub params: Vec<(String, String)>,
}

pub fn is_tchar(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}
fn is_qtext(c: char) -> bool {
    let n = c as u32;
    n == 9 || (0x20..=0x7e).contains(&n) || (0x80..=0xff).contains(&n)
}
fn is_ws(c: char) -> bool {
    c == '\n' || c == '\r' || c == '\t' || c == ' '
}

pub fn parse(s: &str) -> Option<RefMime> {
    let all: Vec<char> = s.chars().collect();
    let mut a = 0;
    let mut b = all.len();
    while a < b && is_ws(all[a]) {
        a += 1
    }
    while b > a && is_ws(all[b - 1]) {
        b -= 1
    }
    let s = &all[a..b];
    let mut p = 0;
    let mut ty = String::new();
    while p < s.len() && s[p] != '/' {
        ty.push(s[p]);
        p += 1;
    }
    if ty.is_empty() || !ty.chars().all(is_tchar) || p >= s.len() {
        return None;
    }
    p += 1;
    let mut sub = String::new();
    while p < s.len() && s[p] != ';' {
        sub.push(s[p]);
        p += 1;
    }
    while sub.chars().last().map_or(false, is_ws) {
        sub.pop();
    }
    if sub.is_empty() || !sub.chars().all(is_tchar) {
        return None;
    }
    let mut m = RefMime { base: ty.to_ascii_lowercase(), sub: sub.to_ascii_lowercase(), params: vec![] };
    while p < s.len() {
        p += 1;
        while p < s.len() && is_ws(s[p]) {
            p += 1;
        }
        let mut name = String::new();
        while p < s.len() && s[p] != ';' && s[p] != '=' {
            name.push(s[p]);
            p += 1;
        }
        let name = name.to_ascii_lowercase();
        if p < s.len() {
            if s[p] == ';' {
                continue;
            }
            p += 1;
        }
        if p >= s.len() {
            break;
        }
        let mut value = String::new();
        if s[p] == '"' {
            p += 1;
            loop {
                while p < s.len() && s[p] != '"' && s[p] != '\\' {
                    value.push(s[p]);
                    p += 1;
                }
                if p >= s.len() {
                    break;
                }
                let c = s[p];
                p += 1;
                if c == '\\' {
                    if p >= s.len() {
                        value.push('\\');
                        break;
                    }
                    value.push(s[p]);
                    p += 1;
                } else {
                    break;
                }
            }
            while p < s.len() && s[p] != ';' {
                p += 1;
            }
        } else {
            while p < s.len() && s[p] != ';' {
                value.push(s[p]);
                p += 1;
            }
            while value.chars().last().map_or(false, is_ws) {
                value.pop();
            }
            if value.is_empty() {
                continue;
            }
        }
        if !name.is_empty() && name.chars().all(is_tchar) && value.chars().all(is_qtext) && m.get(&name).is_none() {
            m.params.push((name, value));
        }
    }
    Some(m)
}

impl RefMime {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.params.iter().find(|p| p.0 == k).map(|p| p.1.as_str())
    }
    pub fn remove(&mut self, k: &str) -> Option<String> {
        let i = self.params.iter().position(|p| p.0 == k)?;
        Some(self.params.remove(i).1)
    }
    pub fn print(&self) -> String {
        let mut s = format!("{}/{}", self.base, self.sub);
        for (k, v) in &self.params {
            s.push(';');
            s.push_str(k);
            s.push('=');
            if !v.is_empty() && v.chars().all(is_tchar) {
                s.push_str(v);
            } else {
                s.push('"');
                for c in v.chars() {
                    if c == '"' || c == '\\' {
                        s.push('\\');
                    }
                    s.push(c);
                }
                s.push('"');
            }
        }
        s
    }
    /// Same media type with its parameters in the same order, except that the charset may be anywhere.
    pub fn same(&self, o: &RefMime) -> bool {
        let order = |m: &RefMime| {
            let mut p = m.params.clone();
            p.sort_by_key(|p| p.0 != "charset");
            p
        };
        self.base == o.base && self.sub == o.sub && order(self) == order(o)
    }
    pub fn subset_eq(&self, o: &RefMime) -> bool {
        (o.base == "*" || o.base == self.base)
            && (o.sub == "*" || o.sub == self.sub)
            && o.params.iter().all(|(k, v)| self.get(k) == Some(v.as_str()))
    }
}
