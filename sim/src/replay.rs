//! Replay files: small JSON objects, written and read without dependencies.

use std::fmt::Write;

#[derive(Clone, Debug, Default)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    /// release or checked
    pub flavour: String,
    pub tier: String,
    pub seed: u64,
    pub run: u64,
    /// number of preceding runs of the same worker that have to be executed first
    pub history: u64,
    pub choices: Vec<u64>,
    pub trace: Vec<String>,
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Replay {
    pub fn to_json(&self) -> String {
        let ch: Vec<String> = self.choices.iter().map(|c| c.to_string()).collect();
        let tr: Vec<String> = self.trace.iter().map(|t| format!("  {}", quote(t))).collect();
        format!(
            "{{\n\"property\": {},\n\"class\": {},\n\"message\": {},\n\"flavour\": {},\n\"tier\": {},\n\"seed\": {},\n\"run\": {},\n\"history\": {},\n\"choices\": [{}],\n\"trace\": [\n{}\n]\n}}\n",
            quote(&self.property),
            quote(&self.class),
            quote(&self.message),
            quote(&self.flavour),
            quote(&self.tier),
            self.seed,
            self.run,
            self.history,
            ch.join(", "),
            tr.join(",\n")
        )
    }
    pub fn save(&self, path: &str) -> std::io::Result<()> {
        let tmp = format!("{path}.tmp");
        std::fs::write(&tmp, self.to_json())?;
        std::fs::rename(tmp, path)
    }
    pub fn load(path: &str) -> Result<Replay, String> {
        let s = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut p = P { b: s.as_bytes(), i: 0 };
        let mut r = Replay::default();
        p.expect(b'{')?;
        loop {
            p.ws();
            if p.peek() == Some(b'}') {
                break;
            }
            let k = p.string()?;
            p.expect(b':')?;
            p.ws();
            match p.peek() {
                Some(b'"') => {
                    let v = p.string()?;
                    match k.as_str() {
                        "property" => r.property = v,
                        "class" => r.class = v,
                        "message" => r.message = v,
                        "flavour" => r.flavour = v,
                        "tier" => r.tier = v,
                        _ => {}
                    }
                }
                Some(b'[') => {
                    p.i += 1;
                    loop {
                        p.ws();
                        match p.peek() {
                            Some(b']') => {
                                p.i += 1;
                                break;
                            }
                            Some(b',') => p.i += 1,
                            Some(b'"') => {
                                let v = p.string()?;
                                if k == "trace" {
                                    r.trace.push(v)
                                }
                            }
                            _ => {
                                let v = p.num()?;
                                if k == "choices" {
                                    r.choices.push(v)
                                }
                            }
                        }
                    }
                }
                _ => {
                    let v = p.num()?;
                    match k.as_str() {
                        "seed" => r.seed = v,
                        "run" => r.run = v,
                        "history" => r.history = v,
                        _ => {}
                    }
                }
            }
            p.ws();
            if p.peek() == Some(b',') {
                p.i += 1;
            }
        }
        Ok(r)
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(|c| c.is_ascii_whitespace()) {
            self.i += 1;
        }
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.i))
        }
    }
    fn num(&mut self) -> Result<u64, String> {
        let s = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        std::str::from_utf8(&self.b[s..self.i])
            .unwrap()
            .parse()
            .map_err(|e| format!("number at {s}: {e}"))
    }
    fn string(&mut self) -> Result<String, String> {
        self.expect(b'"')?;
        let mut o = vec![];
        loop {
            match self.peek() {
                None => return Err("unterminated string".into()),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(o).map_err(|e| e.to_string());
                }
                Some(b'\\') => {
                    self.i += 1;
                    match self.peek() {
                        Some(b'n') => o.push(b'\n'),
                        Some(b't') => o.push(b'\t'),
                        Some(b'u') => {
                            self.i += 4;
                            o.push(b'?')
                        }
                        Some(c) => o.push(c),
                        None => {}
                    }
                    self.i += 1;
                }
                Some(c) => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
