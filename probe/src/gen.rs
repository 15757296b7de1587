//! Generates cases: mostly accepted ones with a few mutations that keep values close to each other.
use crate::model::*;
use serde_json::{json, Map, Value};

pub struct Gen {
    x: u64,
    dict: Vec<String>,
    ints: Vec<u64>,
}

const WORDS: [&str; 34] = [
    "", "a", "A", "id", "key-1", "nonce", "tZignsnFbp", "s6BhdRkqt3", "https://issuer.example", "https://issuer.example/", "HTTPS://ISSUER.EXAMPLE", "Example Issuer",
    "did:example:123", "did:key:z6Mk", "a.b", "a.b.c", ".", "..", "a b", "a+b", "a%20b", "100%", "a&b=c?d#e", "\"quoted\"", "back\\slash", "{\"a\":1}", "tab\there", "nul\u{0}", "é", "ß", "日本語", "\u{212a}", "𝕏", " lead",
];

impl Gen {
    pub fn new(seed: u64, dict: &Value) -> Self {
        let strs = dict["strings"].as_array().map(|a| a.iter().filter_map(s).collect()).unwrap_or_default();
        let mut ints: Vec<u64> = dict["ints"].as_array().map(|a| a.iter().filter_map(|v| v.as_str().and_then(|t| t.parse().ok())).collect()).unwrap_or_default();
        if ints.is_empty() {
            ints.push(0);
        }
        Gen { x: seed ^ 0x5851_f42d_4c95_7f2d, dict: strs, ints }
    }

    fn next(&mut self) -> u64 {
        self.x = self.x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    fn n(&mut self, k: usize) -> usize {
        (self.next() % k.max(1) as u64) as usize
    }

    fn pick(&mut self) -> u64 {
        let i = self.n(self.ints.len());
        self.ints[i]
    }

    fn word(&mut self) -> String {
        let i = self.n(self.dict.len());
        self.dict[i].clone()
    }

    fn p(&mut self, percent: usize) -> bool {
        self.n(100) < percent
    }

    fn of<'a>(&mut self, a: &[&'a str]) -> &'a str {
        a[self.n(a.len())]
    }

    /// a size at which a counter, buffer or limit of some width could end
    fn huge(&mut self) -> usize {
        let k = [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025, 4096, 5000, 32_768, 65_535, 65_536, 65_537, 70_000];
        let m = if self.p(20) { k.len() } else { 16 };
        k[self.n(m)]
    }

    fn len(&mut self) -> usize {
        if self.n(140) == 0 {
            return self.huge();
        }
        match self.n(20) {
            0 => (self.pick() % 600) as usize,
            1 => self.n(130),
            2 | 3 => self.n(40),
            _ => self.n(9),
        }
    }

    fn small(&mut self) -> usize {
        if self.n(3000) == 0 {
            return self.huge().min(1100);
        }
        match self.n(30) {
            0 => (self.pick() % 70) as usize,
            1 => self.n(20),
            _ => self.n(4),
        }
    }

    pub fn string(&mut self) -> String {
        match self.n(12) {
            0..=3 => self.of(&WORDS).to_owned(),
            4 | 5 if !self.dict.is_empty() => {
                let d = self.word();
                if self.p(40) { self.near(&d) } else { d }
            }
            6 => {
                let w = self.of(&WORDS).to_owned();
                self.near(&w)
            }
            7 => {
                let l = self.len();
                let c = self.of(&["x", "x", "0", ".", "/", "%", "é", "=", "A", " ", "\"", "#", ":", "[", "{"]);
                c.repeat(l)
            }
            8 => {
                let l = self.len();
                (0..l).map(|_| char::from_u32([self.n(0x80), self.n(0x250), self.n(0xd7ff), 0x1f600 + self.n(64)][self.n(4)] as u32).unwrap_or('?')).collect()
            }
            _ => {
                let l = self.len();
                let a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~:/?#[]@!$&'()*+,;=% \"\\{}";
                let a: Vec<char> = a.chars().collect();
                let m = if self.p(60) { 62 } else { a.len() };
                (0..l).map(|_| a[self.n(m)]).collect()
            }
        }
    }

    fn plain(&mut self) -> String {
        let w = ["alpha", "beta", "gamma", "UniversityDegree", "n-0S6_WzA2Mj", "https://issuer.example", "https://issuer.example/tenant", "client", "SplxlOBeZQQYbYS6WxSbIA"];
        if self.p(70) { self.of(&w).to_owned() } else { self.string() }
    }

    /// a string that differs slightly from s
    pub fn near(&mut self, t: &str) -> String {
        let c: Vec<char> = t.chars().collect();
        let j = |v: Vec<char>| v.into_iter().collect::<String>();
        match self.n(36) {
            0 => t.to_uppercase(),
            1 => t.to_lowercase(),
            2 => j(c.iter().enumerate().map(|(i, x)| if i == 0 { if x.is_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() } } else { *x }).collect()),
            3 => {
                let k = self.n(c.len());
                j(c.iter().enumerate().map(|(i, x)| if i == k { if x.is_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() } } else { *x }).collect())
            }
            4 => format!("{t}/"),
            5 => t.trim_end_matches('/').to_owned(),
            6 => format!("{t} "),
            7 => format!(" {t}"),
            8 => j(c[..c.len().saturating_sub(1)].to_vec()),
            9 => j(c.iter().skip(1).cloned().collect()),
            10 => {
                let w = self.of(&["x", "0", "#a", "?a=b", ".", "\n", "\u{0}", "/x", "%20", "+", "=", "-", "_"]);
                format!("{t}{w}")
            }
            11 => {
                let k = self.n(c.len());
                let mut v = c.clone();
                if !v.is_empty() {
                    v[k] = if v[k] == 'q' { 'z' } else { 'q' };
                }
                j(v)
            }
            12 => String::new(),
            13 => t.replace("https", "http"),
            14 => format!("x{t}"),
            15 => {
                let k = self.n(c.len() + 1);
                j(c[..k].to_vec())
            }
            16 => j(c.iter().rev().cloned().collect()),
            17 => t.trim().to_owned(),
            18 => {
                // another character in the last place
                let mut v = c.clone();
                if let Some(l) = v.last_mut() {
                    *l = if *l == '7' { '8' } else { '7' };
                }
                j(v)
            }
            19 => format!("{t}{t}"),
            20 => {
                let w = self.string();
                format!("{t}{w}")
            }
            21 => {
                // one character as a percent escape
                let k = self.n(c.len());
                let low = self.p(50);
                c.iter().enumerate().map(|(i, x)| if i == k { x.to_string().bytes().map(|b| if low { format!("%{b:02x}") } else { format!("%{b:02X}") }).collect() } else { x.to_string() }).collect()
            }
            22 => {
                // a percent escape as its character
                match t.find('%').and_then(|i| u8::from_str_radix(t.get(i + 1..i + 3)?, 16).ok().filter(u8::is_ascii).map(|b| (i, b))) {
                    Some((i, b)) => format!("{}{}{}", &t[..i], b as char, &t[i + 3..]),
                    None => t.replace(' ', "+"),
                }
            }
            23 | 24 => {
                // one more character somewhere
                let k = self.n(c.len() + 1);
                let w = self.of(&["\u{200b}", "-", "_", ".", " ", "0", "\u{301}", "/", "\\", "\"", "\u{ad}", "e", "=", ",", ":", "+"]);
                format!("{}{w}{}", j(c[..k].to_vec()), j(c[k..].to_vec()))
            }
            25 if !c.is_empty() => {
                // one character less
                let mut v = c.clone();
                v.remove(self.n(c.len()));
                j(v)
            }
            26 if c.len() > 1 => {
                let k = self.n(c.len() - 1);
                let mut v = c.clone();
                v.swap(k, k + 1);
                j(v)
            }
            27 => {
                let (a, b) = [("-", "_"), ("+", "-"), ("/", "_"), ("0", "O"), ("1", "l"), ("a", "\u{430}"), ("e", "\u{e9}"), ("s", "\u{17f}"), ("k", "\u{212a}"), ("ss", "\u{df}"), ("i", "\u{131}"), ("://", ":/"), ("https://", ""), ("https://", "https://www."), ("example", "example:443"), (".", "..")][self.n(16)];
                if self.p(50) { t.replacen(a, b, 1) } else { t.replacen(b, a, 1) }
            }
            28 => {
                let mut v = c.clone();
                v.sort_unstable();
                j(v)
            }
            29 => {
                // the same beginning and another end, or the other way round
                let w = self.string();
                if self.p(50) { format!("{}{w}", j(c[..c.len() / 2].to_vec())) } else { format!("{w}{}", j(c[c.len() / 2..].to_vec())) }
            }
            30 => {
                let u = self.near(t);
                self.near(&u)
            }
            31 | 32 => {
                // in company of something else
                let c = self.of(&[";", ",", ":", "?", "#", "&", "=", "/", "|", "+", "@", " ", "\t", "\n", "-", "."]);
                let w = if self.p(40) { String::new() } else if self.p(50) { self.word() } else { self.plain() };
                if self.p(60) { format!("{t}{c}{w}") } else { format!("{w}{c}{t}") }
            }
            33 | 34 => {
                // with a constant of the code
                let w = self.word();
                if self.p(50) { format!("{t}{w}") } else { format!("{w}{t}") }
            }
            _ => self.string(),
        }
    }

    fn int(&mut self) -> u64 {
        match self.n(10) {
            0 | 1 => self.pick(),
            2 | 3 => {
                let k = 10u64.pow(self.n(20) as u32);
                k.wrapping_add([0, 1, u64::MAX][self.n(3)])
            }
            4 => {
                let k = 1u64 << self.n(64);
                k.wrapping_add([0, 1, u64::MAX][self.n(3)])
            }
            5 => self.next(),
            6 => self.next() % 100_000_000,
            7 => self.next() % 1_000_000_000,
            8 => self.n(10) as u64,
            _ => self.next() >> self.n(64),
        }
    }

    fn maybe(&mut self, percent: usize, f: impl FnOnce(&mut Self) -> Value) -> Value {
        if self.p(percent) { f(self) } else { Value::Null }
    }

    fn str_or_null(&mut self) -> Value {
        self.maybe(60, |g| json!(g.string()))
    }

    fn list(&mut self, f: impl Fn(&mut Self) -> Value) -> Value {
        let k = self.small();
        Value::Array((0..k).map(|_| f(self)).collect())
    }

    fn strings(&mut self) -> Value {
        self.list(|g| json!(g.plain()))
    }

    fn any(&mut self, depth: usize) -> Value {
        match self.n(if depth == 0 { 5 } else { 7 }) {
            0 => Value::Null,
            1 => json!(self.p(50)),
            2 => json!(self.int()),
            3 => json!(-(self.int() as i64 / 2)),
            4 => json!(self.string()),
            5 => {
                let k = self.n(3);
                Value::Array((0..k).map(|_| self.any(depth - 1)).collect())
            }
            _ => {
                let k = self.n(3);
                Value::Object((0..k).map(|_| (self.string(), self.any(depth - 1))).collect())
            }
        }
    }

    // ------------------------------------------------------------ formats, metadata, offers
    fn subject(&mut self) -> Value {
        let mut m = Map::new();
        if self.p(50) { m.insert("mandatory".into(), json!(self.p(50))); }
        if self.p(50) { m.insert("value_type".into(), json!(self.string())); }
        if self.p(40) {
            m.insert("display".into(), self.list(|g| {
                let mut m = Map::new();
                if g.p(60) { m.insert("name".into(), json!(g.string())); }
                if g.p(60) { m.insert("locale".into(), json!(g.string())); }
                Value::Object(m)
            }));
        }
        Value::Object(m)
    }

    fn subjects(&mut self) -> Value {
        let k = self.n(3);
        Value::Object((0..k).map(|_| (self.plain(), self.subject())).collect())
    }

    pub fn fmt(&mut self) -> Value {
        let mut m = Map::new();
        let f = self.of(&["jwt_vc_json", "jwt_vc_json-ld", "ldp_vc", "mso_mdoc"]);
        m.insert("format".into(), json!(f));
        if f == "mso_mdoc" {
            m.insert("doctype".into(), json!(self.plain()));
            if self.p(40) { m.insert("claims".into(), self.subjects()); }
        } else {
            m.insert("types".into(), self.strings());
            if self.p(40) { m.insert("credentialSubject".into(), self.subjects()); }
        }
        if f == "ldp_vc" {
            m.insert("@context".into(), self.list(|g| if g.p(60) { json!(g.string()) } else {
                let k = g.n(3);
                Value::Object((0..k).map(|_| (g.string(), g.any(2))).collect())
            }));
        }
        if self.p(40) { m.insert("order".into(), self.strings()); }
        Value::Object(m)
    }

    fn supported(&mut self, ids: &mut Vec<String>) -> Value {
        let mut m = self.fmt().as_object().cloned().unwrap();
        if self.p(75) {
            let id = if !ids.is_empty() && self.p(12) {
                let i = ids[self.n(ids.len())].clone();
                if self.p(50) { self.near(&i) } else { i }
            } else if self.p(50) { format!("id-{}", ids.len()) } else { self.plain() };
            ids.push(id.clone());
            m.insert("id".into(), json!(id));
        }
        if self.p(30) { m.insert("cryptographic_binding_methods_supported".into(), self.strings()); }
        if self.p(30) { m.insert("cryptographic_suites_supported".into(), self.strings()); }
        if self.p(30) {
            m.insert("display".into(), self.list(|g| {
                let mut m = Map::new();
                m.insert("name".into(), json!(g.plain()));
                for k in ["locale", "description", "background_color", "text_color"] {
                    if g.p(40) { m.insert(k.into(), json!(g.string())); }
                }
                if g.p(40) {
                    let mut l = Map::new();
                    for k in ["url", "alt_text"] {
                        if g.p(50) { l.insert(k.into(), json!(g.string())); }
                    }
                    m.insert("logo".into(), Value::Object(l));
                }
                Value::Object(m)
            }));
        }
        Value::Object(m)
    }

    pub fn meta(&mut self, issuer: &str, unique: bool) -> Value {
        let mut ids = vec![];
        let k = match self.n(25) { 0 => self.n(70), 1..=3 => self.n(12), _ => self.n(4) };
        let mut cs: Vec<Value> = (0..k).map(|_| self.supported(&mut ids)).collect();
        if self.n(120) == 0 {
            // a crowd of distinct ids: shortened or hashed ones collide
            let (k, w, step) = (300 + self.n(500), self.plain(), 1 + self.n(1000));
            let x = self.n(4);
            cs.extend((0..k).map(|i| {
                let n = i * step;
                let id = match x { 0 => format!("{w}-{n}"), 1 => format!("{n}{w}"), 2 => format!("{:x}", (n as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)), _ => format!("{w}{n:08}") };
                json!({"format": "jwt_vc_json", "types": [], "id": id})
            }));
        }
        if unique {
            let mut seen = std::collections::HashSet::new();
            cs.retain(|c| c["id"].as_str().map_or(true, |i| seen.insert(i.to_owned())));
        } else if cs.len() > 1 && self.p(40) {
            let (a, b) = (self.n(cs.len()), self.n(cs.len()));
            if a != b && self.p(70) {
                let id = cs[a]["id"].as_str().unwrap_or("dup").to_owned();
                for k in [a, b] {
                    cs[k].as_object_mut().unwrap().insert("id".into(), json!(id));
                }
            }
        }
        let mut m = Map::new();
        m.insert("credential_issuer".into(), json!(issuer));
        m.insert("credential_endpoint".into(), json!(self.plain()));
        if self.p(40) { m.insert("authorization_server".into(), json!(self.string())); }
        if self.p(40) { m.insert("batch_credential_endpoint".into(), json!(self.string())); }
        m.insert("credentials_supported".into(), Value::Array(cs));
        if self.p(25) {
            for _ in 0..self.n(3) {
                let k = self.string();
                if !m.contains_key(&k) && k != "authorization_server" && k != "batch_credential_endpoint" {
                    let v = self.any(2);
                    m.insert(k, v);
                }
            }
        }
        Value::Object(m)
    }

    fn auth(&mut self) -> Value {
        if self.p(50) { json!({"issuer_state": self.string()}) } else { json!({}) }
    }

    fn pre(&mut self) -> Value {
        let mut m = Map::new();
        m.insert("pre-authorized_code".into(), json!(self.plain()));
        if self.p(60) { m.insert("user_pin_required".into(), json!(self.p(50))); }
        Value::Object(m)
    }

    fn coi(&mut self, ids: &[String]) -> Value {
        if self.p(30) { self.fmt() } else if !ids.is_empty() && self.p(90) {
            let i = ids[self.n(ids.len())].clone();
            json!(if self.p(6) { self.near(&i) } else { i })
        } else { json!(self.plain()) }
    }

    fn grants(&mut self, auth: bool, pre: bool) -> Value {
        let mut m = Map::new();
        if auth { m.insert("authorization_code".into(), self.auth()); }
        if pre { m.insert(PRE.into(), self.pre()); }
        Value::Object(m)
    }

    pub fn offer(&mut self, auth: bool, pre: bool) -> Value {
        let k = self.small();
        json!({"credential_issuer": self.plain(), "credentials": (0..k).map(|_| self.coi(&[])).collect::<Vec<_>>(), "grants": self.grants(auth, pre)})
    }

    // ------------------------------------------------------------ keys and DID documents
    fn bytes(&mut self) -> String {
        let l = match self.n(8) { 0 => 0, 1 => self.n(70), 2 => 33, 3 => 64, _ => 32 };
        let b: Vec<u8> = (0..l).map(|_| self.next() as u8).collect();
        b64e(&b)
    }

    fn jwk(&mut self, good: bool) -> Value {
        let kind = if good { [0, 0, 1][self.n(3)] } else { self.n(6) };
        let mut k = match kind {
            0 => json!({"kty": "OKP", "crv": self.of(&["Ed25519", "Ed25519", "X25519", "Ed448"]), "x": self.bytes()}),
            1 => json!({"kty": "EC", "crv": self.of(&["P-256", "secp256k1", "P-384"]), "x": self.bytes(), "y": self.bytes(), "alg": "EdDSA"}),
            2 => json!({"kty": "EC", "crv": self.of(&["P-256", "secp256k1", "P-384", "Ed25519"]), "x": self.bytes(), "y": self.bytes()}),
            3 => json!({"kty": "EC", "crv": "P-256", "y": self.bytes(), "alg": "EdDSA"}),
            4 => json!({"kty": "RSA", "n": self.bytes(), "e": "AQAB"}),
            _ => json!({"kty": "oct", "k": self.bytes()}),
        };
        let m = k.as_object_mut().unwrap();
        if !m.contains_key("alg") && self.p(30) {
            m.insert("alg".into(), json!(self.of(&["EdDSA", "ES256", "ES256K", "ES384", "RS256", "PS256", "HS256", "none", "ES512"])));
        }
        if kind == 0 && self.p(15) { m.insert("d".into(), json!(self.bytes())); }
        if self.p(10) { m.insert("kid".into(), json!(self.plain())); }
        k
    }

    /// a DID document and a key id that selects one of its methods
    fn doc(&mut self, good: bool) -> (Value, String) {
        let did = match self.n(10) {
            4 => "did:web:localhost%3A8080:Users:Bob".to_owned(),
            5 => "did:example:ABC-def_1.2%20x".to_owned(),
            6 => { let k = 1 + self.n(80); format!("did:example:{}", "Ab9".repeat(k)) }
            0 => "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK".to_owned(),
            1 => "did:web:issuer.example:user:alice".to_owned(),
            2 => "did:example:a.b.c".to_owned(),
            3 => { let w = self.n(1000); format!("did:example:{w}") }
            _ => "did:example:ebfeb1f712ebc6f1c276e12ec21".to_owned(),
        };
        let k = 1 + self.n(3);
        let pick = self.n(k);
        let mut vms = vec![];
        let mut kid = String::new();
        for i in 0..k {
            let frag = match self.n(5) { 0 => format!("keys/{i}"), 1 => format!("{i}.x"), _ => format!("key-{i}") };
            let full = format!("{did}#{frag}");
            let id = full.clone();
            let mut vm = json!({"id": id, "type": self.of(&["JsonWebKey2020", "Ed25519VerificationKey2018", "EcdsaSecp256k1VerificationKey2019"]), "controller": did});
            if i == pick { kid = full; }
            let g = good && i == pick;
            if self.p(85) || g {
                vm["publicKeyJwk"] = self.jwk(g);
            } else if self.p(50) {
                vm["type"] = json!("Ed25519VerificationKey2018");
                vm["publicKeyBase58"] = json!("H3C2AVvLMv6gmMNam3uVAjZpfkcJCwDwnZn6z3wXmqPV");
            }
            vms.push(vm);
        }
        let mut d = json!({"@context": "https://www.w3.org/ns/did/v1", "id": did});
        if self.p(85) { d["verificationMethod"] = json!(vms); } else { d["assertionMethod"] = json!(vms); }
        if self.p(20) { d["authentication"] = json!([kid]); }
        (d, kid)
    }

    // ------------------------------------------------------------ proof JWTs
    fn when(&mut self, now: (i64, i64), past: Option<bool>) -> String {
        // a moment near now, at any of the scales at which a comparison may be wrong
        let secs = [0i64, 0, 0, 1, 59, 60, 61, 299, 300, 301, 3599, 3600, 3601, 86399, 86400, 86401, 31536000, 1_000_000_000];
        let nan = [0i64, 1, 999, 1_000, 1_000_000, 500_000_000, 999_999_999];
        let mut ds = secs[self.n(secs.len())];
        if self.p(20) { ds = (self.pick() % 4_000_000_000) as i64; }
        let dn = nan[self.n(nan.len())];
        let sg = match past { Some(true) => -1, Some(false) => 1, None => [-1, 1][self.n(2)] };
        let t = (now.0 as i128 * 1_000_000_000 + now.1 as i128 + sg * (ds as i128 * 1_000_000_000 + dn as i128)).clamp(-60_000_000_000 * 1_000_000_000, 250_000_000_000 * 1_000_000_000);
        let (a, b) = (t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as u32);
        let d = time(&json!([a, b])).unwrap();
        match self.n(8) {
            0 => d.with_timezone(&chrono::FixedOffset::east_opt(3600 * 5 + 1800).unwrap()).to_rfc3339(),
            _ => d.format("%Y-%m-%dT%H:%M:%S%.9fZ").to_string(),
        }
    }

    fn now(&mut self) -> (i64, i64) {
        let b = match self.n(12) { 0 => 0, 1 => 253402300799, 2 => 4102444800, 3 => self.n(4_000_000_000) as i64, _ => 1_700_000_000 };
        (b, [0, 0, 1, 500_000_000, 999_999_999, 123_456_789][self.n(6)])
    }

    fn text(&mut self, v: &Value) -> String {
        let t = v.to_string();
        match self.n(12) {
            0 => serde_json::to_string_pretty(v).unwrap_or(t),
            1 => format!(" {t}\n"),
            _ => t,
        }
    }

    fn header(&mut self, kid: Option<String>) -> Value {
        let alg = self.of(&["EdDSA", "ES256", "ES256K", "EdDSA", "RS256", "PS512", "ES384", "ECDH-ES", "RS384", "RS512", "ES512", "PS256", "PS384"]);
        let mut h = json!({"typ": "openid4vci-proof+jwt", "alg": alg});
        if let Some(k) = kid { h["kid"] = json!(k); }
        h
    }

    fn join(&mut self, h: &Value, b: &Value, sig: Option<String>) -> String {
        let (h, b) = (self.text(h), self.text(b));
        let mut r = format!("{}.{}", b64e(h.as_bytes()), b64e(b.as_bytes()));
        if let Some(s) = sig {
            r.push('.');
            r.push_str(&s);
        }
        r
    }

    fn sig(&mut self) -> Option<String> {
        match self.n(12) {
            0 => None,
            1 => Some(String::new()),
            2 => Some(self.string().replace('.', "")),
            3 => Some("NOT_A_VALID_SIG".into()),
            4 => Some("a+/=".into()),
            _ => { let b = self.bytes(); Some(b) }
        }
    }

    fn corrupt(&mut self, t: &str) -> String {
        let p: Vec<&str> = t.split('.').collect();
        match self.n(22) {
            18..=21 => self.wrapped(&p),
            16 => { let l = self.huge(); format!("{t}{}", ".".repeat(l)) }
            17 => { let l = self.huge(); t.replacen('.', &".".repeat(l), 1) }
            0 => format!("{t}."),
            1 => format!("{t}.x"),
            2 => p[0].to_owned(),
            3 => p[..p.len() - 1].join("."),
            4 => format!(".{t}"),
            5 => format!("{}=.{}", p[0], p[1..].join(".")),
            6 => t.replace('_', "/").replace('-', "+"),
            7 => format!("{t} "),
            8 => format!(" {t}"),
            9 => { let mut v = p.clone(); v.reverse(); v.join(".") }
            10 => { let i = self.n(p.len()); let mut v: Vec<String> = p.iter().map(|x| x.to_string()).collect(); v[i] = self.near(&p[i].to_owned()); v.join(".") }
            11 => t.replacen('.', "", 1),
            12 => t.replacen('.', "..", 1),
            13 => { let x = self.string(); b64e(x.as_bytes()) + "." + &p[1..].join(".") }
            14 => { let x = self.any(2).to_string(); format!("{}.{}", p[0], b64e(x.as_bytes())) }
            _ => self.string(),
        }
    }

    /// the bytes of a header or body that are almost its JSON
    fn wrapped(&mut self, p: &[&str]) -> String {
        let i = self.n(p.len().min(2));
        let t = String::from_utf8(b64d(p[i]).unwrap_or_default()).unwrap_or_default();
        let c = char::from_u32(if self.p(50) { self.n(33) as u32 } else { [0xfeff, 0xa0, 0x200b, 0x2028, 0x3000, 0x7f, 0x85][self.n(7)] }).unwrap();
        let w = self.word();
        let b: Vec<u8> = match self.n(20) {
            0 | 1 => format!("\u{feff}{t}").into_bytes(),
            2 => format!("{c}{t}").into_bytes(),
            3 => format!("{t}{c}").into_bytes(),
            4 => format!("{w}{t}").into_bytes(),
            5 => format!("{t}{w}").into_bytes(),
            6 => format!("{t}{t}").into_bytes(),
            7 => format!("[{t}]").into_bytes(),
            8 => json!(t).to_string().into_bytes(),
            9 => t.replacen('}', ",}", 1).into_bytes(),
            10 => t.replace('"', "'").into_bytes(),
            11 => format!("/* */{t}// \n").into_bytes(),
            12 => t.encode_utf16().flat_map(|x| x.to_le_bytes()).collect(),
            13 => t.trim_end_matches('}').as_bytes().to_vec(),
            14 => b64e(t.as_bytes()).into_bytes(),
            15 => { let mut b = t.into_bytes(); let k = self.n(b.len() + 1); b.insert(k, [0, 0xff, 0x80, 0xc0][self.n(4)]); b }
            16 => { let mut b = vec![[0xff, 0xfe, 0x80, 0x1f][self.n(4)]]; b.extend(t.bytes()); b }
            17 => { let mut b = t.into_bytes(); b.push([0xff, 0xfe, 0x80, 0][self.n(4)]); b }
            18 => format!("{t};").into_bytes(),
            _ => t.trim_matches(|c| c == '{' || c == '}').as_bytes().to_vec(),
        };
        let mut v: Vec<String> = p.iter().map(|x| x.to_string()).collect();
        v[i] = b64e(&b);
        v.join(".")
    }

    /// a value of a header or body changed in one member
    fn damage(&mut self, v: &mut Value) {
        let m = v.as_object_mut().unwrap();
        let ks: Vec<String> = m.keys().cloned().collect();
        let k = ks[self.n(ks.len())].clone();
        match self.n(6) {
            0 => { m.remove(&k); }
            1 => { let x = self.any(1); m.insert(k, x); }
            2 => { let x = m.remove(&k).unwrap(); let k = self.near(&k); m.insert(k, x); }
            3 => { let n = self.string(); let x = self.any(1); m.insert(n, x); }
            4 => { m.insert(k, Value::Null); }
            _ => { if let Some(t) = m[&k].as_str().map(|t| t.to_owned()) { let t = self.near(&t); m.insert(k, json!(t)); } }
        }
    }

    fn cased(&mut self, t: &str) -> String {
        t.chars().map(|c| if self.p(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
    }

    // ------------------------------------------------------------ cases
    pub fn case(&mut self, kind: &str) -> Value {
        match kind {
            "token" => self.token(),
            "cred" => self.cred(),
            "pre" => self.pre_case(),
            "resp" => self.resp(),
            "jwt" => self.jwt_case(),
            "meta" => {
                let i = self.plain();
                let mut m = self.meta(&i, false);
                if self.p(30) {
                    // long lists with one repetition at a random place
                    let k = 2 + self.small() * 8;
                    let mut cs: Vec<Value> = (0..k).map(|j| { let mut f = self.fmt(); f["id"] = if self.p(80) { json!(format!("c{j}")) } else { Value::Null }; f }).collect();
                    if self.p(50) {
                        let (a, b) = (self.n(k), self.n(k));
                        cs[a]["id"] = cs[b]["id"].clone();
                    }
                    m["credentials_supported"] = Value::Array(cs);
                }
                json!({"kind": "meta", "meta": m})
            }
            "offer" => self.offer_case(),
            "tokenresp" => {
                let c = self.now();
                json!({"kind": "tokenresp", "now": [c.0, c.1], "access_token": self.string(), "expires_in": self.u32(), "scope": self.str_or_null(), "c_nonce": self.str_or_null(), "c_nonce_expires_in": self.u32(),
                    "authorization_pending": self.maybe(60, |g| json!(g.p(50))), "interval": self.u32()})
            }
            "errresp" => json!({"kind": "errresp", "side": self.of(&["token", "issuer"]), "code": self.n(16), "description": self.str_or_null(), "uri": self.str_or_null(),
                "details": self.maybe(60, |g| if g.p(5) { json!({"$null": true}) } else if g.p(80) { let k = g.n(4); Value::Object((0..k).map(|_| (g.string(), g.any(2))).collect()) } else { g.any(2) })}),
            "codes" => {
                let b = self.of(&["invalid_request", "invalid_grant", "invalid_client", "access_denied", "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable", "invalid_token",
                    "unsupported_credential_type", "unsupported_credential_format", "invalid_or_missing_proof", "Bearer", "bearer", "InvalidRequest", "InvalidOrMissingProof", "unauthorized_client", "slow_down", "invalid_proof"]).to_owned();
                let t = match self.n(4) { 0 => self.near(&b), 1 => self.string(), 2 => self.cased(&b), _ => b };
                json!({"kind": "codes", "s": t})
            }
            "errors" => json!({"kind": "errors", "n": self.n(221), "strings": [self.str_or_null(), self.str_or_null(), self.str_or_null()], "times": [[self.n(4_000_000_000usize), self.n(1_000_000_000)], [self.n(4_000_000_000usize), 0]],
                "flags": [self.p(50), self.p(50)], "format": self.fmt(), "warnings": if self.p(10) { let l = self.huge().min(2000); json!(vec!["w"; l]) } else { self.strings() }}),
            "json" => self.json_case(),
            "wire" => self.wire_case(),
            _ => self.key_case(),
        }
    }

    fn u32(&mut self) -> Value {
        self.maybe(60, |g| json!(g.int() as u32))
    }

    fn token(&mut self) -> Value {
        let code = self.plain();
        let required = self.p(50);
        let mut pin = if required { let x = self.int(); json!(if self.p(60) { x % 100_000_000 } else { x }) } else { Value::Null };
        let mut exp = pin.clone();
        let mut pre = json!({"pre-authorized_code": code});
        if required || self.p(50) { pre["user_pin_required"] = json!(required); }
        let mut offer = self.offer(false, false);
        offer["grants"][PRE] = pre;
        if self.p(25) { offer["grants"]["authorization_code"] = self.auth(); }
        let mut c2 = code.clone();
        let mut grant = "pre";
        let mut opts = true;
        for _ in 0..self.n(4) {
            match self.n(12) {
                0 => c2 = self.near(&code),
                1 => exp = json!(self.int()),
                2 => pin = self.maybe(70, |g| json!(g.int())),
                3 => exp = Value::Null,
                4 => opts = false,
                5 => if self.p(40) { grant = "auth" },
                6 => if self.p(30) { offer = Value::Null },
                7 => { if offer.is_object() { if let Some(g) = offer["grants"].as_object_mut() { g.remove(PRE); } } }
                8 => if offer.is_object() { offer["grants"]["authorization_code"] = self.auth() },
                9 => if offer.is_object() { let b = self.maybe(70, |g| json!(g.p(50))); if offer["grants"][PRE].is_object() { offer["grants"][PRE]["user_pin_required"] = b } },
                10 => { if let (Some(a), true) = (pin.as_u64(), self.p(50)) { exp = json!(match self.n(5) { 0 => a.wrapping_add(1), 1 => a.wrapping_sub(1), 2 => a % 10_000, 3 => a.wrapping_add(1 << 32), _ => a ^ (1 << self.n(64)) }) } else { exp = pin.clone() } }
                _ => { pin = json!(self.int()); exp = pin.clone(); if offer.is_object() && offer["grants"][PRE].is_object() { offer["grants"][PRE]["user_pin_required"] = json!(true) } }
            }
        }
        json!({"kind": "token", "request": {"grant": grant, "code": c2, "pin": pin}, "offer": offer, "opts": if opts { json!({"pin": exp}) } else { Value::Null }})
    }

    fn jwt_case(&mut self) -> Value {
        let now = self.now();
        let kid = if self.p(80) { Some(self.doc(true).1) } else { None };
        let mut h = self.header(kid);
        if self.p(20) { let a = self.string(); self.key_header(&mut h, a); }
        if self.p(15) { h["alg"] = json!(self.of(&ALGS)); }
        if self.p(15) { h["typ"] = json!(self.typ()); }
        let mut b = json!({"aud": self.plain(), "iat": self.when(now, None), "nonce": self.plain()});
        if self.p(50) { b["iss"] = json!(self.plain()); }
        if self.p(30) { b["sub"] = json!(self.plain()); }
        if self.p(50) { let d = if self.p(60) { Some(true) } else { None }; b["nbf"] = json!(self.when(now, d)); }
        if self.p(50) { let d = if self.p(60) { Some(false) } else { None }; b["exp"] = json!(self.when(now, d)); }
        let (nonce, iss, aud) = (b["nonce"].clone(), b["iss"].clone(), b["aud"].clone());
        if self.p(12) { self.damage(&mut h); }
        if self.p(12) { self.damage(&mut b); }
        let sg = self.sig();
        let mut t = self.join(&h, &b, sg);
        if self.p(20) { t = self.corrupt(&t); }
        let nonce = if self.p(40) { let n = nonce.as_str().unwrap_or("").to_owned(); self.maybe(85, |g| json!(g.near(&n))) } else { nonce };
        let iss = if self.p(40) { let n = iss.as_str().unwrap_or("").to_owned(); self.maybe(75, |g| json!(g.near(&n))) } else { iss };
        let aud = if self.p(40) { let n = aud.as_str().unwrap_or("").to_owned(); json!(self.near(&n)) } else { aud };
        json!({"kind": "jwt", "now": [now.0, now.1], "step": self.step(), "jwt": t, "nonce": nonce, "iss": iss, "aud": aud})
    }

    fn typ(&mut self) -> String {
        match self.n(5) {
            0 => self.cased("openid4vci-proof+jwt"),
            1 | 2 => self.near("openid4vci-proof+jwt"),
            3 => "JWT".to_owned(),
            _ => self.string(),
        }
    }

    fn step(&mut self) -> i64 {
        if self.p(85) { 0 } else { [1, 1000, 1_000_000, 1_000_000_000][self.n(4)] }
    }

    fn key_header(&mut self, h: &mut Value, kid: String) {
        let m = h.as_object_mut().unwrap();
        m.remove("kid");
        match self.n(6) {
            0 => {}
            1 => { let k = self.jwk(true).to_string(); m.insert("jwk".into(), json!(k)); }
            2 => { m.insert("x5c".into(), json!(self.string())); }
            3 => { m.insert("kid".into(), json!(self.near(&kid))); }
            4 => { let l = 40 + self.n(60); let s = match self.n(5) { 0 => format!("{}{}", "x".repeat(l), self.of(&["é", "日本語", "𝄞", "🙂🙂"])), 1 => format!("{kid}{}", "ß".repeat(l)), 2 => kid.replace('#', self.of(&["#é", "/a/b#", "?v=1&w=2#", ";p=1#", "%23", "", "##"])), _ => self.string() }; m.insert("kid".into(), json!(s)); }
            _ => { let k = self.doc(true).1; m.insert("kid".into(), json!(k)); }
        }
    }

    fn cred(&mut self) -> Value {
        let now = self.now();
        let issuer = self.plain();
        let nonce = self.plain();
        let mut meta = self.meta(&issuer, true);
        let (mut doc, kid) = self.doc(true);
        let mut h = self.header(Some(kid.clone()));
        let client = self.maybe(50, |g| json!(g.plain()));
        let mut b = json!({"aud": issuer, "iat": self.when(now, None), "nonce": nonce});
        let auth = self.p(30);
        let prea = !auth || self.p(50);
        if let Some(c) = client.as_str() { b["iss"] = json!(c); } else if !auth && prea && self.p(50) { b["iss"] = json!(self.plain()); }
        if self.p(30) { b["sub"] = json!(self.plain()); }
        if self.p(30) { b["nbf"] = json!(self.when(now, Some(true))); }
        if self.p(30) { b["exp"] = json!(self.when(now, Some(false))); }
        let mut offer = self.offer(auth, prea);
        let mut ptype = if self.p(60) { "jwt".to_owned() } else { self.cased("jwt") };
        if self.p(30) { h["typ"] = json!(self.cased("openid4vci-proof+jwt")); }
        // lifetime: created + expires_in is now or later
        let life = match self.n(8) { 0 => 0, 1 => u32::MAX, 2 => (self.pick() % (u32::MAX as u64)) as u32, 3 => 86400, 4 => 300, 5 => 1, _ => self.n(100_000) as u32 };
        let slack = match self.n(5) { 0 => 0, 1 => 1, 2 => 1_000_000_000, _ => self.n(1_000_000_000_000) as i128 };
        let at = now.0 as i128 * 1_000_000_000 + now.1 as i128 - life as i128 * 1_000_000_000 + slack;
        let t = |x: i128| json!([x.div_euclid(1_000_000_000) as i64, x.rem_euclid(1_000_000_000) as i64]);
        let mut cn = json!({"expires_in": life, "expected": nonce, "created": t(at)});
        let mut client = client;
        let mut fmt = self.fmt();
        let (mut asm, mut opts, mut proof) = (false, true, true);
        let mut sg = if self.p(92) { Some(self.bytes()) } else { self.sig() };
        let mut bad = None;
        let k = match self.n(10) { 0..=2 => 0, 3..=7 => 1, 8 => 2, _ => 3 };
        for _ in 0..k {
            match self.n(27) {
                0 => ptype = match self.n(4) { 0 => String::new(), 1 => self.near("jwt"), 2 => self.string(), _ => self.near("JWT") },
                1 => h["typ"] = json!(self.typ()),
                2 => h["alg"] = json!(self.of(&ALGS)),
                3 => self.key_header(&mut h, kid.clone()),
                4 => { let i = b["iss"].as_str().unwrap_or("client").to_owned(); b["iss"] = json!(self.near(&i)); }
                5 => { b.as_object_mut().unwrap().remove("iss"); }
                6 => b["aud"] = json!(self.near(&issuer)),
                7 => b["nonce"] = json!(self.near(&nonce)),
                8 => b["nbf"] = json!(self.when(now, None)),
                9 => b["exp"] = json!(self.when(now, None)),
                10 => {
                    let d = match self.n(8) { 0 => 1, 1 => 1_000_000, 2 => 999_999_999, 3 => 1_000_000_000, 4 => 1_000_000_001, 5 => 0, 6 => (self.pick() % 100_000_000_000) as i128 * 1_000_000_000, _ => self.n(1_000_000_000_000) as i128 };
                    cn["created"] = t(at - slack - d);
                }
                11 => cn["expires_in"] = json!(self.int() as u32),
                12 => { let n = nonce.clone(); cn["expected"] = json!(self.near(&n)); }
                13 => client = self.maybe(60, |g| json!(g.plain())),
                14 => { let c = client.as_str().unwrap_or("client").to_owned(); client = json!(self.near(&c)); }
                15 => { let (x, y) = (self.p(50), self.p(50)); offer["grants"] = self.grants(x, y); }
                16 => if self.p(40) { offer = Value::Null },
                17 => asm = self.p(60),
                18 => { meta = self.meta(&issuer, false); }
                19 => match self.n(5) { 0 => doc = Value::Null, 1 => doc = self.doc(true).0, 2 => doc = self.doc(false).0, 3 => { doc["id"] = json!("did:example:other"); }, _ => { let (d, k2) = self.doc(false); doc = d; h["kid"] = json!(k2); } },
                20 => if self.p(50) { cn = Value::Null } else { opts = false },
                21 => if self.p(40) { proof = false },
                22 => bad = Some(true),
                23 => { if self.p(50) { self.damage(&mut h) } else { self.damage(&mut b) } }
                24 => sg = self.sig(),
                25 => { fmt = self.fmt(); }
                _ => { b["iat"] = json!(self.when(now, None)); }
            }
            if offer.is_null() { break; }
        }
        let mut j = self.join(&h, &b, sg);
        if bad.is_some() { j = self.corrupt(&j); }
        json!({"kind": "cred", "now": [now.0, now.1], "step": self.step(), "meta": meta, "request": {"format": fmt, "proof": if proof { json!({"proof_type": ptype, "jwt": j}) } else { Value::Null }},
            "offer": offer, "asm": asm, "doc": doc, "opts": if opts { json!({"c_nonce": cn, "client_id": client}) } else { Value::Null }})
    }

    fn pre_case(&mut self) -> Value {
        let mut c = self.cred();
        let m = c.as_object_mut().unwrap();
        m.insert("kind".into(), json!("pre"));
        c
    }

    fn resp(&mut self) -> Value {
        let mut c = self.cred();
        if self.p(40) { c["request"]["proof"] = Value::Null; }
        let k = self.n(5);
        json!({"kind": "resp", "now": c["now"], "request": c["request"], "credential": if k < 3 { self.fmt() } else { Value::Null }, "token": if k == 3 { json!(self.string()) } else { Value::Null },
            "c_nonce": self.maybe(60, |g| json!({"c_nonce": g.string(), "c_nonce_expires_in": g.u32()}))})
    }

    fn offer_case(&mut self) -> Value {
        let i = self.plain();
        let u = self.p(85);
        let m = self.meta(&i, u);
        let ids: Vec<String> = m["credentials_supported"].as_array().unwrap().iter().filter_map(|c| s(&c["id"])).collect();
        let k = self.small();
        let cs: Vec<Value> = (0..k).map(|_| self.coi(&ids)).collect();
        let end = self.maybe(50, |g| if g.p(60) { json!(g.of(&["https://wallet.example/offer", "https://wallet.example/offer?x=y", "https://wallet.example", "haip://", ""])) } else { json!(g.string()) });
        json!({"kind": "offer", "meta": m, "credentials": cs, "auth": self.maybe(12, |g| g.auth()), "pre": self.maybe(75, |g| g.pre()), "endpoint": end, "via": self.n(3)})
    }

    fn json_case(&mut self) -> Value {
        let t = self.of(&["credential", "credential", "subject", "credential or id", "auth", "pre", "grants", "offer", "metadata", "metadata", "supported", "supported", "request", "proof", "header", "body"]);
        let (x, y) = (self.p(50), self.p(70));
        let v = match t {
            "credential" => self.fmt(),
            "subject" => self.subject(),
            "credential or id" => self.coi(&[]),
            "auth" => self.auth(),
            "pre" => self.pre(),
            "grants" => self.grants(x, y),
            "offer" => self.offer(x, y),
            "metadata" => { let i = self.plain(); self.meta(&i, false) }
            "supported" => self.supported(&mut vec![]),
            "request" => json!({"format": self.fmt(), "proof": self.maybe(60, |g| json!({"proof_type": g.string(), "jwt": g.string()}))}),
            "proof" => json!({"proof_type": self.string(), "jwt": self.string()}),
            "header" => {
                let mut h = self.header(None);
                h["typ"] = json!(self.string());
                h["alg"] = json!(self.of(&ALGS));
                match self.n(4) { 0 => h["kid"] = json!(self.string()), 1 => h["jwk"] = json!(self.string()), 2 => h["x5c"] = json!(self.string()), _ => {} }
                h
            }
            _ => {
                let now = self.now();
                let mut b = json!({"aud": self.string(), "iat": self.when(now, None), "nonce": self.string()});
                if x { b["iss"] = json!(self.string()); }
                if y { b["sub"] = json!(self.string()); }
                if self.p(50) { b["nbf"] = json!(self.when(now, None)); }
                if self.p(50) { b["exp"] = json!(self.when(now, None)); }
                b
            }
        };
        json!({"kind": "json", "type": t, "value": v})
    }

    fn wire_case(&mut self) -> Value {
        let t = self.of(&["token request", "grant", "token options", "nonce", "options", "options", "pre evaluation", "evaluation", "evaluation", "return object", "return object"]);
        let (x, y, z) = (self.p(50), self.p(60), self.p(70));
        let now = self.now();
        let pin = match self.n(4) { 0 => 0, 1 => self.n(100_000_000) as u64, 2 => self.next(), _ => 99_999_999 };
        let v = match t {
            "token request" | "grant" => {
                if self.p(15) { json!({"grant_type": "authorization_code"}) } else {
                    let mut g = json!({"grant_type": PRE, "pre_authorized_code": self.string()});
                    if x { g["user_pin"] = json!(pin); }
                    g
                }
            }
            "token options" => if x { json!({"expected_user_pin": pin}) } else { json!({}) },
            "nonce" => {
                let mut n = json!({"c_nonce": self.string()});
                if x { n["c_nonce_expires_in"] = json!(pin as u32); }
                n
            }
            "options" => {
                let n = if y { json!({"expires_in": pin as u32, "expected": self.string(), "created": [now.0, now.1]}) } else { Value::Null };
                json!({"c_nonce": n, "client_id": self.maybe(60, |g| json!(g.string()))})
            }
            "pre evaluation" => if z { json!({"did": self.string()}) } else { json!({}) },
            "evaluation" => json!({"credential": self.fmt(), "proof": y, "algorithm": self.of(&ALGS), "subject_id": self.maybe(60, |g| json!(g.string())),
                "public_key": self.string(), "message": self.string(), "signature": self.string()}),
            _ => {
                let mut e = Value::Null;
                if y {
                    e = json!({"code": pin as u32, "name": self.string(), "description": self.string()});
                    if x { e["additional_information"] = json!({"reason": self.string(), "n": [1, null]}); }
                }
                json!({"info": self.maybe(50, |g| json!(g.string())), "error": e, "warnings": if z { self.strings() } else { Value::Null }})
            }
        };
        json!({"kind": "wire", "type": t, "value": v})
    }

    fn key_case(&mut self) -> Value {
        let by = self.of(&["kid", "kid", "jwk", "jwk", "x5c", "none"]);
        let good = self.p(40);
        let (mut doc, kid) = self.doc(good);
        if self.p(8) { doc = Value::Null; }
        let key = match by {
            "kid" => if self.p(85) { kid } else { self.near(&kid) },
            "jwk" => if self.p(90) { let g = self.p(40); self.jwk(g).to_string() } else { self.string() },
            _ => self.string(),
        };
        json!({"kind": "key", "by": by, "key": key, "alg": self.of(&ALGS), "doc": doc})
    }
}
