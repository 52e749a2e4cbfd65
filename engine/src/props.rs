//! The properties: which obligations decide each, and how a verdict is reported.
use crate::json::{esc, J};
use crate::lemmas::{self, Cfg};
use crate::mir::Prog;
use crate::prove::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub struct Spec {
    pub id: &'static str,
    pub lemmas: &'static [&'static str],
    pub level: &'static str,
    pub rule: &'static str,
    pub need: &'static [&'static str],
    /// also report secret-dependent control flow (kinds that are tolerated)
    pub kind: Kind,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// obligations, and panics inside the documented domain
    Function,
    Timing,
    Panics,
    Pure,
    Memory,
    Opaque,
}
const ALL: &[&str] = &["sha", "hmac", "pbkdf2", "salsa", "scrypt", "params", "aesenc", "aesdec", "aeslife", "cipher", "decipher", "decend", "cbclife"];
const SHA: &[&str] = &["sha256::SHA256::new", "sha256::SHA256::update", "sha256::SHA256::digest"];
const HM: &[&str] = &["hmac::HMac::new", "hmac::HMac::update", "hmac::HMac::digest", "sha256::SHA256::update"];
const PB: &[&str] = &["pbkdf2::pbkdf2_sha256", "hmac::HMac::update"];
const SA: &[&str] = &["salsa20::salsa20"];
const SC: &[&str] = &["scrypt::Scrypt::new", "scrypt::Scrypt::derive"];
const AE: &[&str] = &["aes::AES::new", "aes::AES::init", "aes::AES::encrypt", "aes::AES::decrypt"];
const CI: &[&str] = &["aes_cbc::Cipher::new", "aes_cbc::Cipher::init", "aes_cbc::Cipher::write", "aes_cbc::Cipher::flush"];
const DE: &[&str] = &["aes_cbc::Decipher::new", "aes_cbc::Decipher::init", "aes_cbc::Decipher::write", "aes_cbc::Decipher::flush"];
const EVERY: &[&str] = &[
    "sha256::SHA256::update", "hmac::HMac::update", "pbkdf2::pbkdf2_sha256", "salsa20::salsa20", "scrypt::Scrypt::derive", "aes::AES::encrypt", "aes_cbc::Cipher::write", "aes_cbc::Decipher::flush",
];
pub const SPECS: &[Spec] = &[
    Spec { id: "C01", lemmas: &["sha"], level: "proof", rule: "abstract transformer of update/digest over an inductive state template equals the FIPS 180-4 transformer", need: SHA, kind: Kind::Function },
    Spec { id: "C02", lemmas: &["hmac", "hmaci", "sha"], level: "proof", rule: "RFC 2104 normal form over the hash contract; the hash contract by the SHA-256 obligations", need: HM, kind: Kind::Function },
    Spec { id: "C03", lemmas: &["pbkdf2", "hmac", "sha"], level: "proof", rule: "RFC 8018 normal form over the PRF contract; the PRF contract by the HMAC and SHA-256 obligations", need: PB, kind: Kind::Function },
    Spec { id: "C04", lemmas: &["salsa"], level: "proof", rule: "value-numbered output equals the Salsa20 core definition", need: SA, kind: Kind::Function },
    Spec { id: "C05", lemmas: &["scrypt", "pbkdf2", "hmac", "sha", "salsa"], level: "proof", rule: "RFC 7914 normal form over the PBKDF2 and Salsa20 contracts, and those contracts", need: SC, kind: Kind::Function },
    Spec { id: "C06", lemmas: &["params"], level: "proof", rule: "condition under which control reaches the first primitive equals the documented acceptance condition; output written only there", need: SC, kind: Kind::Function },
    Spec { id: "C07", lemmas: &["aesenc"], level: "proof", rule: "value-numbered ciphertext equals the FIPS 197 cipher, tables as GF(2) functions", need: AE, kind: Kind::Function },
    Spec { id: "C08", lemmas: &["aesdec", "aesinv"], level: "proof", rule: "value-numbered cleartext equals the FIPS 197 inverse cipher; both compositions reduce to the identity", need: AE, kind: Kind::Function },
    Spec { id: "C09", lemmas: &["aeslife", "cbclife"], level: "proof", rule: "typestate of the key over {none, present} and every key length", need: AE, kind: Kind::Function },
    Spec { id: "C10", lemmas: &["cipher", "aesenc"], level: "proof", rule: "one-step simulation: any call maps the abstract state (chaining value, pending bytes) as CBC with PKCS#7 does", need: CI, kind: Kind::Function },
    Spec { id: "C11", lemmas: &["decipher", "decend", "aesdec", "aesinv"], level: "proof", rule: "one-step simulation for deciphering over (chaining value, held-back block, pending bytes)", need: DE, kind: Kind::Function },
    Spec { id: "C12", lemmas: &["decend"], level: "proof", rule: "outcome and residual state of the end of a message for every final cleartext byte and every amount of pending ciphertext", need: DE, kind: Kind::Function },
    Spec { id: "C13", lemmas: &["padding"], level: "proof", rule: "taint with conditions: every control decision of the padding check is a function of (final byte, verdict)", need: DE, kind: Kind::Function },
    Spec { id: "C14", lemmas: &["sha", "hmac", "pbkdf2", "salsa", "scrypt"], level: "proof", rule: "taint: no branch, loop bound, panic condition or address depends on a secret input", need: EVERY, kind: Kind::Timing },
    Spec { id: "C15", lemmas: &[], level: "proof", rule: "effect analysis over the resolved call graph and the types of all statics and structures", need: EVERY, kind: Kind::Pure },
    Spec { id: "C16", lemmas: ALL, level: "proof", rule: "every assertion, bound check and unwrap reached in the documented domain is discharged", need: EVERY, kind: Kind::Panics },
    Spec { id: "C17", lemmas: &[], level: "proof", rule: "no construct outside the memory-safe subset in any body, item or callee", need: EVERY, kind: Kind::Memory },
    Spec { id: "C18", lemmas: &[], level: "proof", rule: "escape analysis of the fields of state-bearing types through visibility and formatting traits", need: EVERY, kind: Kind::Opaque },
];
pub fn jobs(n: &str, cfg: Cfg) -> Vec<Job> {
    match n {
        "sha" => lemmas::sha_jobs(cfg),
        "hmac" => lemmas::hmac_jobs(cfg),
        "hmaci" => lemmas::hmac_inline_jobs(),
        "pbkdf2" => lemmas::pbkdf2_jobs(cfg),
        "salsa" => lemmas::salsa_jobs(cfg),
        "scrypt" => lemmas::scrypt_jobs(cfg),
        "aesenc" => lemmas::aes_jobs("enc"),
        "aesdec" => lemmas::aes_jobs("dec"),
        "aesinv" => lemmas::aes_jobs("inv"),
        "aeslife" => lemmas::aes_life_jobs(),
        "cipher" => lemmas::cipher_jobs(cfg),
        "decipher" => lemmas::decipher_jobs(cfg),
        "decend" => lemmas::decipher_end_jobs(cfg),
        "cbclife" => lemmas::cbc_life_jobs(),
        "params" => lemmas::scrypt_param_jobs(cfg),
        "padding" => lemmas::padding_timing_jobs(),
        _ => panic!("no lemma {}", n),
    }
}
struct Report {
    viol: BTreeMap<String, String>,
    open: BTreeMap<String, String>,
    obligations: usize,
    discharged: usize,
    samples: Vec<String>,
    counts: BTreeMap<&'static str, u64>,
    funs: BTreeSet<String>,
}
impl Report {
    fn rule(&mut self, key: String, bad: Option<String>) {
        self.obligations += 1;
        match bad {
            None => {
                self.discharged += 1;
                if self.samples.len() < 8 {
                    self.samples.push(key);
                }
            }
            Some(x) => {
                self.viol.insert(key, x);
            }
        }
    }
    fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
}
fn strs(j: &J) -> Vec<String> {
    j.arr().iter().map(|x| x.st().to_string()).collect()
}
/// path prefixes whose use makes a result depend on something other than the arguments
const IMPURE: &[&str] = &[
    "std::env", "std::fs", "std::io", "std::net", "std::os", "std::process", "std::thread", "std::time", "std::sync::Mutex", "std::sync::RwLock", "std::sync::atomic", "core::sync::atomic", "std::sync::mpsc", "std::sync::Condvar",
    "std::collections::HashMap", "std::collections::HashSet", "std::collections::hash_map", "std::collections::hash_set", "std::hash::RandomState", "std::random", "core::time", "std::cell", "core::cell", "std::backtrace",
    "std::panic::catch_unwind", "std::panic::set_hook", "std::panic::take_hook", "std::panic::Location", "core::arch", "std::arch", "std::ptr::addr_of", "std::alloc", "std::sync::OnceLock", "std::sync::Once", "std::any",
];
/// ways in which a result could depend on where data happens to lie in memory
const ADDRESS: &[&str] = &["Argument::<'_>::new_pointer", "::const_ptr::", "::mut_ptr::", "::align_offset", "::align_to", "std::ptr::hash", "std::ptr::addr_eq", "std::vec::Vec::<u8>::capacity"];
const RAW: &[&str] = &["std::ptr", "core::ptr", "std::mem::transmute", "core::mem::transmute", "std::mem::MaybeUninit", "core::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::alloc", "std::arch", "core::arch", "std::intrinsics", "core::intrinsics"];
fn under(path: &str, pre: &str) -> bool {
    let p = path.trim_start_matches('<');
    let p = p.trim_start_matches("impl ");
    p == pre || p.starts_with(&format!("{}::", pre))
}
fn structural(p: &Prog, kind: Kind, r: &mut Report) {
    let f = &p.facts;
    let fns = f.get("fns").arr();
    let mut sites = 0u64;
    for x in fns {
        let name = x.get("name").st();
        let at = format!("{} ({}:{})", name, x.get("file").st(), x.get("line").us());
        let k = x.get("kind").st();
        let is_fn = k == "Fn" || k == "AssocFn" || k == "Closure";
        if is_fn {
            r.funs.insert(name.to_string());
        }
        let calls = strs(x.get("calls"));
        let other = strs(x.get("other"));
        sites += calls.iter().filter(|c| c.starts_with('@')).count() as u64;
        match kind {
            Kind::Pure => {
                if !is_fn {
                    continue;
                }
                let mut bad = vec![];
                for c in calls.iter().filter_map(|c| c.strip_prefix('@')) {
                    if IMPURE.iter().any(|p| under(c, p)) {
                        bad.push(format!("calls {}", c));
                    }
                }
                for c in calls.iter().filter(|c| !c.starts_with('@')) {
                    if c.contains("HashMap") || c.contains("HashSet") || c.contains("RandomState") || c.contains("cell::Cell<") || c.contains("RefCell<") || c.contains("sync::atomic::") || c.contains("thread_local") || ADDRESS.iter().any(|a| c.contains(a)) {
                        bad.push(format!("calls {}", c));
                    }
                }
                for o in &other {
                    if o.starts_with("thread-local") || o.starts_with("cast pointer") || o.starts_with("cast transmute") || o.starts_with("inline assembly") {
                        bad.push(o.clone());
                    }
                }
                r.rule(format!("{} uses nothing but its arguments and constants", name), bad.first().map(|b| format!("{}: {}", at, b)));
            }
            Kind::Memory => {
                let mut bad = None;
                if x.get("unsafe_fn").bool() {
                    bad = Some("is an unsafe function".to_string());
                }
                if !x.get("unsafe_blocks").arr().is_empty() {
                    let b = x.get("unsafe_blocks").at(0);
                    bad = Some(format!("contains an unsafe block at {}:{}", b.at(0).st(), b.at(1).us()));
                }
                if x.get("asm").us() > 0 {
                    bad = Some("contains inline assembly".to_string());
                }
                r.rule(format!("{} is inside the memory-safe subset", name), bad.map(|b| format!("{} {}", at, b)));
            }
            _ => {}
        }
    }
    r.add("bodies", fns.len() as u64);
    r.add("call_sites_by_callee", sites);
    let statics = f.get("statics").arr();
    let adts = f.get("adts").arr();
    r.add("statics", statics.len() as u64);
    r.add("types", adts.len() as u64);
    match kind {
        Kind::Pure => {
            for s in statics {
                let bad = if s.get("mutable").bool() {
                    Some("is mutable")
                } else if s.get("thread_local").bool() {
                    Some("is thread-local state")
                } else if !s.get("freeze").bool() && !s.get("ty").st().contains("LazyLock<") {
                    Some("has interior mutability")
                } else {
                    None
                };
                r.rule(format!("static {} is immutable", s.get("name").st()), bad.map(|b| format!("static {} ({}:{}) {}", s.get("name").st(), s.get("file").st(), s.get("line").us(), b)));
            }
            for a in adts {
                let n = a.get("name").st();
                let at = format!("{} ({}:{})", n, a.get("file").st(), a.get("line").us());
                r.rule(format!("{} has no interior mutability", n), if a.get("freeze").bool() { None } else { Some(format!("type {} can change behind a shared reference", at)) });
                if a.get("exported").bool() && !a.get("generic").bool() {
                    r.rule(format!("{} may be moved between threads", n), if a.get("send").bool() { None } else { Some(format!("type {} is not Send: it shares state with other objects or is bound to a thread", at)) });
                    r.rule(format!("{} may be shared between threads", n), if a.get("sync").bool() { None } else { Some(format!("type {} is not Sync", at)) });
                }
                for fl in a.get("fields").arr() {
                    let t = fl.get("ty").st();
                    let bad = ["std::rc::Rc<", "std::sync::Arc<", "*mut ", "*const ", "Cell<", "sync::atomic::", "Mutex<", "RwLock<"].iter().find(|b| t.contains(**b));
                    r.rule(format!("{}.{} is owned or immutable", n, fl.get("name").st()), bad.map(|b| format!("field {} of {} has type {} ({}): objects could share state", fl.get("name").st(), at, t, b)));
                }
            }
            for x in f.get("foreign").arr() {
                r.rule("no foreign functions".into(), Some(format!("foreign items declared at {}:{}", x.at(0).st(), x.at(1).us())));
            }
        }
        Kind::Memory => {
            for x in f.get("foreign").arr() {
                r.rule("no foreign functions".into(), Some(format!("foreign items declared at {}:{}", x.at(0).st(), x.at(1).us())));
            }
            for s in statics {
                r.rule(format!("static {} is not `static mut`", s.get("name").st()), if s.get("mutable").bool() { Some(format!("static mut {} ({}:{})", s.get("name").st(), s.get("file").st(), s.get("line").us())) } else { None });
            }
            for x in f.get("impls").arr() {
                let n = format!("impl {} for {}", x.get("trait").st(), x.get("self").st());
                r.rule(format!("{} promises nothing by hand", n), if x.get("unsafe").bool() { Some(format!("unsafe {} at {}:{}", n, x.get("file").st(), x.get("line").us())) } else { None });
            }
        }
        Kind::Opaque => {
            // types that carry keys, hash states, chaining values or buffered cleartext: structures with bytes or words
            // somewhere inside
            let mut state: BTreeSet<String> = Default::default();
            loop {
                let n0 = state.len();
                for a in adts {
                    if a.get("enum").bool() && a.get("exported").bool() {
                        continue;
                    }
                    if a.get("fields").arr().iter().any(|fl| words_in_type(fl.get("ty").st()) || mentions(fl.get("ty").st(), &state)) {
                        state.insert(a.get("name").st().to_string());
                    }
                }
                if state.len() == n0 {
                    break;
                }
            }
            r.add("state_types", state.len() as u64);
            for a in adts {
                let n = a.get("name").st();
                let at = format!("{} ({}:{})", n, a.get("file").st(), a.get("line").us());
                let ex = a.get("exported").bool();
                if a.get("enum").bool() && ex {
                    for fl in a.get("fields").arr() {
                        let t = fl.get("ty").st();
                        let bad = t.contains("[u") || t.contains("Vec<u") || t.contains("String") || t.contains('&') || mentions(t, &state);
                        r.rule(format!("{}::{} carries no data of an object", n, fl.get("variant").st()), if bad { Some(format!("variant {} of {} carries {}", fl.get("variant").st(), at, t)) } else { None });
                    }
                }
                if !state.contains(n) {
                    continue;
                }
                for fl in a.get("fields").arr() {
                    r.rule(format!("{}.{} cannot be named by a user", n, fl.get("name").st()), if fl.get("exported").bool() { Some(format!("field {} of {} is public", fl.get("name").st(), at)) } else { None });
                }
                let dbg = f.get("impls").arr().iter().find(|x| {
                    let t = x.get("trait").st();
                    LENDING.iter().any(|l| under(t, l)) && x.get("self").st() == n
                });
                r.rule(format!("{} is not printed or lent out", n), match dbg {
                    Some(x) if ex => Some(format!("type {} implements {}", at, x.get("trait").st())),
                    _ => None,
                });
            }
            for x in fns {
                let n = x.get("name").st();
                let k = x.get("kind").st();
                let at = format!("{} ({}:{})", n, x.get("file").st(), x.get("line").us());
                let printed = strs(x.get("calls")).into_iter().find(|c| c.starts_with("@std::io::") && c.contains("print"));
                r.rule(format!("{} prints nothing", n), printed.map(|c| format!("{} calls {}", at, &c[1..])));
                if !x.get("exported").bool() || !(k == "Fn" || k == "AssocFn") || DOCUMENTED.contains(&n) || n.starts_with('<') && [" as std::ops::Drop>", " as std::io::Write>", " as std::iter::Extend", " as std::fmt::Write>", " as std::clone::Clone>"].iter().any(|t| n.contains(t)) {
                    continue;
                }
                // an undocumented operation that reaches the state of an object: does it hand out or change any?
                let ins = strs(x.get("inputs"));
                let touch: Vec<&String> = ins.iter().filter(|t| mentions(t, &state)).collect();
                let out = x.get("output").st();
                let bad = if touch.is_empty() {
                    None
                } else if touch.iter().any(|t| t.contains("&mut") || t.contains("&'") && t.contains(" mut ")) {
                    Some("can change an object")
                } else if words_in_type(out) || out.contains('&') || out.contains("String") {
                    Some("returns data of an object")
                } else if parts(adts, &state, &touch).iter().any(|t| mentions(out, &[t.to_string()].into_iter().collect())) {
                    Some("hands out a part of an object")
                } else {
                    None
                };
                r.rule(format!("{} gives no access to state", n), bad.map(|b| format!("{} is public, undocumented and {} ({}) -> {}", at, b, ins.join(", "), out)));
            }
        }
        _ => {}
    }
}
/// operations the documentation gives users
const DOCUMENTED: &[&str] = &[
    "aes::AES::new", "aes::AES::init", "aes::AES::encrypt", "aes::AES::decrypt", "aes_cbc::Cipher::new", "aes_cbc::Cipher::init", "aes_cbc::Cipher::write", "aes_cbc::Cipher::flush", "aes_cbc::Decipher::new", "aes_cbc::Decipher::init",
    "aes_cbc::Decipher::write", "aes_cbc::Decipher::flush", "hmac::HMac::new", "hmac::HMac::update", "hmac::HMac::digest", "pbkdf2::pbkdf2_sha256", "salsa20::salsa20", "scrypt::Scrypt::new", "scrypt::Scrypt::derive", "sha256::SHA256::new",
    "sha256::SHA256::update", "sha256::SHA256::digest",
];
/// traits whose implementation shows or lends what is inside
const LENDING: &[&str] = &[
    "std::fmt", "std::ops::Deref", "std::ops::DerefMut", "std::ops::Index", "std::ops::IndexMut", "std::convert::AsRef", "std::convert::AsMut", "std::convert::Into", "std::convert::TryInto", "std::borrow::Borrow", "std::borrow::BorrowMut", "std::hash::Hash",
    "std::string::ToString", "std::iter::IntoIterator", "std::iter::Iterator", "std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord",
];
/// the state-bearing types stored (at any depth) in the given ones, other than these themselves
fn parts(adts: &[J], state: &BTreeSet<String>, of: &[&String]) -> BTreeSet<String> {
    let one = |n: &String| -> BTreeSet<String> { [n.clone()].into_iter().collect() };
    let given: BTreeSet<String> = state.iter().filter(|n| of.iter().any(|t| mentions(t, &one(n)))).cloned().collect();
    let mut all = given.clone();
    loop {
        let n0 = all.len();
        for a in adts {
            if all.contains(a.get("name").st()) {
                for fl in a.get("fields").arr() {
                    let t = fl.get("ty").st();
                    all.extend(state.iter().filter(|n| mentions(t, &one(n))).cloned().collect::<Vec<_>>());
                }
            }
        }
        if all.len() == n0 {
            break;
        }
    }
    all.difference(&given).cloned().collect()
}
/// bytes or words of any fixed width (sizes and truth values do not count)
fn words_in_type(t: &str) -> bool {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| matches!(w, "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" | "char"))
}
fn mentions(t: &str, names: &BTreeSet<String>) -> bool {
    names.iter().any(|n| t.match_indices(n.as_str()).any(|(k, _)| {
        let ok = |c: Option<char>| c.map_or(true, |c| !c.is_alphanumeric() && c != '_');
        ok(t[..k].chars().last().filter(|c| *c != ':')) && ok(t[k + n.len()..].chars().next())
    }))
}
/// RAW is consulted for safe wrappers that would still need `unsafe` to be of use
pub fn raw(c: &str) -> bool {
    RAW.iter().any(|p| under(c, p))
}
fn missing(p: &Prog, need: &[&str]) -> Vec<String> {
    let fns = p.facts.get("fns").arr();
    need.iter().filter(|n| !fns.iter().any(|f| f.get("name").st() == **n && f.get("exported").bool())).map(|n| n.to_string()).collect()
}
pub fn check(p: &Prog, id: &str, tier: &str, seed: u64, ev_path: &str, rep_path: &str, known: &str, cmd: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let s = SPECS.iter().find(|s| s.id == id).expect("unknown property");
    let mut r = Report { viol: Default::default(), open: Default::default(), obligations: 0, discharged: 0, samples: vec![], counts: Default::default(), funs: Default::default() };
    for m in missing(p, s.need) {
        r.viol.insert(format!("anchor {}", m), format!("the public function {} this property is about is gone", m));
    }
    let mut js: Vec<Job> = vec![];
    for l in s.lemmas {
        js.extend(jobs(l, Cfg { thorough: tier == "thorough" }));
    }
    let limit = std::env::var("ENGINE_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 840.0 } else { 700.0 });
    // with listed findings everything is decided, so that other violations are still reported
    let listed = known.lines().any(|l| l.trim().starts_with(&format!("known: property={} ", id)));
    let enough: fn(&JobOut) -> bool = match s.kind {
        _ if listed => |_| false,
        Kind::Function => |o| o.obs.iter().any(|x| matches!(x.v, Verdict::Violated(_))) || o.panics.iter().any(|p| p.2),
        Kind::Timing => |o| o.leaks.iter().any(|l| !tolerated(o, l)),
        Kind::Panics => |o| o.panics.iter().any(|p| p.2),
        _ => |_| false,
    };
    let outs = run_all_limited(p, &js, 8, false, limit, enough);
    let mut inst = 0;
    for o in &outs {
        inst += 1;
        r.add("partitions", o.partitions as u64);
        r.add("mir_statements", o.stmts);
        r.add("calls", o.calls);
        r.add("joins", o.joins);
        r.add("runtime_assertions_examined", o.asserts);
        r.add("loops_summarised", o.summarised);
        r.add("basic_blocks", o.blocks as u64);
        for f in &o.funs {
            if p.fns[*f].local {
                r.funs.insert(p.fns[*f].full.clone());
            }
        }
        match s.kind {
            Kind::Function => {
                for x in &o.obs {
                    r.obligations += 1;
                    let key = format!("{} [{}] {}", o.lemma, o.part, x.what);
                    match &x.v {
                        Verdict::Ok => {
                            r.discharged += 1;
                            if r.samples.len() < 8 && r.discharged % 37 == 1 {
                                r.samples.push(key);
                            }
                        }
                        Verdict::Violated(w) => {
                            r.viol.insert(key, w.clone());
                        }
                        Verdict::Undecided(w) => {
                            r.open.insert(key, w.clone());
                        }
                    }
                }
                for (at, what, def) in &o.panics {
                    let key = format!("{} [{}] panic in {}: {}", o.lemma, o.part, at, what);
                    r.obligations += 1;
                    if *def {
                        r.viol.insert(key, format!("{} can panic ({}) on an input for which a result is promised", at, what));
                    } else {
                        r.open.insert(key, "panic not excluded".into());
                    }
                }
            }
            Kind::Timing => {
                let mut bad = None;
                for l in &o.leaks {
                    if tolerated(o, l) {
                        continue;
                    }
                    let (kind, at, sec) = l;
                    bad = Some(format!("{} at {} depends on the secret input `{}`", kind, at, sec));
                }
                let key = format!("{} [{}]: control flow and addresses independent of the secrets", o.lemma, o.part);
                match (bad, incomplete(o)) {
                    (None, Some(w)) => {
                        r.obligations += 1;
                        r.open.insert(key, w);
                    }
                    (bad, _) => r.rule(key, bad),
                }
            }
            Kind::Panics => {
                let mut bad = None;
                let mut open = None;
                for (at, what, def) in &o.panics {
                    if *def {
                        bad = Some(format!("{} can panic: {}", at, what));
                    } else {
                        open = Some(format!("{}: {}", at, what));
                    }
                }
                open = open.or(incomplete(o));
                let key = format!("{} [{}]: no panic", o.lemma, o.part);
                match (bad, open) {
                    (Some(b), _) => r.rule(key, Some(b)),
                    (None, Some(w)) => {
                        r.obligations += 1;
                        r.open.insert(key, w);
                    }
                    _ => r.rule(key, None),
                }
            }
            _ => {}
        }
    }
    if s.lemmas.is_empty() {
        structural(p, s.kind, &mut r);
    }
    if r.obligations == 0 {
        r.viol.insert("no obligations".into(), "nothing was analysed".into());
    }
    // verdicts
    let known: Vec<String> = known
        .lines()
        .filter_map(|l| l.trim().strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={} ", id)))
        .map(|l| l.trim_start_matches("key=").to_string())
        .collect();
    let mut nviol = 0;
    let mut rep = String::new();
    for (k, w) in &r.viol {
        if known.contains(k) {
            println!("KNOWN-FINDING: property={} {}", id, k);
            continue;
        }
        nviol += 1;
        writeln!(rep, "VIOLATION of {}\n  obligation: {}\n  {}", id, k, w).unwrap();
        if nviol <= 6 {
            println!("{}: {}: {}", id, k, w);
        }
    }
    for (k, w) in r.open.iter().take(5) {
        println!("UNDECIDED {}: {}: {}", id, k, w.chars().take(300).collect::<String>());
    }
    let wall = t0.elapsed().as_secs_f64();
    println!("{} {}: {} obligations, {} discharged, {} undecided, {} violated; {} jobs, {} functions, {:.1}s", id, tier, r.obligations, r.discharged, r.open.len(), nviol, inst, r.funs.len(), wall);
    let mut e = String::new();
    write!(e, "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{", esc(id), esc(tier), seed, esc(s.level)).unwrap();
    write!(e, "\"obligations\":{},\"discharged\":{},\"undecided\":{},\"analysis_jobs\":{},", r.obligations, r.discharged, r.open.len(), inst).unwrap();
    for (k, v) in &r.counts {
        write!(e, "\"{}\":{},", k, v).unwrap();
    }
    let list = |v: Vec<&String>| format!("[{}]", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    write!(e, "\"functions\":{},\"rule\":{},\"samples\":{},\"undecided_items\":{},\"checker_cmd\":{},", list(r.funs.iter().collect()), esc(s.rule), list(r.samples.iter().collect()), list(r.open.keys().take(20).collect()), esc(cmd)).unwrap();
    let tb = [
        "rustc nightly front end and MIR construction (overflow checks on)",
        "/verif/driver (MIR and item dump)",
        "/verif/engine (abstract interpreter, normal forms, models of the standard library)",
        "the specifications in engine/src/spec.rs, written from the standards",
    ];
    write!(e, "\"trusted_base\":[{}]}},", tb.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")).unwrap();
    write!(e, "\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n", assumptions(s).iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), wall, nviol).unwrap();
    std::fs::write(ev_path, e).unwrap();
    if nviol > 0 {
        writeln!(rep, "\nre-decide with: {}", cmd).unwrap();
        std::fs::write(rep_path, rep).unwrap();
        println!("VIOLATION property={} replay={}", id, rep_path);
        return 1;
    }
    let _ = std::fs::remove_file(rep_path);
    0
}
/// why the program was not followed to the end of the job (a value that could not be compared was still computed)
fn incomplete(o: &JobOut) -> Option<String> {
    o.obs.iter().find_map(|x| match &x.v {
        Verdict::Undecided(w) if !w.contains("normal forms differ") => Some(w.clone()),
        _ => None,
    })
}
/// the one secret-dependent access the algorithm prescribes: scrypt's V[Integerify(X) mod N]
fn tolerated(o: &JobOut, l: &(String, String, String)) -> bool {
    o.lemma == "scrypt" && l.0 == "memory index"
}
fn assumptions(s: &Spec) -> Vec<&'static str> {
    let mut v = vec![];
    if s.lemmas.contains(&"sha") {
        v.push("messages shorter than 2^56 bytes; a single update call is enumerated for the lengths listed in DESIGN.md, any number of earlier blocks is covered by the inductive state");
    }
    if s.lemmas.contains(&"scrypt") || s.lemmas.contains(&"pbkdf2") {
        v.push("iteration counts, output lengths and scrypt parameters as enumerated in DESIGN.md");
    }
    if s.lemmas.is_empty() {
        v.push("the standard library functions that are called are themselves safe and deterministic");
    } else {
        v.push("allocation succeeds; the standard library behaves as documented");
    }
    v
}
