//! Reads one JSON command per line, performs it on the real library, and
//! answers with one JSON line. It holds no expectation of its own: it is the
//! projection between the specification's actions and the library's calls.
//!
//! A panic is answered as {"panic": msg}. A call that does not return within
//! the time limit is answered as {"hang": true} and ends the process.

use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;
use tokengeex::*;

static BUSY: AtomicU64 = AtomicU64::new(0);

fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => panic!("HARNESS bad bytes {v}"),
    }
}
fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("HARNESS text must be UTF-8")
}
fn texts(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(text).collect()
}
fn ids(v: &Value) -> Vec<u32> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()
}
fn vocab(v: &Value) -> Vec<ScoredToken> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| {
            let keep = t.get(2).map_or(false, |k| k.as_bool().unwrap());
            // As text: serde_json reads some numbers one unit off.
            let score = match &t[1] {
                Value::String(x) => x.parse::<f64>().unwrap(),
                x => x.as_f64().unwrap(),
            };
            ScoredToken::new(bytes(&t[0]), score, keep)
        })
        .collect()
}
fn proc(s: &str) -> ProcessorWrapper {
    match s {
        "crlf" => CrlfProcessor.into(),
        "nfc" => UnicodeProcessor::Nfc.into(),
        "nfd" => UnicodeProcessor::Nfd.into(),
        "nfkc" => UnicodeProcessor::Nfkc.into(),
        "nfkd" => UnicodeProcessor::Nfkd.into(),
        _ => panic!("HARNESS bad processor {s}"),
    }
}
fn proc_name(p: &ProcessorWrapper) -> &'static str {
    match p {
        ProcessorWrapper::Crlf(_) => "crlf",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfc) => "nfc",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfd) => "nfd",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc) => "nfkc",
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd) => "nfkd",
    }
}
fn err(e: &Error) -> Value {
    let k = match e {
        Error::IO(_) => "IO",
        Error::SerdeJSON(_) => "Json",
        Error::TokenIdOutOfBounds(_) => "Bounds",
        Error::NoPath(..) => "NoPath",
    };
    json!({"err": k})
}
fn str_bytes(s: &str) -> Value {
    json!(s.as_bytes())
}
fn enc(r: Result<Vec<u32>>) -> Value {
    match r {
        Ok(i) => json!({"ids": i}),
        Err(e) => err(&e),
    }
}
fn encs(r: Result<Vec<Vec<u32>>>) -> Value {
    match r {
        Ok(i) => json!({"batch": i.into_iter().map(|x| json!({"ids": x})).collect::<Vec<_>>()}),
        Err(e) => err(&e),
    }
}
fn dec(r: Result<String>) -> Value {
    match r {
        Ok(s) => json!({"text": s.as_bytes()}),
        Err(e) => err(&e),
    }
}
fn scored(t: &ScoredToken) -> Value {
    json!([t.value, t.score, t.keep])
}
fn state(t: &Tokenizer) -> Value {
    let n = t.base_vocab_size() as u32;
    json!({
        "vocab": t.model().vocab().iter().map(scored).collect::<Vec<_>>(),
        "base_api": (0..n).map(|i| t.id_to_base_token(i).as_ref().map(scored)).collect::<Vec<_>>(),
        "specials": t.special_tokens().iter().map(|s| str_bytes(s)).collect::<Vec<_>>(),
        "procs": t.processors().iter().map(proc_name).collect::<Vec<_>>(),
        "size": t.vocab_size(), "base": t.base_vocab_size(), "special": t.special_vocab_size(),
        "model_size": t.model().vocab_size(),
    })
}

#[derive(Default)]
struct World {
    toks: HashMap<u64, Tokenizer>,
    strs: HashMap<u64, String>,
}

impl World {
    fn t(&self, c: &Value) -> &Tokenizer {
        self.toks.get(&c["t"].as_u64().unwrap_or(0)).expect("HARNESS no such tokenizer")
    }
    fn loaded(&mut self, c: &Value, r: Result<Tokenizer>) -> Value {
        match r {
            Ok(t) => {
                let s = state(&t);
                self.toks.insert(c["t"].as_u64().unwrap_or(0), t);
                json!({"ok": true, "state": s})
            }
            Err(e) => err(&e),
        }
    }
    fn run(&mut self, c: &Value) -> Value {
        let slot = c["t"].as_u64().unwrap_or(0);
        let p = c["p"].as_f64().unwrap_or(0.0);
        match c["op"].as_str().unwrap() {
            "new" => {
                let procs: Vec<ProcessorWrapper> = c["procs"]
                    .as_array()
                    .map(|a| a.iter().map(|s| proc(s.as_str().unwrap())).collect())
                    .unwrap_or_default();
                let specials = if c["specials"].is_null() { vec![] } else { texts(&c["specials"]) };
                let t = Tokenizer::new(Model::from(vocab(&c["vocab"])), procs, specials);
                self.toks.insert(slot, t);
                json!({"ok": true})
            }
            "clone" => {
                let t = self.t(c).clone();
                self.toks.insert(c["to"].as_u64().unwrap(), t);
                json!({"ok": true})
            }
            "add_special" => {
                let toks = texts(&c["toks"]);
                self.toks.get_mut(&slot).unwrap().add_special_tokens(toks);
                json!({"ok": true})
            }
            "add_base" => {
                let toks = vocab(&c["toks"]);
                self.toks.get_mut(&slot).unwrap().add_base_tokens(toks);
                json!({"ok": true})
            }
            "state" => state(self.t(c)),
            "encode" => {
                let x = text(&c["text"]);
                let t = self.t(c);
                match c["how"].as_str().unwrap_or("full") {
                    "full" => enc(t.encode(&x, p)),
                    "ord" => enc(t.encode_ordinary(&x, p)),
                    "model" => enc(t.model().encode(&x, p)),
                    h => panic!("HARNESS how {h}"),
                }
            }
            "encode_many" => {
                // The same call n times: results grouped, with their counts.
                let x = text(&c["text"]);
                let t = self.t(c);
                let n = c["n"].as_u64().unwrap();
                let mut m: std::collections::BTreeMap<String, (Value, u64)> = Default::default();
                for _ in 0..n {
                    let v = match c["how"].as_str().unwrap_or("full") {
                        "full" => enc(t.encode(&x, p)),
                        "ord" => enc(t.encode_ordinary(&x, p)),
                        "model" => enc(t.model().encode(&x, p)),
                        "lattice" => {
                            let mut lat = Lattice::default();
                            let mut pool = VecPool::default();
                            lat.from(x.as_bytes(), &mut pool);
                            t.model().populate_nodes(&mut lat, p);
                            let mut nodes: Vec<(usize, u32, usize)> = vec![];
                            for k in 2..lat.nodes.len() {
                                nodes.push((lat.nodes[k].pos, lat.nodes[k].token_id, lat.nodes[k].token_len));
                            }
                            nodes.sort();
                            json!({"nodes": nodes})
                        }
                        h => panic!("HARNESS how {h}"),
                    };
                    m.entry(v.to_string()).or_insert((v, 0)).1 += 1;
                }
                json!({"outs": m.into_values().map(|(v, k)| json!([v, k])).collect::<Vec<_>>()})
            }
            "encode_batch" => {
                let xs = texts(&c["texts"]);
                let ord = c["how"].as_str() == Some("ord");
                let t = self.t(c);
                let n = c["threads"].as_u64().unwrap_or(4) as usize;
                let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                pool.install(|| {
                    encs(if ord { t.encode_ordinary_batch(&xs, p) } else { t.encode_batch(&xs, p) })
                })
            }
            "decode_batch" => {
                let xs: Vec<Vec<u32>> = c["ids"].as_array().unwrap().iter().map(ids).collect();
                let inc = c["inc"].as_bool().unwrap();
                let t = self.t(c);
                let n = c["threads"].as_u64().unwrap_or(4) as usize;
                let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                pool.install(|| match t.decode_batch(&xs, inc) {
                    Ok(v) => json!({"batch": v.iter().map(|s| json!({"text": s.as_bytes()})).collect::<Vec<_>>()}),
                    Err(e) => err(&e),
                })
            }
            "share" => {
                // The same single calls from several plain threads at once.
                let xs = texts(&c["texts"]);
                let t = self.t(c);
                let n = c["threads"].as_u64().unwrap() as usize;
                let rounds = c["rounds"].as_u64().unwrap_or(1);
                let res: Vec<Vec<Vec<Value>>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..n)
                        .map(|k| {
                            let xs = &xs;
                            s.spawn(move || {
                                (0..rounds)
                                    .map(|_| {
                                        let mut out = vec![Value::Null; xs.len()];
                                        for i in 0..xs.len() {
                                            let j = (i + k) % xs.len();
                                            out[j] = enc(t.encode(&xs[j], 0.0));
                                        }
                                        out
                                    })
                                    .collect::<Vec<_>>()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                let flat: Vec<Value> = res.into_iter().flatten().map(|r| json!(r)).collect();
                json!({"runs": flat})
            }
            "decode" => {
                let i = ids(&c["ids"]);
                let t = self.t(c);
                match c["how"].as_str().unwrap_or("full") {
                    "model" => dec(t.model().decode(&i)),
                    _ => dec(t.decode(&i, c["inc"].as_bool().unwrap())),
                }
            }
            "query" => {
                let t = self.t(c);
                let q: Vec<Value> = ids(&c["ids"])
                    .into_iter()
                    .map(|i| {
                        json!({
                            "id": i.to_string(),
                            "tok": t.id_to_token(i).map_or(json!([]), |x| json!([x])),
                            "sp": t.id_to_special_token(i).map_or(json!([]), |x| json!([str_bytes(&x)])),
                            "base": t.id_to_base_token(i).map_or(json!([]), |x| json!([scored(&x)])),
                            "model": t.model().id_to_token(i).map_or(json!([]), |x| json!([scored(&x)])),
                            "is_sp": t.is_special(i), "is_base": t.is_base(i),
                        })
                    })
                    .collect();
                let k: Vec<Value> = c["toks"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|b| {
                        let b = bytes(b);
                        let s = std::str::from_utf8(&b).ok();
                        json!({
                            "v": b,
                            "tok": t.token_to_id(&b).map_or(json!([]), |x| json!([x])),
                            "base": t.base_token_to_id(&b).map_or(json!([]), |x| json!([x])),
                            "model": t.model().token_to_id(&b).map_or(json!([]), |x| json!([x])),
                            "utf8": s.is_some(),
                            "sp": s.and_then(|s| t.special_token_to_id(s)).map_or(json!([]), |x| json!([x])),
                        })
                    })
                    .collect();
                json!({"ids": q, "toks": k})
            }
            "prefix" => {
                let x = bytes(&c["text"]);
                let mut buf = Vec::new();
                if let Some(j) = c["junk"].as_array() {
                    buf = j.iter().map(|v| v.as_u64().unwrap() as u8).collect();
                }
                let t = self.t(c);
                let v: Vec<(u32, u32)> = t.model().common_prefix_search(&x, &mut buf).collect();
                json!({"found": v})
            }
            "lattice" => {
                // One lattice and pool, used for every sentence in turn.
                let t = self.t(c);
                let xs: Vec<Vec<u8>> = c["texts"].as_array().unwrap().iter().map(bytes).collect();
                let ns: Vec<usize> = c["ns"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let mut lat = Lattice::default();
                let mut pool = VecPool::with_capacity(4, 2);
                let mut expected = vec![0.0; t.base_vocab_size()];
                let mut out = vec![];
                for x in &xs {
                    lat.from(x, &mut pool);
                    t.model().populate_nodes(&mut lat, p);
                    let path = |v: Vec<Node>| {
                        v.iter().map(|n| json!({"id": n.token_id.to_string(), "pos": n.pos, "len": n.token_len, "s": n.score})).collect::<Vec<_>>()
                    };
                    let order = c["order"].as_u64().unwrap_or(0);
                    let z0 = if order == 1 { Some(lat.populate_marginal(&mut vec![0.0; t.base_vocab_size()])) } else { None };
                    let best = path(lat.viterbi());
                    let nb: Vec<Value> = ns
                        .iter()
                        .map(|&n| json!({"n": n, "paths": lat.nbest(n).into_iter().map(path).collect::<Vec<_>>()}))
                        .collect();
                    let mut own = vec![0.0; t.base_vocab_size()];
                    let z = lat.populate_marginal(&mut own);
                    let zacc = lat.populate_marginal(&mut expected);
                    out.push(json!({"best": best, "nbest": nb,
                        "z": z.to_string(), "zacc": zacc.to_string(), "z0": z0.map(|z| z.to_string()),
                        "own": own.iter().map(|f| f.to_string()).collect::<Vec<_>>(),
                        "acc": expected.iter().map(|f| f.to_string()).collect::<Vec<_>>()}));
                }
                json!({"sents": out})
            }
            "nbest_hist" => {
                // A large n: how many of the results reach each score.
                let t = self.t(c);
                let x = bytes(&c["text"]);
                let n = c["n"].as_u64().unwrap() as usize;
                let mut lat = Lattice::default();
                let mut pool = VecPool::default();
                lat.from(&x, &mut pool);
                t.model().populate_nodes(&mut lat, p);
                let paths = lat.nbest(n);
                let mut scores: Vec<f64> = vec![];
                let mut seen = std::collections::HashSet::new();
                let mut odd = 0;
                for q in &paths {
                    let mut at = 0;
                    let mut s = 0.0;
                    for n in q {
                        let tok = t.id_to_base_token(n.token_id);
                        if n.pos != at || tok.as_ref().map_or(true, |k| !x[at..].starts_with(&k.value) || k.score != n.score) {
                            odd += 1;
                            break;
                        }
                        at += n.token_len;
                        s += n.score;
                    }
                    if at != x.len() {
                        odd += 1;
                    }
                    scores.push(s);
                    seen.insert(q.iter().map(|n| n.token_id).collect::<Vec<_>>());
                }
                let sorted = scores.windows(2).all(|w| w[0] >= w[1]);
                let mut hist: Vec<(f64, usize)> = vec![];
                scores.sort_by(|a, b| b.partial_cmp(a).unwrap());
                for s in scores {
                    match hist.last_mut() {
                        Some(h) if h.0 == s => h.1 += 1,
                        _ => hist.push((s, 1)),
                    }
                }
                json!({"hist": hist, "n": paths.len(), "distinct": seen.len(), "odd": odd, "sorted": sorted})
            }
            "preproc" => {
                let x = text(&c["text"]);
                let w = proc(c["proc"].as_str().unwrap());
                json!({"pre": w.preprocess(&x).as_bytes(), "post": w.postprocess(&x).as_bytes()})
            }
            "to_str" => {
                let t = self.t(c);
                let s = match c["how"].as_str().unwrap_or("compact") {
                    "pretty" => serde_json::to_string_pretty(t).unwrap(),
                    _ => t.to_string(),
                };
                let same = c["same_as"].as_u64().and_then(|k| self.strs.get(&k)).map(|o| *o == s);
                let len = s.len();
                self.strs.insert(c["s"].as_u64().unwrap(), s);
                json!({"len": len, "same": same})
            }
            "dump_str" => json!({"json": self.strs[&c["s"].as_u64().unwrap()]}),
            "from_str" => {
                let s = match c.get("json") {
                    Some(j) => j.as_str().unwrap().to_string(),
                    None => self.strs[&c["s"].as_u64().unwrap()].clone(),
                };
                let cut = c["cut"].as_u64().map(|n| n as usize).unwrap_or(s.len());
                let s = String::from_utf8_lossy(&s.as_bytes()[..cut.min(s.len())]).into_owned();
                let r = Tokenizer::from_str(&s);
                self.loaded(c, r)
            }
            "cuts" => {
                // Every proper prefix of a stored document, as a crash while
                // writing it would leave it: how many are accepted?
                let s = self.strs[&c["s"].as_u64().unwrap()].clone();
                let f = c["file"].as_str().unwrap();
                let step = c["step"].as_u64().unwrap_or(1) as usize;
                let (mut tried, mut accepted, mut panics) = (0, vec![], vec![]);
                let b = s.as_bytes();
                let mut cut = 0;
                while cut < b.len() {
                    std::fs::write(f, &b[..cut]).unwrap();
                    match catch_unwind(|| Tokenizer::from_file(f).is_ok()) {
                        Ok(true) => accepted.push(cut),
                        Ok(false) => {}
                        Err(_) => panics.push(cut),
                    }
                    tried += 1;
                    cut += if cut + 40 > b.len() { 1 } else { step };
                }
                json!({"tried": tried, "accepted": accepted, "panics": panics})
            }
            "save" => {
                let t = self.t(c);
                match t.save(c["file"].as_str().unwrap()) {
                    Ok(()) => json!({"ok": true}),
                    Err(_) => json!({"err": "IO"}),
                }
            }
            "load" => {
                let r = Tokenizer::from_file(c["file"].as_str().unwrap());
                self.loaded(c, r)
            }
            "regex_match" => {
                // A pattern file as the commands read it.
                let re = match c.get("file") {
                    Some(f) => std::fs::read_to_string(f.as_str().unwrap()).unwrap().replace(['\n', '\r'], "").trim().to_string(),
                    None => c["re"].as_str().unwrap().to_string(),
                };
                match regex::RegexBuilder::new(&re).size_limit(1 << 30).build() {
                    Ok(re) => json!({"got": texts(&c["texts"]).iter().map(|x| re.is_match(x)).collect::<Vec<_>>()}),
                    Err(_) => json!({"err": "Regex"}),
                }
            }
            "par_chunk" => {
                let n = c["threads"].as_u64().unwrap() as usize;
                let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                let (a, b) = (c["n"].as_u64().unwrap() as usize, c["f"].as_u64().unwrap() as usize);
                json!({"size": pool.install(|| par_chunk_size(a, b))})
            }
            "pool_check" => {
                let n: usize = (0..1000usize).into_par_iter().map(|_| 1).sum();
                json!({"n": n})
            }
            o => panic!("HARNESS unknown op {o}"),
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("DRIVER_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let b = BUSY.load(Ordering::SeqCst);
            if b != last || b % 2 == 0 {
                last = b;
                since = std::time::Instant::now();
            } else if since.elapsed() > Duration::from_secs(limit) {
                // The main thread is stuck inside a library call.
                let mut o = std::io::stdout();
                let _ = o.write_all(b"{\"hang\":true}\n");
                let _ = o.flush();
                std::process::exit(3);
            }
        }
    });
    let mut w = World::default();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).expect("HARNESS bad command");
        BUSY.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| w.run(&c)));
        BUSY.fetch_add(1, Ordering::SeqCst);
        let v = match r {
            Ok(v) => v,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if m.starts_with("HARNESS") {
                    eprintln!("{m}");
                    std::process::exit(2);
                }
                json!({"panic": m})
            }
        };
        // Locked only here: a stuck call must not hold the lock.
        let mut o = std::io::stdout().lock();
        o.write_all(v.to_string().as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
        let _ = o.flush();
    }
}
