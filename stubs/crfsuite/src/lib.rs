//! Stand-in for crfsuite-rs: first-order CRF tagging, from a CRFsuite model or a JSON one.
use serde::Deserialize;
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path;

#[derive(Debug)]
pub struct CrfError(pub String);
impl std::fmt::Display for CrfError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CrfError {}
pub type Result<T> = std::result::Result<T, CrfError>;

fn err<T>(m: &str) -> Result<T> {
    Err(CrfError(m.to_string()))
}

/// JSON model: labels are decoded tag names, attributes are "name:value".
#[derive(Deserialize)]
struct JsonModel {
    labels: Vec<String>,
    #[serde(default)]
    state: Vec<(String, String, f64)>,
    #[serde(default)]
    trans: Vec<(String, String, f64)>,
}

pub struct Tagger {
    labels: Vec<String>,
    state: HashMap<String, Vec<(usize, f64)>>,
    trans: Vec<Vec<f64>>,
    current: RefCell<Option<Vec<Vec<f64>>>>,
    instance: u64,
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// the features of each token in order, as the tagger does not care for their order
fn in_order(features: &[Vec<(String, String)>]) -> Vec<Vec<&(String, String)>> {
    features
        .iter()
        .map(|token| {
            let mut token: Vec<&(String, String)> = token.iter().collect();
            token.sort();
            token
        })
        .collect()
}

pub fn encode(s: &str) -> String {
    let mut out = String::new();
    for c in s.as_bytes().chunks(3) {
        let n = u32::from(c[0]) << 16 | u32::from(*c.get(1).unwrap_or(&0)) << 8 | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                out.push(B64[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

fn u32_at(b: &[u8], i: usize) -> Result<usize> {
    match b.get(i..i + 4) {
        Some(s) => Ok(u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize),
        None => err("truncated CRF model"),
    }
}

fn quarks(b: &[u8], off: usize) -> Result<Vec<String>> {
    if b.get(off..off + 4) != Some(b"CQDB") {
        return err("bad CRF dictionary");
    }
    let n = u32_at(b, off + 16)?;
    let back = u32_at(b, off + 20)?;
    (0..n)
        .map(|i| {
            let rec = off + u32_at(b, off + back + 4 * i)?;
            let len = u32_at(b, rec + 4)?;
            match b.get(rec + 8..rec + 8 + len) {
                Some(s) => Ok(String::from_utf8_lossy(s).trim_end_matches('\0').to_string()),
                None => err("truncated CRF model"),
            }
        })
        .collect()
}

impl Tagger {
    pub fn create_from_file<P: AsRef<Path>>(path: P) -> Result<Tagger> {
        let b = std::fs::read(path.as_ref()).map_err(|e| CrfError(format!("{}: {}", path.as_ref().display(), e)))?;
        Tagger::create_from_memory(&b)
    }

    pub fn create_from_memory(b: &[u8]) -> Result<Tagger> {
        let instance = vmon::new_instance();
        if b.first() == Some(&b'{') {
            let m: JsonModel = serde_json::from_slice(b).map_err(|e| CrfError(e.to_string()))?;
            let id = |l: &str| m.labels.iter().position(|x| x == l).ok_or_else(|| CrfError(format!("unknown label {}", l)));
            let mut state: HashMap<String, Vec<(usize, f64)>> = HashMap::new();
            for (a, l, w) in &m.state {
                state.entry(a.clone()).or_insert_with(Vec::new).push((id(l)?, *w));
            }
            let mut trans = vec![vec![0.0; m.labels.len()]; m.labels.len()];
            for (f, t, w) in &m.trans {
                trans[id(f)?][id(t)?] = *w;
            }
            let labels = m.labels.iter().map(|l| encode(l)).collect();
            return Ok(Tagger { labels, state, trans, current: RefCell::new(None), instance });
        }
        if b.get(..4) != Some(b"lCRF") || u32_at(b, 4)? != b.len() {
            return err("not a CRF model");
        }
        let (off_features, off_labels, off_attrs) = (u32_at(b, 28)?, u32_at(b, 32)?, u32_at(b, 36)?);
        let labels = quarks(b, off_labels)?;
        let attrs = quarks(b, off_attrs)?;
        if b.get(off_features..off_features + 4) != Some(b"FEAT") {
            return err("bad CRF feature chunk");
        }
        let n = u32_at(b, off_features + 8)?;
        let mut state: HashMap<String, Vec<(usize, f64)>> = HashMap::new();
        let mut trans = vec![vec![0.0; labels.len()]; labels.len()];
        for i in 0..n {
            let o = off_features + 12 + 20 * i;
            let (kind, src, dst) = (u32_at(b, o)?, u32_at(b, o + 4)?, u32_at(b, o + 8)?);
            let w = match b.get(o + 12..o + 20) {
                Some(s) => {
                    let mut a = [0; 8];
                    a.copy_from_slice(s);
                    f64::from_le_bytes(a)
                }
                None => return err("truncated CRF model"),
            };
            if dst >= labels.len() {
                return err("bad CRF feature");
            }
            if kind == 0 {
                match attrs.get(src) {
                    Some(a) => state.entry(a.clone()).or_insert_with(Vec::new).push((dst, w)),
                    None => return err("bad CRF feature"),
                }
            } else if src < labels.len() {
                trans[src][dst] = w;
            }
        }
        Ok(Tagger { labels, state, trans, current: RefCell::new(None), instance })
    }

    fn scores(&self, features: &[Vec<(String, String)>]) -> Vec<Vec<f64>> {
        // in order, so that rounding does not depend on the order of the features
        in_order(features)
            .iter()
            .map(|fs| {
                let mut s = vec![0.0; self.labels.len()];
                for (k, v) in fs {
                    if let Some(ws) = self.state.get(&format!("{}:{}", k, v)) {
                        for (l, w) in ws {
                            s[*l] += *w;
                        }
                    }
                }
                s
            })
            .collect()
    }

    pub fn set(&self, features: &[Vec<(String, String)>]) -> Result<()> {
        vmon::enter("set", self.instance, "").map_err(CrfError)?;
        *self.current.borrow_mut() = Some(self.scores(features));
        vmon::exit("set", self.instance, || format!("{:?}", features));
        Ok(())
    }

    pub fn labels(&self) -> Result<Vec<String>> {
        vmon::enter("labels", self.instance, "").map_err(CrfError)?;
        Ok(self.labels.clone())
    }

    pub fn tag(&self, features: &[Vec<(String, String)>]) -> Result<Vec<String>> {
        vmon::enter("tag", self.instance, "").map_err(CrfError)?;
        let scores = self.scores(features);
        *self.current.borrow_mut() = Some(scores.clone());
        let out = match vmon::scripted_tags() {
            Some(tags) => (0..features.len()).map(|i| encode(tags.get(i).map_or("O", |t| t))).collect(),
            None => self.viterbi(&scores)?,
        };
        vmon::exit("tag", self.instance, || format!("{:?}", in_order(features)));
        Ok(out)
    }

    fn viterbi(&self, scores: &[Vec<f64>]) -> Result<Vec<String>> {
        if scores.is_empty() {
            return Ok(vec![]);
        }
        if self.labels.is_empty() {
            return err("no label");
        }
        let mut best = scores[0].clone();
        let mut back: Vec<Vec<usize>> = vec![];
        for s in &scores[1..] {
            let mut next = vec![];
            let mut from = vec![];
            for l in 0..self.labels.len() {
                let mut arg = 0;
                for p in 1..self.labels.len() {
                    if best[p] + self.trans[p][l] > best[arg] + self.trans[arg][l] {
                        arg = p;
                    }
                }
                next.push(best[arg] + self.trans[arg][l] + s[l]);
                from.push(arg);
            }
            best = next;
            back.push(from);
        }
        let mut l = (1..best.len()).fold(0, |a, i| if best[i] > best[a] { i } else { a });
        let mut path = vec![l];
        for from in back.iter().rev() {
            l = from[l];
            path.push(l);
        }
        path.reverse();
        Ok(path.into_iter().map(|l| self.labels[l].clone()).collect())
    }

    /// Probability of the labels for the sequence that was last set.
    pub fn probability(&self, tags: &[String]) -> Result<f64> {
        vmon::enter("probability", self.instance, "").map_err(CrfError)?;
        let current = self.current.borrow();
        let scores = match current.as_ref() {
            Some(s) => s,
            None => return err("no sequence set"),
        };
        if scores.len() != tags.len() {
            return err("the labels do not fit the sequence");
        }
        let ids = tags
            .iter()
            .map(|t| self.labels.iter().position(|l| l == t).ok_or_else(|| CrfError(format!("unknown label {}", t))))
            .collect::<Result<Vec<_>>>()?;
        if ids.is_empty() {
            return Ok(1.0);
        }
        let mut score = 0.0;
        for (i, l) in ids.iter().enumerate() {
            score += scores[i][*l];
            if i > 0 {
                score += self.trans[ids[i - 1]][*l];
            }
        }
        let lse = |v: &[f64]| {
            let m = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            m + v.iter().map(|x| (x - m).exp()).sum::<f64>().ln()
        };
        let mut alpha = scores[0].clone();
        for s in &scores[1..] {
            alpha = (0..self.labels.len())
                .map(|l| s[l] + lse(&(0..self.labels.len()).map(|p| alpha[p] + self.trans[p][l]).collect::<Vec<_>>()))
                .collect();
        }
        let p = (score - lse(&alpha)).exp();
        vmon::exit("probability", self.instance, || format!("{:?}", tags));
        Ok(p)
    }
}
