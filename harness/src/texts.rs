//! Texts for a synthetic engine: instances of its utterances, mutations of them, soup, hostile strings.
use crate::core::Rng;
use crate::world::*;
use serde_json::Value;

pub struct Instance {
    pub text: String,
    /// slot name, char range, in order
    pub slots: Vec<(String, std::ops::Range<usize>)>,
}

/// A random letter case that keeps the number of characters and maps back when lowercased.
pub fn random_case(rng: &mut Rng, w: &str) -> String {
    let mode = rng.below(4);
    w.chars()
        .enumerate()
        .map(|(i, c)| {
            let up = match mode {
                0 => false,
                1 => true,
                2 => i == 0,
                _ => rng.chance(50),
            };
            if !up {
                return c;
            }
            let u: Vec<char> = c.to_uppercase().collect();
            // the final sigma is context dependent
            if u.len() == 1 && u[0].to_lowercase().collect::<Vec<_>>() == vec![c] && c != 'σ' && c != 'ς' {
                u[0]
            } else {
                c
            }
        })
        .collect()
}

const SPACES: &[&str] = &[" ", " ", " ", "  ", "\t", " \n "];
const IGNORED: &[&str] = &[", ", " - ", "... ", " ; ", ",", " ' ", " / ", " \u{2014} "];

pub fn separator(rng: &mut Rng, plain: bool) -> String {
    if plain || rng.chance(75) {
        rng.pick(SPACES).to_string()
    } else {
        rng.pick(IGNORED).to_string()
    }
}

fn is_mark(c: Option<char>) -> bool {
    c.map_or(false, |c| matches!(c, '€' | '$' | '£'))
}

/// what stands between two words; nothing, at times, next to a mark that is a token of its own
fn between(rng: &mut Rng, text: &str, next: &str, plain: bool) -> String {
    if !plain && (is_mark(text.chars().last()) || is_mark(next.chars().next())) && rng.chance(60) {
        return String::new();
    }
    separator(rng, plain)
}

impl Spec {
    /// the words of a random value of an entity
    pub fn random_value(&self, rng: &mut Rng, entity: &str) -> Option<Vec<String>> {
        if !is_builtin(entity) {
            let e = self.entities.iter().find(|e| e.name == entity)?;
            let literals: Vec<&String> = self.literals.iter().filter(|l| l.0 == entity).flat_map(|l| &l.1).collect();
            if self.det_value_patterns && !literals.is_empty() && rng.chance(25) {
                return Some(rng.pick(&literals).split(' ').map(str::to_string).collect());
            }
            if e.extensible && rng.chance(10) {
                return Some(vec![rng.pick(CARRIERS).to_string()]);
            }
            return Some(rng.pick(&e.values).0.split(' ').map(str::to_string).collect());
        }
        let mut all: Vec<String> = self.rules.iter().filter(|r| r.kind == entity).map(|r| r.text.clone()).collect();
        for (k, values) in &self.bgaz {
            if k == entity {
                all.extend(values.iter().map(|v| v.0.clone()));
            }
        }
        if entity == "snips/number" && self.digits {
            all.push(format!("{}", rng.below(2000)));
        }
        if all.is_empty() {
            return None;
        }
        Some(rng.pick(&all).split(' ').map(str::to_string).collect())
    }

    /// words of an utterance with values put in; (words, slot, entity)
    pub fn words_of(&self, rng: &mut Rng, i: &Intent, u: &[Chunk]) -> Vec<(Vec<String>, Option<(String, String)>)> {
        u.iter()
            .map(|c| match c {
                Chunk::Text(t) => (t.split(' ').map(str::to_string).collect(), None),
                Chunk::Slot(s) => {
                    let e = i.entity_of(s).to_string();
                    let v = self.random_value(rng, &e).unwrap_or_else(|| vec!["thing".to_string()]);
                    (v, Some((s.clone(), e)))
                }
            })
            .collect()
    }

    pub fn instance(&self, rng: &mut Rng, intent: usize, plain: bool) -> Instance {
        let i = &self.intents[intent];
        let u = rng.pick(&i.utts).clone();
        let words = self.words_of(rng, i, &u);
        let stops = self.stops_of(&i.name, self.det_ignore && self.lk_ignore);
        let stops: Vec<&String> = stops.iter().collect();
        let mut text = String::new();
        let mut slots = vec![];
        if !plain && rng.chance(20) {
            text.push_str(&separator(rng, false));
        }
        for (n, (ws, slot)) in words.iter().enumerate() {
            if n > 0 {
                let sep = between(rng, &text, &ws[0], plain);
                text.push_str(&sep);
            }
            if !plain && !stops.is_empty() && rng.chance(12) {
                let s = rng.pick(&stops).to_string();
                text.push_str(&random_case(rng, &s));
                text.push(' ');
            }
            let start = text.chars().count();
            for (k, w) in ws.iter().enumerate() {
                if k > 0 {
                    // builtin values keep to blanks
                    let p = plain || slot.as_ref().map_or(false, |s| is_builtin(&s.1));
                    let sep = between(rng, &text, w, p);
                    text.push_str(&sep);
                }
                let w = if plain { w.clone() } else { random_case(rng, w) };
                text.push_str(&w);
            }
            if let Some((s, _)) = slot {
                slots.push((s.clone(), start..text.chars().count()));
            }
        }
        if !plain && rng.chance(20) {
            text.push_str(&separator(rng, false));
        }
        Instance { text, slots }
    }

    /// an instance with words added, removed, swapped or replaced
    pub fn mutated(&self, rng: &mut Rng) -> String {
        let n = rng.below(self.intents.len());
        let t = self.instance(rng, n, rng.clone().chance(30)).text;
        let mut ws: Vec<String> = t.split(' ').map(str::to_string).collect();
        for _ in 0..rng.range(1, 2) {
            let k = rng.below(ws.len());
            match rng.below(6) {
                0 => {
                    ws.remove(k);
                }
                1 => ws.insert(k, rng.pick(CARRIERS).to_string()),
                2 => ws.insert(k, self.some_word(rng)),
                3 => {
                    let l = rng.below(ws.len());
                    ws.swap(k, l)
                }
                4 => ws[k] = self.some_word(rng),
                _ => {
                    let w = ws[k].clone();
                    ws.insert(k, w)
                }
            }
            if ws.is_empty() {
                ws.push(self.some_word(rng));
            }
        }
        ws.join(" ")
    }

    pub fn some_word(&self, rng: &mut Rng) -> String {
        match rng.below(10) {
            0..=2 => rng.pick(CARRIERS).to_string(),
            3 => rng.pick(STOPS).to_string(),
            4 => rng.pick(VALUES).to_string(),
            5 | 6 => {
                let e = rng.pick(&self.entities).name.clone();
                self.random_value(rng, &e).unwrap().join(" ")
            }
            7 | 8 => {
                let k = rng.pick(&self.kinds()).clone();
                self.random_value(rng, &k).unwrap().join(" ")
            }
            _ => format!("{}", rng.below(100)),
        }
    }

    pub fn soup(&self, rng: &mut Rng) -> String {
        let mut t = String::new();
        for k in 0..rng.range(1, 7) {
            if k > 0 {
                t.push_str(&separator(rng, false));
            }
            let w = self.some_word(rng);
            t.push_str(&random_case(rng, &w));
        }
        t
    }

    /// texts that are ordinary enough for the exact oracles
    pub fn text(&self, rng: &mut Rng) -> String {
        match rng.below(10) {
            0..=4 => {
                let n = rng.below(self.intents.len());
                let plain = rng.chance(25);
                self.instance(rng, n, plain).text
            }
            5..=7 => self.mutated(rng),
            8 => self.soup(rng),
            _ => {
                // two utterances in one text
                let a = rng.below(self.intents.len());
                let b = rng.below(self.intents.len());
                format!("{} {}", self.instance(rng, a, false).text, self.instance(rng, b, false).text)
            }
        }
    }

    pub fn hostile(&self, rng: &mut Rng) -> String {
        let base = self.text(rng);
        let insert = |rng: &mut Rng, s: &str, what: &str| {
            let n = s.chars().count();
            let k = rng.below(n + 1);
            let mut t: String = s.chars().take(k).collect();
            t.push_str(what);
            t.extend(s.chars().skip(k));
            t
        };
        match rng.below(24) {
            0 => rng.pick(&["", " ", "\t\n", "\u{0}", "\u{0}\u{0} \u{0}", "\u{200b}", "\u{feff}", "\u{3000}"]).to_string(),
            1 => insert(rng, &base, "\u{0}"),
            2 => insert(rng, &base, "\u{301}"),
            3 => insert(rng, &base, "İ"),
            4 => insert(rng, &base, "İstanbul "),
            5 => insert(rng, &base, rng.clone().pick(&["ẞ", "ﬁ", "ŉ", "ǰ", "ΐ", "K", "Å", "ſ", "ǅ", "Σ", "ΑΣ "])),
            6 => insert(rng, &base, rng.clone().pick(&["😀", "👨‍👩‍👧", "🇫🇷", "\u{1F600}\u{FE0F}", "𝔸"])),
            7 => insert(rng, &base, rng.clone().pick(&["שלום", "العربية", "\u{202e}abc", "हिन्दी", "ไทย"])),
            8 => insert(rng, &base, rng.clone().pick(&["(?P<x>", "[", "\\", "\\s*", "^$", "*+?", "{1,9}", "|"])),
            9 => insert(rng, &base, &placeholder(&rng.clone().pick(&self.entities).name)),
            10 => {
                let k = rng.pick(&self.kinds()).clone();
                insert(rng, &base, &placeholder(&k))
            }
            11 => {
                // an utterance with its markers left in
                let i = rng.pick(&self.intents);
                let u = rng.pick(&i.utts);
                u.iter()
                    .map(|c| match c {
                        Chunk::Text(t) => t.clone(),
                        Chunk::Slot(s) => {
                            if rng.chance(70) {
                                placeholder(i.entity_of(s))
                            } else {
                                "%".to_string()
                            }
                        }
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            }
            12 => base.chars().flat_map(|c| vec![c, '\u{300}']).collect(),
            13 => base.chars().rev().collect(),
            14 => base.to_uppercase(),
            15 => (0..rng.range(1, 30)).map(|_| std::char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect(),
            16 => (0..rng.range(1, 40)).map(|_| *rng.pick(&['İ', 'ß', 'é', '%', ' ', '\u{301}', 'a', '2', '.', '$', '€', '\u{0}', '日'])).collect(),
            17 => format!("{}{}", "İ".repeat(rng.range(1, 4)), base),
            18 => {
                let pad = rng.range(1, 60);
                format!("{}{}{}", ".".repeat(pad), base, ",".repeat(pad))
            }
            19 => base.split(' ').map(|w| format!("{}{}", w, w)).collect::<Vec<_>>().join(""),
            20 => base.replace(' ', "\u{a0}"),
            21 => format!("{} {} {}", base, base, base),
            22 => insert(rng, &base, rng.clone().pick(&["99999999999999999999", "-0", "1e400", "0x10", "１２", "½", "٣"])),
            _ => base.chars().map(|c| if rng.chance(15) { 'é' } else { c }).collect(),
        }
    }

    /// Texts easily taken for the given one: other blanks, accents, punctuation, order of the words, or a
    /// long common beginning or end.
    pub fn relatives(&self, rng: &mut Rng, texts: &[String]) -> Vec<String> {
        let mut out = vec![];
        let pad = rng.pick(&["z", "zq", "日", "ñ", "z "]).repeat(*rng.pick(&[8, 16, 33, 65, 130, 257, 520, 1030, 4100]) / 2);
        let (before, after) = (rng.chance(70), rng.chance(40));
        for t in texts {
            let mut words: Vec<&str> = t.split(' ').collect();
            out.push(match rng.below(8) {
                0 => words.join("  "),
                1 => format!("{} ", t.trim()),
                2 => {
                    rng.shuffle(&mut words);
                    words.join(" ")
                }
                3 => {
                    words.reverse();
                    words.join(" ")
                }
                4 => snips_nlu_utils::string::normalize(t),
                5 => t.chars().map(|c| if ",.!?-'".contains(c) { *rng.pick(&[',', '.', '!', ' ']) } else { c }).collect(),
                6 if !words.is_empty() => {
                    let k = rng.below(words.len());
                    let n = words[k].chars().count();
                    let same: Vec<&str> = texts.iter().flat_map(|t| t.split(' ')).filter(|w| w.chars().count() == n).collect();
                    words[k] = *rng.pick(&same);
                    words.join(" ")
                }
                _ => {
                    let mut t = t.clone();
                    t.pop();
                    t
                }
            });
            if before || after {
                out.push(format!("{}{}{}", if before { format!("{} ", pad) } else { String::new() }, t, if after { format!(" {}", pad) } else { String::new() }));
            }
        }
        out
    }

    /// long texts; the number of entities stays small, as the lookup parser tries all their subsets
    pub fn long(&self, rng: &mut Rng) -> String {
        let n = [300, 3_000, 33_000, 40_000, 70_000][rng.below(if cfg!(verif_tsan) { 2 } else { 5 })];
        let filler = rng.pick(&["zz ", "zzz", ".", " ", "é", "zz, ", "日x "]).to_string();
        let pad = filler.repeat(n / filler.chars().count() + 1);
        let i = rng.below(self.intents.len());
        let j = rng.below(self.intents.len());
        match rng.below(4) {
            0 => format!("{} {}", pad, self.instance(rng, i, false).text),
            1 => format!("{} {}", self.instance(rng, i, false).text, pad),
            2 => format!("{} {} {}", self.instance(rng, i, false).text, pad, self.instance(rng, j, false).text),
            _ => {
                // blanks and ignored marks only, so that it is still an instance
                let b = rng.pick(&[" ", ".", ", "]).repeat(n);
                let t = self.instance(rng, i, false).text;
                let at = t.find(' ').unwrap_or(0);
                format!("{}{} {}{}", b, &t[..at], b, &t[at..])
            }
        }
    }

    /// a value the engine could give for a slot, as text
    pub fn slot_text(&self, rng: &mut Rng, entity: &str) -> String {
        let v = self.random_value(rng, entity).map(|v| v.join(" ")).unwrap_or_default();
        match rng.below(6) {
            0 => v,
            1 => random_case(rng, &v),
            2 => format!("{} {}", rng.pick(CARRIERS), v),
            3 => format!("{}, {}", v, self.some_word(rng)),
            4 => self.soup(rng),
            _ => self.hostile(rng),
        }
    }
}

pub fn js(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}
