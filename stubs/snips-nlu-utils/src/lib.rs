//! Stand-in for snips-nlu-utils: tokenization, string and range helpers.
pub mod language {
    use std::str::FromStr;

    #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
    #[allow(non_camel_case_types)]
    pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_BR, PT_PT }

    impl Language {
        pub fn all() -> &'static [Language] {
            use Language::*;
            &[DE, EN, ES, FR, IT, JA, KO, PT_BR, PT_PT]
        }
        pub fn as_str(self) -> &'static str {
            match self {
                Language::DE => "de",
                Language::EN => "en",
                Language::ES => "es",
                Language::FR => "fr",
                Language::IT => "it",
                Language::JA => "ja",
                Language::KO => "ko",
                Language::PT_BR => "pt_br",
                Language::PT_PT => "pt_pt",
            }
        }
    }

    impl std::fmt::Display for Language {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(self.as_str())
        }
    }

    impl FromStr for Language {
        type Err = failure::Error;
        fn from_str(s: &str) -> Result<Self, Self::Err> {
            Language::all()
                .iter()
                .find(|l| l.as_str() == s || format!("{:?}", l) == s)
                .cloned()
                .ok_or_else(|| failure::format_err!("Unknown language: {}", s))
        }
    }
}

pub mod range {
    use std::ops::Range;

    pub fn ranges_overlap(lhs_range: &Range<usize>, rhs_range: &Range<usize>) -> bool {
        lhs_range.start < rhs_range.end && lhs_range.end > rhs_range.start
    }
}

pub mod string {
    use std::ops::Range;
    use unicode_normalization::char::is_combining_mark;
    use unicode_normalization::UnicodeNormalization;

    /// 64-bit FNV-1a truncated to 32 bits: the bundled lookup models confirm this function.
    pub fn hash_str_to_i32(input: &str) -> i32 {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for b in input.as_bytes() {
            h ^= u64::from(*b);
            h = h.wrapping_mul(0x0100_0000_01b3);
        }
        h as i32
    }

    pub fn remove_diacritics(s: &str) -> String {
        if s.is_ascii() {
            return s.to_string();
        }
        s.nfd().filter(|c| !is_combining_mark(*c)).nfc().collect()
    }

    pub fn normalize(s: &str) -> String {
        remove_diacritics(&s.trim().to_lowercase())
    }

    pub fn capitalize(s: &str) -> String {
        let mut it = s.chars();
        match it.next() {
            None => String::new(),
            Some(c) => c.to_uppercase().collect::<String>() + it.as_str(),
        }
    }

    pub fn capitalize_words(s: &str) -> String {
        s.split(' ').map(capitalize).collect::<Vec<_>>().join(" ")
    }

    pub fn get_shape(string: &str) -> String {
        if string.chars().all(char::is_lowercase) {
            "xxx".to_string()
        } else if string.chars().all(char::is_uppercase) {
            "XXX".to_string()
        } else {
            let mut it = string.chars();
            let first_upper = it.next().map_or(false, char::is_uppercase);
            if first_upper && it.all(char::is_lowercase) {
                "Xxx".to_string()
            } else {
                "xX".to_string()
            }
        }
    }

    fn byte_index(s: &str, char_index: usize) -> usize {
        s.char_indices().nth(char_index).map_or(s.len(), |(i, _)| i)
    }

    pub fn substring_with_char_range(input_string: String, range: &Range<usize>) -> String {
        input_string
            .chars()
            .skip(range.start)
            .take(range.end.saturating_sub(range.start))
            .collect()
    }

    pub fn prefix_until_char_index(string: String, index: usize) -> String {
        let i = byte_index(&string, index);
        string[..i].to_string()
    }

    pub fn suffix_from_char_index(string: String, index: usize) -> String {
        let i = byte_index(&string, index);
        string[i..].to_string()
    }

    pub fn convert_to_char_index(string: &str, byte_index: usize) -> usize {
        string.char_indices().take_while(|(i, _)| *i < byte_index).count()
    }

    pub fn convert_to_byte_index(string: &str, char_index: usize) -> usize {
        byte_index(string, char_index)
    }

    pub fn convert_to_char_range(string: &str, range: &Range<usize>) -> Range<usize> {
        convert_to_char_index(string, range.start)..convert_to_char_index(string, range.end)
    }

    pub fn convert_to_byte_range(string: &str, range: &Range<usize>) -> Range<usize> {
        byte_index(string, range.start)..byte_index(string, range.end)
    }

    pub fn get_char_range(string: &str, byte_range: &Range<usize>) -> Range<usize> {
        convert_to_char_range(string, byte_range)
    }
}

pub mod token {
    use crate::language::Language;
    use crate::string::normalize;
    use std::ops::Range;

    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Token {
        pub value: String,
        pub range: Range<usize>,
        pub char_range: Range<usize>,
        pub entity: Option<String>,
    }

    impl Token {
        pub fn new(value: String, range: Range<usize>, char_range: Range<usize>) -> Token {
            Token { value, range, char_range, entity: None }
        }
        pub fn normalized_value(&self) -> String {
            normalize(&self.value)
        }
    }

    fn is_word_char(c: char) -> bool {
        c.is_alphanumeric() || c == '_' || unicode_normalization::char::is_combining_mark(c)
    }

    fn is_symbol(c: char) -> bool {
        matches!(
            c,
            '?' | '!' | '&' | '%' | '{' | '}' | '[' | ']' | '(' | ')' | '°' | '$' | '…' | '€' | '£' | '¥' | '₩' | '₹'
                | '₿' | '¢' | '฿' | '₺' | '₽'
        )
    }

    pub fn tokenize(input: &str, _language: Language) -> Vec<Token> {
        let mut tokens = vec![];
        let mut current: Option<(usize, usize)> = None;
        let mut char_index = 0;
        for (byte_index, c) in input.char_indices() {
            if is_word_char(c) {
                if current.is_none() {
                    current = Some((byte_index, char_index));
                }
            } else {
                if let Some((b, ci)) = current.take() {
                    tokens.push(Token::new(input[b..byte_index].to_string(), b..byte_index, ci..char_index));
                }
                if is_symbol(c) {
                    let end = byte_index + c.len_utf8();
                    tokens.push(Token::new(c.to_string(), byte_index..end, char_index..char_index + 1));
                }
            }
            char_index += 1;
        }
        if let Some((b, ci)) = current {
            tokens.push(Token::new(input[b..].to_string(), b..input.len(), ci..char_index));
        }
        tokens
    }

    pub fn tokenize_light(input: &str, language: Language) -> Vec<String> {
        tokenize(input, language).into_iter().map(|t| t.value).collect()
    }

    /// All n-grams of the tokens with n from 1 to `max_ngram_size`, with the indexes they cover.
    pub fn compute_all_ngrams(tokens: &[&str], max_ngram_size: usize) -> Vec<(String, Vec<usize>)> {
        let mut ngrams = vec![];
        for start in 0..tokens.len() {
            let mut last = String::new();
            let mut indexes = vec![];
            let max_end = std::cmp::min(tokens.len(), start + max_ngram_size);
            for (end, token) in tokens.iter().enumerate().take(max_end).skip(start) {
                if end > start {
                    last.push(' ');
                }
                last.push_str(token);
                indexes.push(end);
                ngrams.push((last.clone(), indexes.clone()));
            }
        }
        ngrams
    }
}
