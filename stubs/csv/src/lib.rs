//! Stand-in for csv 1: the reader, with delimiter, quoting, flexible and header options.
use std::fmt;
use std::io::{self, Read};
use std::ops::Index;

#[derive(Debug)]
pub enum ErrorKind { Io(io::Error), Utf8 { record: u64 }, UnequalLengths { expected_len: u64, len: u64 } }
#[derive(Debug)]
pub struct Error(Box<ErrorKind>);
pub type Result<T> = std::result::Result<T, Error>;

impl Error { pub fn kind(&self) -> &ErrorKind { &self.0 } }
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &*self.0 {
            ErrorKind::Io(e) => e.fmt(f),
            ErrorKind::Utf8 { record } => write!(f, "CSV parse error: record {}: invalid utf-8", record),
            ErrorKind::UnequalLengths { expected_len, len } => write!(
                f, "CSV error: found record with {} fields, but the previous record has {} fields", len, expected_len),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct StringRecord(Vec<String>);
impl StringRecord {
    pub fn new() -> Self { StringRecord(vec![]) }
    pub fn iter(&self) -> StringRecordIter { StringRecordIter(self.0.iter()) }
    pub fn get(&self, i: usize) -> Option<&str> { self.0.get(i).map(|s| &**s) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
impl Index<usize> for StringRecord {
    type Output = str;
    fn index(&self, i: usize) -> &str { self.get(i).unwrap() }
}
impl<'a> IntoIterator for &'a StringRecord {
    type Item = &'a str;
    type IntoIter = StringRecordIter<'a>;
    fn into_iter(self) -> StringRecordIter<'a> { self.iter() }
}
#[derive(Clone)]
pub struct StringRecordIter<'a>(std::slice::Iter<'a, String>);
impl<'a> Iterator for StringRecordIter<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> { self.0.next().map(|s| &**s) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<'a> DoubleEndedIterator for StringRecordIter<'a> {
    fn next_back(&mut self) -> Option<&'a str> { self.0.next_back().map(|s| &**s) }
}
impl<'a> ExactSizeIterator for StringRecordIter<'a> {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Trim { None, Headers, Fields, All }

#[derive(Debug, Clone)]
pub struct ReaderBuilder { delimiter: u8, quoting: bool, flexible: bool, has_headers: bool, trim: bool, comment: Option<u8> }
impl Default for ReaderBuilder { fn default() -> Self { Self::new() } }
impl ReaderBuilder {
    pub fn new() -> Self {
        ReaderBuilder { delimiter: b',', quoting: true, flexible: false, has_headers: true, trim: false, comment: None }
    }
    pub fn delimiter(&mut self, d: u8) -> &mut Self { self.delimiter = d; self }
    pub fn quoting(&mut self, y: bool) -> &mut Self { self.quoting = y; self }
    pub fn flexible(&mut self, y: bool) -> &mut Self { self.flexible = y; self }
    pub fn has_headers(&mut self, y: bool) -> &mut Self { self.has_headers = y; self }
    pub fn trim(&mut self, t: Trim) -> &mut Self { self.trim = t == Trim::All || t == Trim::Fields; self }
    pub fn comment(&mut self, c: Option<u8>) -> &mut Self { self.comment = c; self }
    pub fn from_reader<R: Read>(&self, rdr: R) -> Reader<R> { Reader { opts: self.clone(), rdr, parsed: None, len: None, n: 0 } }
}

pub struct Reader<R> { opts: ReaderBuilder, rdr: R, parsed: Option<std::vec::IntoIter<Vec<Vec<u8>>>>, len: Option<usize>, n: u64 }

impl<R: Read> Reader<R> {
    pub fn from_reader(rdr: R) -> Reader<R> { ReaderBuilder::new().from_reader(rdr) }
    pub fn records(&mut self) -> StringRecordsIter<R> { StringRecordsIter { r: self } }
    pub fn into_records(self) -> StringRecordsIntoIter<R> { StringRecordsIntoIter { r: self } }

    fn parse(&mut self) -> io::Result<Vec<Vec<Vec<u8>>>> {
        let mut data = vec![];
        self.rdr.read_to_end(&mut data)?;
        let data: &[u8] = if data.starts_with(b"\xef\xbb\xbf") { &data[3..] } else { &data };
        let (mut records, mut record, mut field) = (vec![], vec![], vec![]);
        let (mut i, mut started) = (0, false);
        while i < data.len() {
            let b = data[i];
            if !started && record.is_empty() && (b == b'\n' || b == b'\r') { i += 1; continue; }
            if !started && record.is_empty() && self.opts.comment == Some(b) {
                while i < data.len() && data[i] != b'\n' { i += 1; }
                continue;
            }
            if self.opts.quoting && b == b'"' && field.is_empty() {
                i += 1;
                while i < data.len() {
                    if data[i] == b'"' {
                        if data.get(i + 1) == Some(&b'"') { field.push(b'"'); i += 2; continue; }
                        i += 1;
                        break;
                    }
                    field.push(data[i]);
                    i += 1;
                }
                started = true;
                continue;
            }
            if b == self.opts.delimiter {
                record.push(std::mem::replace(&mut field, vec![]));
                started = true;
            } else if b == b'\n' || b == b'\r' {
                record.push(std::mem::replace(&mut field, vec![]));
                records.push(std::mem::replace(&mut record, vec![]));
                started = false;
            } else {
                field.push(b);
                started = true;
            }
            i += 1;
        }
        if started { record.push(field); records.push(record); }
        if self.opts.has_headers && !records.is_empty() { records.remove(0); }
        Ok(records)
    }

    fn next_record(&mut self) -> Option<Result<StringRecord>> {
        if self.parsed.is_none() {
            match self.parse() {
                Ok(v) => self.parsed = Some(v.into_iter()),
                Err(e) => { self.parsed = Some(vec![].into_iter()); return Some(Err(Error(Box::new(ErrorKind::Io(e))))); }
            }
        }
        let rec = self.parsed.as_mut().unwrap().next()?;
        self.n += 1;
        if !self.opts.flexible {
            let expected = *self.len.get_or_insert(rec.len());
            if expected != rec.len() {
                return Some(Err(Error(Box::new(ErrorKind::UnequalLengths { expected_len: expected as u64, len: rec.len() as u64 }))));
            }
        }
        let trim = self.opts.trim;
        let n = self.n;
        Some(rec.into_iter()
            .map(|f| String::from_utf8(f).map(|s| if trim { s.trim().to_string() } else { s }))
            .collect::<std::result::Result<Vec<_>, _>>()
            .map(StringRecord)
            .map_err(|_| Error(Box::new(ErrorKind::Utf8 { record: n }))))
    }
}

pub struct StringRecordsIter<'r, R: 'r> { r: &'r mut Reader<R> }
impl<'r, R: Read> Iterator for StringRecordsIter<'r, R> {
    type Item = Result<StringRecord>;
    fn next(&mut self) -> Option<Self::Item> { self.r.next_record() }
}
pub struct StringRecordsIntoIter<R> { r: Reader<R> }
impl<R: Read> Iterator for StringRecordsIntoIter<R> {
    type Item = Result<StringRecord>;
    fn next(&mut self) -> Option<Self::Item> { self.r.next_record() }
}
