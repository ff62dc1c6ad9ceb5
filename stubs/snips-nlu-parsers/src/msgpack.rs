//! Reader of the bundled gazetteer parsers (msgpack).
use super::gazetteer_entity_parser::Data;
use super::Result;
use failure::format_err;
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
enum V {
    Nil,
    Int(i64),
    Str(String),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8]> {
        if n > self.b.len() - self.i {
            return Err(format_err!("truncated msgpack data"));
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn uint(&mut self, n: usize) -> Result<u64> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | u64::from(*b)))
    }
    fn str(&mut self, n: usize) -> Result<V> {
        Ok(V::Str(String::from_utf8(self.take(n)?.to_vec())?))
    }
    fn arr(&mut self, n: usize) -> Result<V> {
        Ok(V::Arr((0..n).map(|_| self.value()).collect::<Result<_>>()?))
    }
    fn map(&mut self, n: usize) -> Result<V> {
        Ok(V::Map((0..n).map(|_| Ok((self.value()?, self.value()?))).collect::<Result<_>>()?))
    }
    fn value(&mut self) -> Result<V> {
        let t = self.take(1)?[0];
        match t {
            0x00..=0x7f => Ok(V::Int(i64::from(t))),
            0x80..=0x8f => self.map((t & 15) as usize),
            0x90..=0x9f => self.arr((t & 15) as usize),
            0xa0..=0xbf => self.str((t & 31) as usize),
            0xc0 | 0xc2 | 0xc3 => Ok(V::Nil),
            0xca => self.take(4).map(|_| V::Nil),
            0xcb => self.take(8).map(|_| V::Nil),
            0xcc..=0xcf => Ok(V::Int(self.uint(1 << (t - 0xcc))? as i64)),
            0xd9..=0xdb => {
                let n = self.uint(1 << (t - 0xd9))? as usize;
                self.str(n)
            }
            0xdc | 0xdd => {
                let n = self.uint(2 << (t - 0xdc))? as usize;
                self.arr(n)
            }
            0xde | 0xdf => {
                let n = self.uint(2 << (t - 0xde))? as usize;
                self.map(n)
            }
            _ => Err(format_err!("unsupported msgpack type {:x}", t)),
        }
    }
}

impl V {
    fn int(&self) -> Result<i64> {
        match self {
            V::Int(i) => Ok(*i),
            V::Str(s) => Ok(s.parse()?),
            _ => Err(format_err!("unexpected msgpack value")),
        }
    }
    fn string(&self) -> Result<String> {
        match self {
            V::Str(s) => Ok(s.clone()),
            _ => Err(format_err!("unexpected msgpack value")),
        }
    }
    fn at(&self, i: usize) -> Result<&V> {
        match self {
            V::Arr(a) => a.get(i).ok_or_else(|| format_err!("short msgpack array")),
            _ => Err(format_err!("unexpected msgpack value")),
        }
    }
    fn entries(&self) -> Result<&Vec<(V, V)>> {
        match self {
            V::Map(m) => Ok(m),
            _ => Err(format_err!("unexpected msgpack value")),
        }
    }
}

pub(crate) fn gazetteer(bytes: &[u8]) -> Result<Data> {
    let v = R { b: bytes, i: 0 }.value()?;
    let mut token = BTreeMap::new();
    for (k, id) in v.at(0)?.at(0)?.entries()? {
        token.insert(id.int()?, k.string()?);
    }
    let mut resolved = BTreeMap::new();
    for (id, s) in v.at(1)?.at(0)?.entries()? {
        resolved.insert(id.int()?, s.string()?);
    }
    let mut values = BTreeMap::new();
    for (id, e) in v.at(3)?.entries()? {
        let ids = match e.at(1)? {
            V::Arr(a) => a.iter().map(V::int).collect::<Result<Vec<_>>>()?,
            _ => return Err(format_err!("unexpected msgpack value")),
        };
        let words = ids
            .iter()
            .map(|i| token.get(i).cloned().ok_or_else(|| format_err!("unknown token {}", i)))
            .collect::<Result<Vec<_>>>()?;
        let r = resolved.get(&id.int()?).cloned().ok_or_else(|| format_err!("unknown value"))?;
        values.insert((e.at(0)?.int()?, id.int()?), (words.join(" "), r));
    }
    Ok(Data { values: values.into_iter().map(|(_, v)| v).collect(), ..Data::default() })
}
