//! Stand-in for zip 0.5: reading archives with stored and deflated entries.
use std::io::{self, Read, Seek, SeekFrom};
use std::path::{Component, Path, PathBuf};

pub mod result {
    use std::{error, fmt, io};
    pub type ZipResult<T> = Result<T, ZipError>;
    #[derive(Debug)]
    pub enum ZipError { Io(io::Error), InvalidArchive(&'static str), UnsupportedArchive(&'static str), FileNotFound }
    impl fmt::Display for ZipError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                ZipError::Io(e) => write!(f, "io Error: {}", e),
                ZipError::InvalidArchive(s) => write!(f, "Invalid Zip archive: {}", s),
                ZipError::UnsupportedArchive(s) => write!(f, "Unsupported Zip archive: {}", s),
                ZipError::FileNotFound => write!(f, "Specified file not found in archive"),
            }
        }
    }
    impl error::Error for ZipError {}
    impl From<io::Error> for ZipError { fn from(e: io::Error) -> Self { ZipError::Io(e) } }
    impl From<ZipError> for io::Error { fn from(e: ZipError) -> io::Error { io::Error::new(io::ErrorKind::Other, e) } }
}
use result::{ZipError, ZipResult};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompressionMethod { Stored, Deflated, Unsupported(u16) }

#[derive(Debug, Clone)]
struct Entry { name: String, raw_name: Vec<u8>, method: u16, encrypted: bool, crc: u32, csize: u64, size: u64, header: u64, external: u32, made_by: u8 }

#[derive(Debug, Clone)]
pub struct ZipArchive<R> { reader: R, entries: Vec<Entry>, comment: Vec<u8> }

pub struct ZipFile<'a> { entry: Entry, source: Option<io::Take<&'a mut dyn Read>>, data: io::Cursor<Vec<u8>>, crc_bad: bool, broken: Option<io::Error> }

fn u16le(b: &[u8], o: usize) -> u16 { u16::from(b[o]) | u16::from(b[o + 1]) << 8 }
fn u32le(b: &[u8], o: usize) -> u32 { u32::from(u16le(b, o)) | u32::from(u16le(b, o + 2)) << 16 }

fn crc32(data: &[u8]) -> u32 {
    let mut table = [0u32; 256];
    for (i, t) in table.iter_mut().enumerate() {
        let mut c = i as u32;
        for _ in 0..8 { c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 } }
        *t = c;
    }
    let mut c = !0u32;
    for b in data { c = table[((c ^ u32::from(*b)) & 255) as usize] ^ (c >> 8); }
    !c
}

impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut reader: R) -> ZipResult<ZipArchive<R>> {
        let len = reader.seek(SeekFrom::End(0))?;
        if len < 22 { return Err(ZipError::InvalidArchive("Invalid zip header")); }
        let tail_len = std::cmp::min(len, 22 + 65535);
        reader.seek(SeekFrom::Start(len - tail_len))?;
        let mut tail = vec![0; tail_len as usize];
        reader.read_exact(&mut tail)?;
        let pos = (0..=tail.len() - 22).rev().find(|p| u32le(&tail, *p) == 0x0605_4b50)
            .ok_or(ZipError::InvalidArchive("Could not find central directory end"))?;
        let e = &tail[pos..];
        let (disk, cd_disk) = (u16le(e, 4), u16le(e, 6));
        if disk != cd_disk { return Err(ZipError::UnsupportedArchive("Support for multi-disk files is not implemented")); }
        let n = u16le(e, 10) as usize;
        let (cd_size, cd_off) = (u64::from(u32le(e, 12)), u64::from(u32le(e, 16)));
        let eocd = len - tail_len + pos as u64;
        let archive_offset = eocd.checked_sub(cd_size).and_then(|x| x.checked_sub(cd_off))
            .ok_or(ZipError::InvalidArchive("Invalid central directory size or offset"))?;
        let comment = e[22..].to_vec();
        reader.seek(SeekFrom::Start(archive_offset + cd_off))?;
        let mut entries = vec![];
        for _ in 0..n {
            let mut h = [0u8; 46];
            reader.read_exact(&mut h)?;
            if u32le(&h, 0) != 0x0201_4b50 { return Err(ZipError::InvalidArchive("Invalid Central Directory header")); }
            let mut name = vec![0; u16le(&h, 28) as usize];
            reader.read_exact(&mut name)?;
            let mut skip = vec![0; u16le(&h, 30) as usize + u16le(&h, 32) as usize];
            reader.read_exact(&mut skip)?;
            let flags = u16le(&h, 8);
            entries.push(Entry {
                name: if flags & (1 << 11) != 0 { String::from_utf8_lossy(&name).into_owned() } else { cp437(&name) },
                raw_name: name,
                method: u16le(&h, 10), encrypted: flags & 1 != 0, crc: u32le(&h, 16),
                csize: u64::from(u32le(&h, 20)), size: u64::from(u32le(&h, 24)),
                header: archive_offset + u64::from(u32le(&h, 42)), external: u32le(&h, 38), made_by: h[5],
            });
        }
        Ok(ZipArchive { reader, entries, comment })
    }
    pub fn len(&self) -> usize { self.entries.len() }
    pub fn is_empty(&self) -> bool { self.entries.is_empty() }
    pub fn comment(&self) -> &[u8] { &self.comment }
    pub fn file_names(&self) -> impl Iterator<Item = &str> { self.entries.iter().map(|e| &*e.name) }
    pub fn into_inner(self) -> R { self.reader }
    pub fn by_name<'a>(&'a mut self, name: &str) -> ZipResult<ZipFile<'a>> {
        let i = self.entries.iter().rposition(|e| e.name == name).ok_or(ZipError::FileNotFound)?;
        self.by_index(i)
    }
    pub fn by_index(&mut self, i: usize) -> ZipResult<ZipFile<'_>> {
        let entry = self.entries.get(i).cloned().ok_or(ZipError::FileNotFound)?;
        if entry.encrypted { return Err(ZipError::UnsupportedArchive("Encrypted files are not supported")); }
        self.reader.seek(SeekFrom::Start(entry.header))?;
        let mut h = [0u8; 30];
        self.reader.read_exact(&mut h)?;
        if u32le(&h, 0) != 0x0403_4b50 { return Err(ZipError::InvalidArchive("Invalid local file header")); }
        self.reader.seek(SeekFrom::Current(i64::from(u16le(&h, 26)) + i64::from(u16le(&h, 28))))?;
        if entry.method != 0 && entry.method != 8 { return Err(ZipError::UnsupportedArchive("Compression method not supported")); }
        let source = Read::take(&mut self.reader as &mut dyn Read, entry.csize);
        Ok(ZipFile { entry, source: Some(source), data: io::Cursor::new(vec![]), crc_bad: false, broken: None })
    }
}

fn cp437(b: &[u8]) -> String {
    // the upper half is approximated: only its injectivity matters here
    b.iter().map(|c| if *c < 0x80 { *c as char } else { std::char::from_u32(0x2500 + u32::from(*c)).unwrap() }).collect()
}

impl<'a> ZipFile<'a> {
    pub fn name(&self) -> &str { &self.entry.name }
    pub fn name_raw(&self) -> &[u8] { &self.entry.raw_name }
    pub fn sanitized_name(&self) -> PathBuf {
        let no_null = match self.entry.name.find('\0') {
            Some(i) => &self.entry.name[0..i],
            None => &self.entry.name,
        };
        let separator = std::path::MAIN_SEPARATOR;
        let opposite = if separator == '/' { '\\' } else { '/' };
        let filename = no_null.replace(&opposite.to_string(), &separator.to_string());
        Path::new(&filename).components()
            .filter(|c| match *c { Component::Normal(..) => true, _ => false })
            .fold(PathBuf::new(), |mut path, ref cur| { path.push(cur.as_os_str()); path })
    }
    pub fn mangled_name(&self) -> PathBuf { self.sanitized_name() }
    pub fn enclosed_name(&self) -> Option<&Path> {
        if self.entry.name.contains('\0') { return None; }
        let path = Path::new(&self.entry.name);
        let mut depth = 0usize;
        for c in path.components() {
            match c {
                Component::Prefix(_) | Component::RootDir => return None,
                Component::ParentDir => depth = depth.checked_sub(1)?,
                Component::Normal(_) => depth += 1,
                Component::CurDir => (),
            }
        }
        Some(path)
    }
    pub fn comment(&self) -> &str { "" }
    pub fn compression(&self) -> CompressionMethod {
        match self.entry.method { 0 => CompressionMethod::Stored, 8 => CompressionMethod::Deflated, m => CompressionMethod::Unsupported(m) }
    }
    pub fn compressed_size(&self) -> u64 { self.entry.csize }
    pub fn size(&self) -> u64 { self.entry.size }
    pub fn is_dir(&self) -> bool { self.entry.name.chars().rev().next().map_or(false, |c| c == '/' || c == '\\') }
    pub fn is_file(&self) -> bool { !self.is_dir() }
    pub fn unix_mode(&self) -> Option<u32> {
        if self.entry.external == 0 || self.entry.made_by != 3 { None } else { Some(self.entry.external >> 16) }
    }
    pub fn crc32(&self) -> u32 { self.entry.crc }
}

impl<'a> Read for ZipFile<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        // the data is read when it is asked for; if that fails, so does this reader after what was read
        if let Some(mut source) = self.source.take() {
            let mut raw = vec![];
            self.broken = source.read_to_end(&mut raw).err();
            let (data, bad) = match self.entry.method {
                0 => (raw, false),
                _ => match miniz_oxide::inflate::decompress_to_vec_with_limit(&raw, 256 << 20) {
                    Ok(d) => (d, false),
                    Err(e) => (e.output, true),
                },
            };
            self.crc_bad = bad || crc32(&data) != self.entry.crc;
            self.data = io::Cursor::new(data);
        }
        // a piece at a time, like an inflating reader
        let most = std::cmp::min(buf.len(), 1021);
        let n = self.data.read(&mut buf[..most])?;
        if n == 0 && !buf.is_empty() {
            if let Some(e) = self.broken.take() {
                return Err(e);
            }
        }
        if n == 0 && !buf.is_empty() && self.crc_bad {
            return Err(io::Error::new(io::ErrorKind::Other, "Invalid checksum"));
        }
        Ok(n)
    }
}

pub mod read { pub use super::{ZipArchive, ZipFile}; }
