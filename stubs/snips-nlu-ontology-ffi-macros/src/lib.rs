//! Stand-in for snips-nlu-ontology-ffi-macros: C layouts of platforms/c/libsnips_nlu.h.
use libc::{c_char, c_float, c_void};
use snips_nlu_ontology::*;
use std::ffi::CString;
use std::ptr::null;

fn s(v: String) -> *const c_char {
    // a NUL cannot be represented: cut there
    let v = match v.find('\0') {
        Some(i) => v[..i].to_string(),
        None => v,
    };
    CString::new(v).unwrap().into_raw()
}
fn opt(v: Option<String>) -> *const c_char {
    v.map_or(null(), s)
}
unsafe fn free_s(p: *const c_char) {
    if !p.is_null() {
        drop(CString::from_raw(p as *mut c_char));
    }
}
fn boxed<T>(v: T) -> *const T {
    Box::into_raw(Box::new(v))
}
unsafe fn free_box<T>(p: *const T) {
    if !p.is_null() {
        drop(Box::from_raw(p as *mut T));
    }
}
fn array<T>(v: Vec<T>) -> (*const T, i32) {
    let n = v.len() as i32;
    (Box::into_raw(v.into_boxed_slice()) as *const T, n)
}
unsafe fn free_array<T>(p: *const T, n: i32) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p as *mut T, n as usize)));
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentClassifierResult {
    pub intent_name: *const c_char,
    pub confidence_score: c_float,
}
impl From<IntentClassifierResult> for CIntentClassifierResult {
    fn from(r: IntentClassifierResult) -> Self {
        Self { intent_name: opt(r.intent_name), confidence_score: r.confidence_score }
    }
}
impl Drop for CIntentClassifierResult {
    fn drop(&mut self) {
        unsafe { free_s(self.intent_name) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentClassifierResultArray {
    pub intent_classifier_results: *const CIntentClassifierResult,
    pub size: i32,
}
impl From<Vec<IntentClassifierResult>> for CIntentClassifierResultArray {
    fn from(v: Vec<IntentClassifierResult>) -> Self {
        let (p, size) = array(v.into_iter().map(CIntentClassifierResult::from).collect());
        Self { intent_classifier_results: p, size }
    }
}
impl Drop for CIntentClassifierResultArray {
    fn drop(&mut self) {
        unsafe { free_array(self.intent_classifier_results, self.size) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CInstantTimeValue {
    pub value: *const c_char,
    pub grain: i32,
    pub precision: i32,
}
impl Drop for CInstantTimeValue {
    fn drop(&mut self) {
        unsafe { free_s(self.value) }
    }
}
#[repr(C)]
#[derive(Debug)]
pub struct CTimeIntervalValue {
    pub from: *const c_char,
    pub to: *const c_char,
}
impl Drop for CTimeIntervalValue {
    fn drop(&mut self) {
        unsafe {
            free_s(self.from);
            free_s(self.to);
        }
    }
}
#[repr(C)]
#[derive(Debug)]
pub struct CAmountOfMoneyValue {
    pub unit: *const c_char,
    pub value: c_float,
    pub precision: i32,
}
impl Drop for CAmountOfMoneyValue {
    fn drop(&mut self) {
        unsafe { free_s(self.unit) }
    }
}
#[repr(C)]
#[derive(Debug)]
pub struct CTemperatureValue {
    pub unit: *const c_char,
    pub value: c_float,
}
impl Drop for CTemperatureValue {
    fn drop(&mut self) {
        unsafe { free_s(self.unit) }
    }
}
#[repr(C)]
#[derive(Debug)]
pub struct CDurationValue {
    pub years: i64,
    pub quarters: i64,
    pub months: i64,
    pub weeks: i64,
    pub days: i64,
    pub hours: i64,
    pub minutes: i64,
    pub seconds: i64,
    pub precision: i32,
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotValue {
    pub value: *const c_void,
    pub value_type: i32,
}
impl From<SlotValue> for CSlotValue {
    fn from(v: SlotValue) -> Self {
        let (value, value_type): (*const c_void, i32) = match v {
            SlotValue::Custom(v) => (s(v.value) as _, 1),
            SlotValue::Number(v) => (boxed(v.value) as _, 2),
            SlotValue::Ordinal(v) => (boxed(v.value) as _, 3),
            SlotValue::InstantTime(v) => {
                (boxed(CInstantTimeValue { value: s(v.value), grain: v.grain as i32, precision: v.precision as i32 }) as _, 4)
            }
            SlotValue::TimeInterval(v) => (boxed(CTimeIntervalValue { from: opt(v.from), to: opt(v.to) }) as _, 5),
            SlotValue::AmountOfMoney(v) => {
                (boxed(CAmountOfMoneyValue { unit: opt(v.unit), value: v.value, precision: v.precision as i32 }) as _, 6)
            }
            SlotValue::Temperature(v) => (boxed(CTemperatureValue { unit: opt(v.unit), value: v.value }) as _, 7),
            SlotValue::Duration(v) => (
                boxed(CDurationValue {
                    years: v.years,
                    quarters: v.quarters,
                    months: v.months,
                    weeks: v.weeks,
                    days: v.days,
                    hours: v.hours,
                    minutes: v.minutes,
                    seconds: v.seconds,
                    precision: v.precision as i32,
                }) as _,
                8,
            ),
            SlotValue::Percentage(v) => (boxed(v.value) as _, 9),
            SlotValue::MusicAlbum(v) => (s(v.value) as _, 10),
            SlotValue::MusicArtist(v) => (s(v.value) as _, 11),
            SlotValue::MusicTrack(v) => (s(v.value) as _, 12),
            SlotValue::City(v) => (s(v.value) as _, 13),
            SlotValue::Country(v) => (s(v.value) as _, 14),
            SlotValue::Region(v) => (s(v.value) as _, 15),
        };
        Self { value, value_type }
    }
}
impl Drop for CSlotValue {
    fn drop(&mut self) {
        unsafe {
            match self.value_type {
                2 | 9 => free_box(self.value as *const f64),
                3 => free_box(self.value as *const i64),
                4 => free_box(self.value as *const CInstantTimeValue),
                5 => free_box(self.value as *const CTimeIntervalValue),
                6 => free_box(self.value as *const CAmountOfMoneyValue),
                7 => free_box(self.value as *const CTemperatureValue),
                8 => free_box(self.value as *const CDurationValue),
                _ => free_s(self.value as *const c_char),
            }
        }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotValueArray {
    pub slot_values: *const CSlotValue,
    pub size: i32,
}
impl From<Vec<SlotValue>> for CSlotValueArray {
    fn from(v: Vec<SlotValue>) -> Self {
        let (p, size) = array(v.into_iter().map(CSlotValue::from).collect());
        Self { slot_values: p, size }
    }
}
impl Drop for CSlotValueArray {
    fn drop(&mut self) {
        unsafe { free_array(self.slot_values, self.size) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlot {
    pub value: *const CSlotValue,
    pub alternatives: *const CSlotValueArray,
    pub raw_value: *const c_char,
    pub entity: *const c_char,
    pub slot_name: *const c_char,
    pub range_start: i32,
    pub range_end: i32,
    pub confidence_score: c_float,
}
impl From<Slot> for CSlot {
    fn from(v: Slot) -> Self {
        Self {
            value: boxed(CSlotValue::from(v.value)),
            alternatives: boxed(CSlotValueArray::from(v.alternatives)),
            raw_value: s(v.raw_value),
            entity: s(v.entity),
            slot_name: s(v.slot_name),
            range_start: v.range.start as i32,
            range_end: v.range.end as i32,
            confidence_score: v.confidence_score.unwrap_or(-1.0),
        }
    }
}
impl Drop for CSlot {
    fn drop(&mut self) {
        unsafe {
            free_box(self.value);
            free_box(self.alternatives);
            free_s(self.raw_value);
            free_s(self.entity);
            free_s(self.slot_name);
        }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CSlotList {
    pub slots: *const CSlot,
    pub size: i32,
}
impl From<Vec<Slot>> for CSlotList {
    fn from(v: Vec<Slot>) -> Self {
        let (p, size) = array(v.into_iter().map(CSlot::from).collect());
        Self { slots: p, size }
    }
}
impl Drop for CSlotList {
    fn drop(&mut self) {
        unsafe { free_array(self.slots, self.size) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserAlternative {
    pub intent: *const CIntentClassifierResult,
    pub slots: *const CSlotList,
}
impl From<IntentParserAlternative> for CIntentParserAlternative {
    fn from(v: IntentParserAlternative) -> Self {
        Self { intent: boxed(v.intent.into()), slots: boxed(v.slots.into()) }
    }
}
impl Drop for CIntentParserAlternative {
    fn drop(&mut self) {
        unsafe {
            free_box(self.intent);
            free_box(self.slots);
        }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserAlternativeArray {
    pub intent_parser_alternatives: *const CIntentParserAlternative,
    pub size: i32,
}
impl From<Vec<IntentParserAlternative>> for CIntentParserAlternativeArray {
    fn from(v: Vec<IntentParserAlternative>) -> Self {
        let (p, size) = array(v.into_iter().map(CIntentParserAlternative::from).collect());
        Self { intent_parser_alternatives: p, size }
    }
}
impl Drop for CIntentParserAlternativeArray {
    fn drop(&mut self) {
        unsafe { free_array(self.intent_parser_alternatives, self.size) }
    }
}

#[repr(C)]
#[derive(Debug)]
pub struct CIntentParserResult {
    pub input: *const c_char,
    pub intent: *const CIntentClassifierResult,
    pub slots: *const CSlotList,
    pub alternatives: *const CIntentParserAlternativeArray,
}
impl From<IntentParserResult> for CIntentParserResult {
    fn from(v: IntentParserResult) -> Self {
        Self {
            input: s(v.input),
            intent: boxed(v.intent.into()),
            slots: boxed(v.slots.into()),
            alternatives: boxed(v.alternatives.into()),
        }
    }
}
impl Drop for CIntentParserResult {
    fn drop(&mut self) {
        unsafe {
            free_s(self.input);
            free_box(self.intent);
            free_box(self.slots);
            free_box(self.alternatives);
        }
    }
}
