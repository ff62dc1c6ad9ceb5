//! Stand-in for snips-nlu-ontology: languages, entity kinds, parsing results.
use serde::{Deserialize, Serialize};
use std::ops::Range;

type Result<T> = std::result::Result<T, failure::Error>;

macro_rules! languages {
    ($(($v:ident, $s:expr)),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
        pub enum Language { $($v),* }
        impl Language {
            pub fn all() -> &'static [Language] { &[$(Language::$v),*] }
            pub fn full_name(self) -> &'static str { self.as_str() }
            fn as_str(self) -> &'static str { match self { $(Language::$v => $s),* } }
        }
        impl std::str::FromStr for Language {
            type Err = failure::Error;
            fn from_str(s: &str) -> Result<Self> {
                match &*s.to_lowercase() {
                    $($s => Ok(Language::$v),)*
                    _ => Err(failure::format_err!("Unknown language: {}", s)),
                }
            }
        }
    };
}
languages!((DE, "de"), (EN, "en"), (ES, "es"), (FR, "fr"), (IT, "it"), (JA, "ja"), (KO, "ko"), (PT_PT, "pt_pt"), (PT_BR, "pt_br"));

impl std::fmt::Display for Language {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.as_str()) }
}

macro_rules! kinds {
    ($name:ident, [$(($v:ident, $s:expr)),* $(,)?]) => {
        #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($v),* }
        impl $name {
            pub fn all() -> &'static [$name] { &[$($name::$v),*] }
            pub fn identifier(&self) -> &'static str { match self { $($name::$v => $s),* } }
            pub fn from_identifier(identifier: &str) -> Result<Self> {
                match identifier {
                    $($s => Ok($name::$v),)*
                    _ => Err(failure::format_err!("Unknown {} identifier: {}", stringify!($name), identifier)),
                }
            }
        }
        impl std::str::FromStr for $name {
            type Err = failure::Error;
            fn from_str(s: &str) -> Result<Self> { Self::from_identifier(s) }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.identifier()) }
        }
        impl Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> { s.serialize_str(self.identifier()) }
        }
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
                let s = String::deserialize(d)?;
                Self::from_identifier(&s).map_err(serde::de::Error::custom)
            }
        }
    };
}

kinds!(BuiltinEntityKind, [
    (AmountOfMoney, "snips/amountOfMoney"), (Duration, "snips/duration"), (Number, "snips/number"),
    (Ordinal, "snips/ordinal"), (Temperature, "snips/temperature"), (Datetime, "snips/datetime"),
    (Date, "snips/date"), (Time, "snips/time"), (DatePeriod, "snips/datePeriod"), (TimePeriod, "snips/timePeriod"),
    (Percentage, "snips/percentage"), (MusicAlbum, "snips/musicAlbum"), (MusicArtist, "snips/musicArtist"),
    (MusicTrack, "snips/musicTrack"), (City, "snips/city"), (Country, "snips/country"), (Region, "snips/region"),
]);
kinds!(GrammarEntityKind, [
    (AmountOfMoney, "snips/amountOfMoney"), (Duration, "snips/duration"), (Number, "snips/number"),
    (Ordinal, "snips/ordinal"), (Temperature, "snips/temperature"), (Datetime, "snips/datetime"),
    (Date, "snips/date"), (Time, "snips/time"), (DatePeriod, "snips/datePeriod"), (TimePeriod, "snips/timePeriod"),
    (Percentage, "snips/percentage"),
]);
kinds!(BuiltinGazetteerEntityKind, [
    (MusicAlbum, "snips/musicAlbum"), (MusicArtist, "snips/musicArtist"), (MusicTrack, "snips/musicTrack"),
    (City, "snips/city"), (Country, "snips/country"), (Region, "snips/region"),
]);

impl GrammarEntityKind {
    pub fn into_builtin_kind(self) -> BuiltinEntityKind { BuiltinEntityKind::from_identifier(self.identifier()).unwrap() }
}
impl BuiltinGazetteerEntityKind {
    pub fn into_builtin_kind(self) -> BuiltinEntityKind { BuiltinEntityKind::from_identifier(self.identifier()).unwrap() }
}

pub trait IntoBuiltinEntityKind: Copy {
    fn into_builtin_kind(self) -> BuiltinEntityKind;
    fn identifier(&self) -> &'static str;
}
impl IntoBuiltinEntityKind for GrammarEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind { GrammarEntityKind::into_builtin_kind(self) }
    fn identifier(&self) -> &'static str { GrammarEntityKind::identifier(self) }
}
impl IntoBuiltinEntityKind for BuiltinGazetteerEntityKind {
    fn into_builtin_kind(self) -> BuiltinEntityKind { BuiltinGazetteerEntityKind::into_builtin_kind(self) }
    fn identifier(&self) -> &'static str { BuiltinGazetteerEntityKind::identifier(self) }
}

pub type IntentName = String;
pub type SlotName = String;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserResult {
    pub input: String,
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
    pub alternatives: Vec<IntentParserAlternative>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserAlternative {
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentClassifierResult {
    pub intent_name: Option<IntentName>,
    pub confidence_score: f32,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Slot {
    pub raw_value: String,
    pub value: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub range: Range<usize>,
    pub entity: String,
    pub slot_name: String,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub confidence_score: Option<f32>,
}

impl Slot {
    pub fn with_slot_value(mut self, slot_value: SlotValue) -> Slot {
        self.value = slot_value;
        self
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum SlotValue {
    Custom(StringValue),
    Number(NumberValue),
    Ordinal(OrdinalValue),
    Percentage(PercentageValue),
    InstantTime(InstantTimeValue),
    TimeInterval(TimeIntervalValue),
    AmountOfMoney(AmountOfMoneyValue),
    Temperature(TemperatureValue),
    Duration(DurationValue),
    MusicAlbum(StringValue),
    MusicArtist(StringValue),
    MusicTrack(StringValue),
    City(StringValue),
    Country(StringValue),
    Region(StringValue),
}

macro_rules! simple_value {
    ($name:ident, $t:ty) => {
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        pub struct $name { pub value: $t }
        impl From<$t> for $name { fn from(value: $t) -> Self { $name { value } } }
    };
}
simple_value!(StringValue, String);
simple_value!(NumberValue, f64);
simple_value!(OrdinalValue, i64);
simple_value!(PercentageValue, f64);

impl<'a> From<&'a str> for StringValue { fn from(v: &'a str) -> Self { StringValue { value: v.to_string() } } }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct InstantTimeValue { pub value: String, pub grain: Grain, pub precision: Precision }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TimeIntervalValue { pub from: Option<String>, pub to: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct AmountOfMoneyValue { pub value: f32, pub precision: Precision, pub unit: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TemperatureValue { pub value: f32, pub unit: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DurationValue {
    pub years: i64, pub quarters: i64, pub months: i64, pub weeks: i64,
    pub days: i64, pub hours: i64, pub minutes: i64, pub seconds: i64,
    pub precision: Precision,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Grain { Year = 0, Quarter = 1, Month = 2, Week = 3, Day = 4, Hour = 5, Minute = 6, Second = 7 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Precision { Approximate = 0, Exact = 1 }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct BuiltinEntity {
    pub value: String,
    pub range: Range<usize>,
    pub entity: SlotValue,
    pub alternatives: Vec<SlotValue>,
    #[serde(rename = "entity_kind")]
    pub entity_kind: BuiltinEntityKind,
}
