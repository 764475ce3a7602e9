#![allow(unused_variables, clippy::unit_arg)]
//! The extension sets the checks run with, and how each attaches model data with the builder.

use std::{collections::BTreeMap, fmt::Debug};

use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map, Value};
use wot_td::{
    builder::{
        affordance::{ActionAffordanceBuilder, EventAffordanceBuilder, PropertyAffordanceBuilder},
        data_schema::{DataSchemaBuilder, PartialDataSchemaBuilder},
        FormBuilder, ThingBuilder, ToExtend,
    },
    extend::{Extend, Extendable, ExtendableThing},
    hlist::{Cons, Nil},
    protocol::{coap, http, mqtt},
};

use crate::model::XData;

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AThing {
    #[serde(rename = "a:thing")]
    pub m: String,
    #[serde(rename = "a:thingOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:thingList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BThing {
    #[serde(rename = "b:thing", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:thingMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:thingAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AThing {
    fn from(x: &XData) -> Self {
        AThing {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BThing {
    fn from(x: &XData) -> Self {
        BThing {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AIa {
    #[serde(rename = "a:ia")]
    pub m: String,
    #[serde(rename = "a:iaOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:iaList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BIa {
    #[serde(rename = "b:ia", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:iaMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:iaAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AIa {
    fn from(x: &XData) -> Self {
        AIa {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BIa {
    fn from(x: &XData) -> Self {
        BIa {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AProp {
    #[serde(rename = "a:prop")]
    pub m: String,
    #[serde(rename = "a:propOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:propList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BProp {
    #[serde(rename = "b:prop", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:propMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:propAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AProp {
    fn from(x: &XData) -> Self {
        AProp {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BProp {
    fn from(x: &XData) -> Self {
        BProp {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AAct {
    #[serde(rename = "a:act")]
    pub m: String,
    #[serde(rename = "a:actOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:actList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BAct {
    #[serde(rename = "b:act", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:actMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:actAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AAct {
    fn from(x: &XData) -> Self {
        AAct {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BAct {
    fn from(x: &XData) -> Self {
        BAct {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AEvt {
    #[serde(rename = "a:evt")]
    pub m: String,
    #[serde(rename = "a:evtOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:evtList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BEvt {
    #[serde(rename = "b:evt", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:evtMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:evtAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AEvt {
    fn from(x: &XData) -> Self {
        AEvt {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BEvt {
    fn from(x: &XData) -> Self {
        BEvt {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AForm {
    #[serde(rename = "a:form")]
    pub m: String,
    #[serde(rename = "a:formOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:formList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BForm {
    #[serde(rename = "b:form", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:formMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:formAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AForm {
    fn from(x: &XData) -> Self {
        AForm {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BForm {
    fn from(x: &XData) -> Self {
        BForm {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AResp {
    #[serde(rename = "a:resp")]
    pub m: String,
    #[serde(rename = "a:respOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:respList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BResp {
    #[serde(rename = "b:resp", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:respMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:respAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AResp {
    fn from(x: &XData) -> Self {
        AResp {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BResp {
    fn from(x: &XData) -> Self {
        BResp {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct ADs {
    #[serde(rename = "a:ds")]
    pub m: String,
    #[serde(rename = "a:dsOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:dsList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BDs {
    #[serde(rename = "b:ds", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:dsMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:dsAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for ADs {
    fn from(x: &XData) -> Self {
        ADs {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BDs {
    fn from(x: &XData) -> Self {
        BDs {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AOs {
    #[serde(rename = "a:os")]
    pub m: String,
    #[serde(rename = "a:osOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:osList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BOs {
    #[serde(rename = "b:os", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:osMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:osAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AOs {
    fn from(x: &XData) -> Self {
        AOs {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BOs {
    fn from(x: &XData) -> Self {
        BOs {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

/// Has a mandatory member.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct AAs {
    #[serde(rename = "a:as")]
    pub m: String,
    #[serde(rename = "a:asOpt", default, skip_serializing_if = "Option::is_none")]
    pub o: Option<i64>,
    #[serde(rename = "a:asList", default, skip_serializing_if = "Vec::is_empty")]
    pub l: Vec<String>,
}

/// All members optional.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct BAs {
    #[serde(rename = "b:as", skip_serializing_if = "Option::is_none")]
    pub o: Option<String>,
    #[serde(rename = "b:asMap", default, skip_serializing_if = "BTreeMap::is_empty")]
    pub m: BTreeMap<String, bool>,
    #[serde(rename = "b:asAny", skip_serializing_if = "Option::is_none")]
    pub v: Option<Value>,
}

impl From<&XData> for AAs {
    fn from(x: &XData) -> Self {
        AAs {
            m: x.a_m.clone(),
            o: x.a_o,
            l: x.a_l.clone(),
        }
    }
}

impl From<&XData> for BAs {
    fn from(x: &XData) -> Self {
        BAs {
            o: x.b_o.clone(),
            m: x.b_m.clone(),
            v: x.b_v.clone(),
        }
    }
}

impl ExtendableThing for AThing {
    type InteractionAffordance = AIa;
    type PropertyAffordance = AProp;
    type ActionAffordance = AAct;
    type EventAffordance = AEvt;
    type Form = AForm;
    type ExpectedResponse = AResp;
    type DataSchema = ADs;
    type ObjectSchema = AOs;
    type ArraySchema = AAs;
}

impl ExtendableThing for BThing {
    type InteractionAffordance = BIa;
    type PropertyAffordance = BProp;
    type ActionAffordance = BAct;
    type EventAffordance = BEvt;
    type Form = BForm;
    type ExpectedResponse = BResp;
    type DataSchema = BDs;
    type ObjectSchema = BOs;
    type ArraySchema = BAs;
}


pub type XA = Cons<AThing, Nil>;
pub type XAB = Cons<AThing, Cons<BThing, Nil>>;
pub type XP = Cons<http::HttpProtocol, Cons<coap::CoapProtocol, Cons<mqtt::MqttProtocol, Nil>>>;

/// An extension point, for naming members.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pt {
    Thing,
    Ia,
    Prop,
    Act,
    Evt,
    Form,
    Resp,
    Ds,
    Os,
    As,
}

pub const PTS: [(Pt, &str); 10] = [
    (Pt::Thing, "thing"),
    (Pt::Ia, "ia"),
    (Pt::Prop, "prop"),
    (Pt::Act, "act"),
    (Pt::Evt, "evt"),
    (Pt::Form, "form"),
    (Pt::Resp, "resp"),
    (Pt::Ds, "ds"),
    (Pt::Os, "os"),
    (Pt::As, "as"),
];

impl Pt {
    pub fn name(self) -> &'static str {
        PTS.iter().find(|p| p.0 == self).unwrap().1
    }
}

pub fn members_a(pt: Pt, x: &XData, out: &mut Map<String, Value>) {
    let n = pt.name();
    out.insert(format!("a:{n}"), json!(x.a_m));
    if let Some(o) = x.a_o {
        out.insert(format!("a:{n}Opt"), json!(o));
    }
    if !x.a_l.is_empty() {
        out.insert(format!("a:{n}List"), json!(x.a_l));
    }
}

pub fn members_b(pt: Pt, x: &XData, out: &mut Map<String, Value>) {
    let n = pt.name();
    if let Some(o) = &x.b_o {
        out.insert(format!("b:{n}"), json!(o));
    }
    if !x.b_m.is_empty() {
        out.insert(format!("b:{n}Map"), json!(x.b_m));
    }
    if let Some(v) = &x.b_v {
        out.insert(format!("b:{n}Any"), v.clone());
    }
}

pub const METHODS: [&str; 7] = ["GET", "PUT", "POST", "DELETE", "PATCH", "FETCH", "iPATCH"];
pub const BLOCKS: [u64; 7] = [16, 32, 64, 128, 256, 512, 1024];
pub const PACKETS: [&str; 3] = ["mqv:publish", "mqv:subscribe", "mqv:unsubscribe"];

fn block_json(b: &(Option<usize>, Option<usize>)) -> Value {
    let mut m = Map::new();
    if let Some(s) = b.0 {
        m.insert("cov:block2Size".into(), json!(BLOCKS[s]));
    }
    if let Some(s) = b.1 {
        m.insert("cov:block1Size".into(), json!(BLOCKS[s]));
    }
    Value::Object(m)
}

pub fn members_p(pt: Pt, x: &XData, out: &mut Map<String, Value>) {
    let mut put = |k: &str, v: Option<Value>| {
        if let Some(v) = v {
            out.insert(k.into(), v);
        }
    };
    match pt {
        Pt::Form => {
            put("htv:methodName", x.method.map(|m| json!(METHODS[m])));
            put("cov:method", x.cov_method.map(|m| json!(METHODS[m])));
            put("cov:blockwise", x.block.as_ref().map(block_json));
            put("cov:qblockwise", x.qblock.as_ref().map(block_json));
            put("cov:hopLimit", x.hop.map(|v| json!(v)));
            put("cov:accept", x.accept.map(|v| json!(v)));
            put("cov:contentFormat", x.cov_format.map(|v| json!(v)));
            put("mqv:retain", x.retain.then(|| json!(true)));
            put("mqv:controlPacket", x.packet.map(|v| json!(PACKETS[v])));
            put("mqv:qos", x.qos.map(|v| json!(format!("quality:{v}"))));
            put("mqv:topic", x.topic.as_ref().map(|v| json!(v)));
            put(
                "mqv:filter",
                match x.filter.len() {
                    0 => None,
                    1 => Some(json!(x.filter[0])),
                    _ => Some(json!(x.filter)),
                },
            );
        }
        Pt::Resp => {
            if !x.headers.is_empty() {
                let h: Vec<Value> = x
                    .headers
                    .iter()
                    .map(|(n, v)| {
                        let mut m = Map::new();
                        if let Some(n) = n {
                            m.insert("htv:fieldName".into(), json!(n));
                        }
                        if let Some(v) = v {
                            m.insert("htv:fieldValue".into(), json!(v));
                        }
                        Value::Object(m)
                    })
                    .collect();
                put("htv:headers", Some(Value::Array(h)));
            }
            put("htv:statusCodeValue", x.status.map(|v| json!(v)));
            put("cov:contentFormat", x.cov_format.map(|v| json!(v)));
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------
// Protocol pieces

pub fn http_method(i: usize) -> http::Method {
    use http::Method::*;
    [Get, Put, Post, Delete, Patch][i]
}

pub fn coap_method(i: usize) -> coap::Method {
    use coap::Method::*;
    [Get, Put, Post, Delete, Patch, Fetch, Ipatch][i]
}

pub fn block_size(i: usize) -> coap::BlockSize {
    use coap::BlockSize::*;
    [Size16, Size32, Size64, Size128, Size256, Size512, Size1024][i]
}

pub fn packet(i: usize) -> mqtt::ControlPacket {
    use mqtt::ControlPacket::*;
    [Publish, Subscribe, Unsubscribe][i]
}

pub fn qos(i: usize) -> mqtt::QoS {
    use mqtt::QoS::*;
    [AtMostOnce, AtLeastOnce, ExactlyOnce][i]
}

impl From<&XData> for http::HttpProtocol {
    fn from(_: &XData) -> Self {
        Default::default()
    }
}
impl From<&XData> for coap::CoapProtocol {
    fn from(_: &XData) -> Self {
        Default::default()
    }
}
impl From<&XData> for mqtt::MqttProtocol {
    fn from(_: &XData) -> Self {
        Default::default()
    }
}
impl From<&XData> for http::Form {
    fn from(x: &XData) -> Self {
        http::Form {
            method_name: x.method.map(http_method),
        }
    }
}
impl From<&XData> for http::Response {
    fn from(x: &XData) -> Self {
        http::Response {
            headers: x
                .headers
                .iter()
                .map(|(n, v)| http::MessageHeader {
                    field_name: n.clone(),
                    field_value: v.clone(),
                })
                .collect(),
            status_code_value: x.status.map(|v| v as _),
        }
    }
}
impl From<&XData> for coap::Form {
    fn from(x: &XData) -> Self {
        let block = |b: &(Option<usize>, Option<usize>)| coap::BlockWiseTransferParameters {
            block2_size: b.0.map(block_size),
            block1_size: b.1.map(block_size),
        };
        coap::Form {
            method: x.cov_method.map(coap_method),
            blockwise: x.block.as_ref().map(block),
            qblockwise: x.qblock.as_ref().map(block),
            hop_limit: x.hop.map(|v| v as _),
            accept: x.accept.map(|v| v as _),
            content_format: x.cov_format.map(|v| v as _),
        }
    }
}
impl From<&XData> for coap::ExpectedResponse {
    fn from(x: &XData) -> Self {
        coap::ExpectedResponse {
            content_format: x.cov_format.map(|v| v as _),
        }
    }
}
impl From<&XData> for mqtt::Form {
    fn from(x: &XData) -> Self {
        mqtt::Form {
            retain: x.retain,
            control_packet: x.packet.map(packet),
            qos: x.qos.map(qos),
            topic: x.topic.clone(),
            filter: x.filter.clone(),
        }
    }
}

/// A piece without data: the protocols leave most extension points empty.
fn unit(_: &XData) {}

// ---------------------------------------------------------------------------------------------
// Attaching pieces with the builder

/// Calls made between two extensions, for exploring call orders.
pub trait Mid {
    /// Use the `_with` variant of the extension call.
    fn with(&mut self) -> bool {
        false
    }
    fn thing<X: ExtendableThing>(&mut self, b: ThingBuilder<X, ToExtend>) -> ThingBuilder<X, ToExtend> {
        b
    }
    fn form<X: ExtendableThing, H, OF>(&mut self, b: FormBuilder<X, H, OF>) -> FormBuilder<X, H, OF> {
        b
    }
    fn ds<D, A, O>(&mut self, b: DataSchemaBuilder<D, A, O, ToExtend>) -> DataSchemaBuilder<D, A, O, ToExtend> {
        b
    }
    fn act<X: ExtendableThing, I, P>(&mut self, b: ActionAffordanceBuilder<X, I, P>) -> ActionAffordanceBuilder<X, I, P> {
        b
    }
    fn evt<X: ExtendableThing, I, P>(&mut self, b: EventAffordanceBuilder<X, I, P>) -> EventAffordanceBuilder<X, I, P> {
        b
    }
    fn prop<X: ExtendableThing, D, I, P>(
        &mut self,
        b: PropertyAffordanceBuilder<X, D, I, P>,
    ) -> PropertyAffordanceBuilder<X, D, I, P> {
        b
    }
}

type Pdsb<D, X> =
    PartialDataSchemaBuilder<D, <X as ExtendableThing>::ArraySchema, <X as ExtendableThing>::ObjectSchema, ToExtend>;
type Dsb<D, X> =
    DataSchemaBuilder<D, <X as ExtendableThing>::ArraySchema, <X as ExtendableThing>::ObjectSchema, ToExtend>;

pub trait Part: Extendable<Empty = Nil> + Default + Clone + Debug + PartialEq + Serialize + DeserializeOwned {}
impl<T> Part for T where T: Extendable<Empty = Nil> + Default + Clone + Debug + PartialEq + Serialize + DeserializeOwned {}

pub trait XSet:
    ExtendableThing<
        InteractionAffordance = <Self as XSet>::I,
        PropertyAffordance = <Self as XSet>::P,
        ActionAffordance = <Self as XSet>::C,
        EventAffordance = <Self as XSet>::E,
        Form = <Self as XSet>::F,
        ExpectedResponse = <Self as XSet>::R,
        DataSchema = <Self as XSet>::D,
        ObjectSchema = <Self as XSet>::O,
        ArraySchema = <Self as XSet>::A,
    > + Extendable<Empty = Nil>
    + Debug
    + PartialEq
    + Clone
    + Serialize
    + DeserializeOwned
    + 'static
{
    type I: Part;
    type P: Part;
    type C: Part;
    type E: Part;
    type F: Part;
    type R: Part;
    type D: Part;
    type O: Part;
    type A: Part;

    fn thing<V: Mid>(b: ThingBuilder<Nil, ToExtend>, x: &XData, v: &mut V) -> ThingBuilder<Self, ToExtend>;
    fn form<H, V: Mid>(b: FormBuilder<Self, H, Nil>, x: &XData, v: &mut V) -> FormBuilder<Self, H, Self::F>;
    fn ds<V: Mid>(b: Dsb<Nil, Self>, x: &XData, v: &mut V) -> Dsb<Self::D, Self>;
    fn act_i<P, V: Mid>(b: ActionAffordanceBuilder<Self, Nil, P>, x: &XData, v: &mut V) -> ActionAffordanceBuilder<Self, Self::I, P>;
    fn act_x<I, V: Mid>(b: ActionAffordanceBuilder<Self, I, Nil>, x: &XData, v: &mut V) -> ActionAffordanceBuilder<Self, I, Self::C>;
    fn evt_i<P, V: Mid>(b: EventAffordanceBuilder<Self, Nil, P>, x: &XData, v: &mut V) -> EventAffordanceBuilder<Self, Self::I, P>;
    fn evt_x<I, V: Mid>(b: EventAffordanceBuilder<Self, I, Nil>, x: &XData, v: &mut V) -> EventAffordanceBuilder<Self, I, Self::E>;
    fn prop_i<D, P, V: Mid>(b: PropertyAffordanceBuilder<Self, D, Nil, P>, x: &XData, v: &mut V) -> PropertyAffordanceBuilder<Self, D, Self::I, P>;
    fn prop_x<D, I, V: Mid>(b: PropertyAffordanceBuilder<Self, D, I, Nil>, x: &XData, v: &mut V) -> PropertyAffordanceBuilder<Self, D, I, Self::P>;
    fn prop_d<I, P, V: Mid>(
        b: PropertyAffordanceBuilder<Self, Pdsb<Nil, Self>, I, P>,
        x: &XData,
        v: &mut V,
    ) -> PropertyAffordanceBuilder<Self, Pdsb<Self::D, Self>, I, P>;
    fn resp(n: Nil, x: &XData) -> Self::R;
    fn arr(n: Nil, x: &XData) -> Self::A;
    fn obj(n: Nil, x: &XData) -> Self::O;
    fn members(pt: Pt, x: &XData, out: &mut Map<String, Value>);
}

pub type DataSchemaFromOther<X> = wot_td::thing::DataSchema<<X as XSet>::D, <X as XSet>::A, <X as XSet>::O>;

macro_rules! grow {
    ($b:ident, $v:ident, $call:ident, $call_with:ident, $piece:expr) => {
        if $v.with() {
            $b.$call_with(|| $piece)
        } else {
            $b.$call($piece)
        }
    };
}

/// Pieces are attached in the given order: the last one ends up first in the list.
macro_rules! impl_xset {
    ($set:ty, $members:expr; $($ext:ty { $thing:expr, $i:expr, $p:expr, $c:expr, $e:expr, $f:expr, $r:expr, $d:expr, $o:expr, $a:expr });*) => {
        impl XSet for $set {
            type I = <$set as ExtendableThing>::InteractionAffordance;
            type P = <$set as ExtendableThing>::PropertyAffordance;
            type C = <$set as ExtendableThing>::ActionAffordance;
            type E = <$set as ExtendableThing>::EventAffordance;
            type F = <$set as ExtendableThing>::Form;
            type R = <$set as ExtendableThing>::ExpectedResponse;
            type D = <$set as ExtendableThing>::DataSchema;
            type O = <$set as ExtendableThing>::ObjectSchema;
            type A = <$set as ExtendableThing>::ArraySchema;

            fn thing<V: Mid>(b: ThingBuilder<Nil, ToExtend>, x: &XData, v: &mut V) -> ThingBuilder<Self, ToExtend> {
                $( let b = grow!(b, v, ext, ext_with, $thing(x)); let b = v.thing(b); )*
                b
            }
            fn form<H, V: Mid>(b: FormBuilder<Self, H, Nil>, x: &XData, v: &mut V) -> FormBuilder<Self, H, Self::F> {
                $( let b = grow!(b, v, ext, ext_with, $f(x)); let b = v.form(b); )*
                b
            }
            fn ds<V: Mid>(b: Dsb<Nil, Self>, x: &XData, v: &mut V) -> Dsb<Self::D, Self> {
                $( let b = grow!(b, v, ext, ext_with, $d(x)); let b = v.ds(b); )*
                b
            }
            fn act_i<P, V: Mid>(b: ActionAffordanceBuilder<Self, Nil, P>, x: &XData, v: &mut V) -> ActionAffordanceBuilder<Self, Self::I, P> {
                $( let b = grow!(b, v, ext_interaction, ext_interaction_with, $i(x)); let b = v.act(b); )*
                b
            }
            fn act_x<I, V: Mid>(b: ActionAffordanceBuilder<Self, I, Nil>, x: &XData, v: &mut V) -> ActionAffordanceBuilder<Self, I, Self::C> {
                $( let b = grow!(b, v, ext, ext_with, $c(x)); let b = v.act(b); )*
                b
            }
            fn evt_i<P, V: Mid>(b: EventAffordanceBuilder<Self, Nil, P>, x: &XData, v: &mut V) -> EventAffordanceBuilder<Self, Self::I, P> {
                $( let b = grow!(b, v, ext_interaction, ext_interaction_with, $i(x)); let b = v.evt(b); )*
                b
            }
            fn evt_x<I, V: Mid>(b: EventAffordanceBuilder<Self, I, Nil>, x: &XData, v: &mut V) -> EventAffordanceBuilder<Self, I, Self::E> {
                $( let b = grow!(b, v, ext, ext_with, $e(x)); let b = v.evt(b); )*
                b
            }
            fn prop_i<D, P, V: Mid>(b: PropertyAffordanceBuilder<Self, D, Nil, P>, x: &XData, v: &mut V) -> PropertyAffordanceBuilder<Self, D, Self::I, P> {
                $( let b = grow!(b, v, ext_interaction, ext_interaction_with, $i(x)); let b = v.prop(b); )*
                b
            }
            fn prop_x<D, I, V: Mid>(b: PropertyAffordanceBuilder<Self, D, I, Nil>, x: &XData, v: &mut V) -> PropertyAffordanceBuilder<Self, D, I, Self::P> {
                $( let b = grow!(b, v, ext, ext_with, $p(x)); let b = v.prop(b); )*
                b
            }
            fn prop_d<I, P, V: Mid>(
                b: PropertyAffordanceBuilder<Self, Pdsb<Nil, Self>, I, P>,
                x: &XData,
                v: &mut V,
            ) -> PropertyAffordanceBuilder<Self, Pdsb<Self::D, Self>, I, P> {
                $( let b = grow!(b, v, ext_data_schema, ext_data_schema_with, $d(x)); let b = v.prop(b); )*
                b
            }
            fn resp(n: Nil, x: &XData) -> Self::R {
                $( let n = n.ext($r(x)); )*
                n
            }
            fn arr(n: Nil, x: &XData) -> Self::A {
                $( let n = n.ext($a(x)); )*
                n
            }
            fn obj(n: Nil, x: &XData) -> Self::O {
                $( let n = n.ext($o(x)); )*
                n
            }
            fn members(pt: Pt, x: &XData, out: &mut Map<String, Value>) {
                $members(pt, x, out)
            }
        }
    };
}

fn members_nil(_: Pt, _: &XData, _: &mut Map<String, Value>) {}
fn members_ab(pt: Pt, x: &XData, out: &mut Map<String, Value>) {
    members_a(pt, x, out);
    members_b(pt, x, out);
}

impl_xset!(Nil, members_nil;);
impl_xset!(XA, members_a;
    AThing { AThing::from, AIa::from, AProp::from, AAct::from, AEvt::from, AForm::from, AResp::from, ADs::from, AOs::from, AAs::from });
impl_xset!(XAB, members_ab;
    BThing { BThing::from, BIa::from, BProp::from, BAct::from, BEvt::from, BForm::from, BResp::from, BDs::from, BOs::from, BAs::from };
    AThing { AThing::from, AIa::from, AProp::from, AAct::from, AEvt::from, AForm::from, AResp::from, ADs::from, AOs::from, AAs::from });
impl_xset!(XP, members_p;
    mqtt::MqttProtocol { mqtt::MqttProtocol::from, unit, unit, unit, unit, mqtt::Form::from, unit, unit, unit, unit };
    coap::CoapProtocol { coap::CoapProtocol::from, unit, unit, unit, unit, coap::Form::from, coap::ExpectedResponse::from, unit, unit, unit };
    http::HttpProtocol { http::HttpProtocol::from, unit, unit, unit, unit, http::Form::from, http::Response::from, unit, unit, unit });
