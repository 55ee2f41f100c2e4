//! Between reference packets and the library's packets: build through the public builders, read back
//! through the public getters.
use crate::refcodec::*;
use apiformes_packet::prelude::*;
use bytes::{Bytes, BytesMut};
use std::mem::discriminant;
use std::sync::Arc;

pub const ALL_PROPS: &[(Property, u8)] = &[
    (Property::PayloadFormatIndicator, 0x01),
    (Property::MessageExpiryInterval, 0x02),
    (Property::ContentType, 0x03),
    (Property::ResponseTopic, 0x08),
    (Property::CorrelationData, 0x09),
    (Property::SubscriptionIdentifier, 0x0b),
    (Property::SessionExpiryInterval, 0x11),
    (Property::AssignedClientIdentifier, 0x12),
    (Property::ServerKeepAlive, 0x13),
    (Property::AuthenticationMethod, 0x15),
    (Property::AuthenticationData, 0x16),
    (Property::RequestProblemInformation, 0x17),
    (Property::WillDelayInterval, 0x18),
    (Property::RequestResponseInformation, 0x19),
    (Property::ResponseInformation, 0x1a),
    (Property::ServerReference, 0x1c),
    (Property::ReasonString, 0x1f),
    (Property::ReceiveMaximum, 0x21),
    (Property::TopicAliasMaximum, 0x22),
    (Property::TopicAlias, 0x23),
    (Property::MaximumQoS, 0x24),
    (Property::RetainAvailable, 0x25),
    (Property::UserProperty, 0x26),
    (Property::MaximumPacketSize, 0x27),
    (Property::WildcardSubscriptionAvailable, 0x28),
    (Property::SubscriptionIdentifierAvailable, 0x29),
    (Property::SharedSubscriptionAvailable, 0x2a),
];
pub fn prop(id: u8) -> Property {
    ALL_PROPS.iter().find(|(_, i)| *i == id).expect("property table").0
}
pub fn prop_id(p: &Property) -> u8 {
    ALL_PROPS.iter().find(|(q, _)| q == p).expect("property table").1
}

macro_rules! codes {
    ($name:ident, $ty:ident, $get:ident, $set:ident, [$(($v:ident, $b:expr)),* $(,)?]) => {
        pub const $name: &[($ty, u8)] = &[$(($ty::$v, $b)),*];
        pub fn $get(c: &$ty) -> u8 {
            $name.iter().find(|(x, _)| discriminant(x) == discriminant(c)).expect("reason table").1
        }
        pub fn $set(b: u8) -> $ty {
            $name.iter().find(|(_, x)| *x == b).expect("reason table").0
        }
    };
}
codes!(CONNACK_CODES, ConnAckReasonCode, connack_byte, connack_code, [
    (Success, 0x00), (UnspecifiedError, 0x80), (MalformedPacket, 0x81), (ProtocolError, 0x82),
    (ImplementationSpecificError, 0x83), (UnsupportedProtocolVersion, 0x84),
    (ClientIdentifierNotValid, 0x85), (BadUserNameOrPassword, 0x86), (NotAuthorized, 0x87),
    (ServerUnavailable, 0x88), (ServerBusy, 0x89), (Banned, 0x8a), (BadAuthenicationMethod, 0x8c),
    (TopicNameInvalid, 0x90), (PacketTooLarge, 0x95), (QuotaExceeded, 0x97),
    (PayloadFormatInvalid, 0x99), (RetainNotSupported, 0x9a), (QoSNotSupported, 0x9b),
    (UseAnotherServer, 0x9c), (ServerMoved, 0x9d), (ConnectionRateExceeded, 0x9f),
]);
codes!(PUBACK_CODES, PubAckReasonCode, puback_byte, puback_code, [
    (Success, 0x00), (NoMatchingSubscribers, 0x10), (UnspecifiedError, 0x80),
    (ImplementationSpecificError, 0x83), (NotAuthorized, 0x87), (TopicNameInvalid, 0x90),
    (PacketIdentifierInUse, 0x91), (QuotaExceeded, 0x97), (PayloadFormatInvalid, 0x99),
]);
codes!(PUBREL_CODES, PubRelReasonCode, pubrel_byte, pubrel_code, [
    (Success, 0x00), (PacketIdentifierNotFound, 0x92),
]);
codes!(UNSUBACK_CODES, UnsubAckReasonCode, unsuback_byte, unsuback_code, [
    (Success, 0x00), (NoSubscriptionExisted, 0x11), (UnspecifiedError, 0x80),
    (ImplementationSpecificError, 0x83), (NotAuthorized, 0x87), (TopicFilterInvalid, 0x8f),
    (PacketIdentifierInUse, 0x91),
]);
codes!(AUTH_CODES, AuthReasonCode, auth_byte, auth_code, [
    (Success, 0x00), (ContinueAuthentication, 0x18), (ReAuthenticate, 0x19),
]);
codes!(DISCONNECT_CODES, DisconnectReasonCode, disconnect_byte, disconnect_code, [
    (NormalDisconnection, 0x00), (DisconnectWithWillMessage, 0x04), (UnspecifiedError, 0x80),
    (MalformedPacket, 0x81), (ProtocolError, 0x82), (ImplementationSpecificError, 0x83),
    (NotAuthorized, 0x87), (ServerBusy, 0x89), (ServerShuttingDown, 0x8b),
    (BadAuthenicationMethod, 0x8c), (KeepAliveTimeout, 0x8d), (SessionTakenOver, 0x8e),
    (TopicFilterInvalid, 0x8f), (TopicNameInvalid, 0x90), (ReceiveMaximumExceeded, 0x93),
    (TopicAliasInvalid, 0x94), (PacketTooLarge, 0x95), (MessageRateTooHigh, 0x96),
    (QuotaExceeded, 0x97), (AdministrativeAction, 0x98), (PayloadFormatInvalid, 0x99),
    (RetainNotSupported, 0x9a), (QoSNotSupported, 0x9b), (UseAnotherServer, 0x9c),
    (ServerMoved, 0x9d), (SharedSubscriptionsNotSupported, 0x9e), (ConnectionRateExceeded, 0x9f),
    (MaximumConnectTime, 0xa0), (SubscriptionIdentifiersNotSupported, 0xa1),
    (WildcardSubscriptionsNotSupported, 0xa2),
]);
codes!(SUBACK_CODES, SubAckReasonCode, suback_byte, suback_code, [
    (GrantedQoS0, 0x00), (GrantedQoS1, 0x01), (GrantedQoS2, 0x02), (UnspecifiedError, 0x80),
    (ImplementationSpecificError, 0x83), (NotAuthorized, 0x87), (TopicFilterInvalid, 0x8f),
    (PacketIdentifierInUse, 0x91), (QuotaExceeded, 0x97), (SharedSubscriptionsNotSupported, 0x9e),
    (SubscriptionIdentifiersNotSupported, 0xa1), (WildcardSubscriptionsNotSupported, 0xa2),
]);

pub fn arc(s: &str) -> Arc<str> {
    Arc::from(s)
}
pub fn qos(n: u8) -> QoS {
    match n {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
pub fn qos_n(q: QoS) -> u8 {
    match q {
        QoS::QoS0 => 0,
        QoS::QoS1 => 1,
        QoS::QoS2 => 2,
    }
}

/// the library's value for a property of that identifier
pub fn value(id: u8, v: &Val) -> Result<MqttPropValue, DataParseError> {
    Ok(match v {
        Val::Byte(b) if BOOL_PROPS.contains(&id) => MqttPropValue::new_bool(*b != 0),
        Val::Byte(b) => MqttPropValue::new_u8(*b),
        Val::U16(x) => MqttPropValue::new_u16(*x),
        Val::U32(x) => MqttPropValue::new_u32(*x),
        Val::Var(x) => MqttPropValue::new_varint(*x)?,
        Val::Str(s) => MqttPropValue::new_string(arc(s))?,
        Val::Bin(b) => MqttPropValue::new_data(Bytes::copy_from_slice(b))?,
    })
}
/// reads a property value back with the getter of its type; also checks that no getter of another
/// type answers
pub fn unvalue(id: u8, v: &MqttPropValue) -> Result<Val, String> {
    let ty = prop_info(id as u32).expect("table").1;
    let is_bool = BOOL_PROPS.contains(&id);
    let got = (
        v.into_bool(),
        v.into_u8(),
        v.into_u16(),
        v.into_u32(),
        v.into_str().map(|s| s.to_string()),
        v.into_data().map(|d| d.to_vec()),
        v.into_str_pair().is_some(),
    );
    let out = match (&got, ty) {
        ((Some(b), None, None, None, None, None, false), Ty::Byte) if is_bool => Val::Byte(*b as u8),
        ((_, Some(b), None, None, None, None, false), Ty::Byte) if !is_bool => Val::Byte(*b),
        ((None, None, Some(x), None, None, None, false), Ty::U16) => Val::U16(*x),
        ((None, None, None, Some(x), None, None, false), Ty::U32) => Val::U32(*x),
        ((None, None, None, Some(x), None, None, false), Ty::Var) => Val::Var(*x),
        ((None, None, None, None, Some(s), None, false), Ty::Str) => Val::Str(s.clone()),
        ((None, None, None, None, None, Some(d), false), Ty::Bin) => Val::Bin(d.clone()),
        _ => {
            return Err(format!(
                "property {:#x} reads as bool={:?} u8={:?} u16={:?} u32={:?} str={:?} data={} pair={}",
                id,
                got.0,
                got.1,
                got.2,
                got.3,
                got.4.map(|s| s.len()),
                got.5.is_some(),
                got.6
            ))
        }
    };
    Ok(out)
}

fn err(what: &str) -> impl Fn(DataParseError) -> String + '_ {
    move |e| format!("{} rejected: {:?}", what, e)
}

/// Builds the packet with the public builders. Err if a builder refuses.
pub fn build(p: &RP) -> Result<Packet, String> {
    build_over(p, &mut |_| None)
}
/// Builds the packet like `build`, but sets single-valued parts (properties, user name, password,
/// will) first to another value where `prior` supplies one: what was set last counts.
/// Keys above 0xff stand for the parts that are no property: PRIOR_USER, PRIOR_PASS, PRIOR_WILL.
pub const PRIOR_USER: u16 = 0x100;
pub const PRIOR_PASS: u16 = 0x101;
pub const PRIOR_WILL: u16 = 0x102;
pub fn build_over(p: &RP, prior: &mut dyn FnMut(u16) -> Option<Val>) -> Result<Packet, String> {
    macro_rules! add {
        ($b:expr, $props:expr) => {
            for (id, _) in $props {
                if ![0x26, 0x0b].contains(id) {
                    if let Some(v) = prior(*id as u16) {
                        $b.add_prop(prop(*id), value(*id, &v).map_err(err("property value"))?)
                            .map_err(err(&format!("property {:#x}", id)))?;
                    }
                }
            }
            for (id, v) in $props {
                $b.add_prop(prop(*id), value(*id, v).map_err(err("property value"))?)
                    .map_err(err(&format!("property {:#x}", id)))?;
            }
        };
    }
    Ok(match p {
        RP::Connect { flags, keep, props, id, will, user, pass } => {
            let mut c = Connect::new(arc(id)).map_err(err("client id"))?;
            if flags & 2 != 0 {
                c.set_clean_start();
            }
            c.set_keep_alive(*keep);
            add!(c, props);
            if will.is_some() {
                if let Some(Val::Bin(x)) = prior(PRIOR_WILL) {
                    c.set_will(Will::new(arc("earlier/will"), Bytes::from(x)).map_err(err("will"))?);
                }
            }
            if let Some(w) = will {
                let mut b = Will::new(arc(&w.topic), Bytes::copy_from_slice(&w.payload))
                    .map_err(err("will"))?;
                add!(b, &w.props);
                c.set_will(b);
                c.set_will_qos(qos((flags >> 3) & 3)).map_err(err("will qos"))?;
                if flags & 0x20 != 0 {
                    c.set_will_retain().map_err(err("will retain"))?;
                }
            }
            if user.is_some() {
                if let Some(Val::Str(x)) = prior(PRIOR_USER) {
                    c.set_username(arc(&x)).map_err(err("user name"))?;
                }
            }
            if pass.is_some() {
                if let Some(Val::Bin(x)) = prior(PRIOR_PASS) {
                    c.set_password(Bytes::from(x)).map_err(err("password"))?;
                }
            }
            if let Some(u) = user {
                c.set_username(arc(u)).map_err(err("user name"))?;
            }
            if let Some(p) = pass {
                c.set_password(Bytes::copy_from_slice(p)).map_err(err("password"))?;
            }
            c.build()
        }
        RP::ConnAck { flags, code, props } => {
            let mut c = ConnAck::new();
            if flags & 1 != 0 {
                c.set_session_present();
            }
            c.set_reason_code(connack_code(*code));
            add!(c, props);
            c.build()
        }
        RP::Publish { flags, topic, id, props, payload } => {
            let mut b = Publish::new(arc(topic), Bytes::copy_from_slice(payload))
                .map_err(err("publish topic"))?;
            b.set_qos(qos((flags >> 1) & 3));
            if flags & 1 != 0 {
                b.set_retain();
            }
            if flags & 8 != 0 {
                b.set_dup();
            }
            if let Some(i) = id {
                b.set_packet_identifier(*i).map_err(err("packet identifier"))?;
            }
            add!(b, props);
            b.build()
        }
        RP::Ack { ty, id, code, props } => match *ty {
            T_PUBACK => {
                let mut b = PubAck::new(*id);
                b.set_reason_code(puback_code(*code));
                add!(b, props);
                b.build()
            }
            T_PUBREC => {
                let mut b = PubRec::new(*id);
                b.set_reason_code(puback_code(*code));
                add!(b, props);
                b.build()
            }
            T_PUBREL => {
                let mut b = PubRel::new(*id);
                b.set_reason_code(pubrel_code(*code));
                add!(b, props);
                b.build()
            }
            _ => {
                let mut b = PubComp::new(*id);
                b.set_reason_code(pubrel_code(*code));
                add!(b, props);
                b.build()
            }
        },
        RP::Subscribe { id, props, topics } => {
            let mut b = Subscribe::new(*id);
            add!(b, props);
            for (t, o) in topics {
                let o = SubscriptionOptions::from_bits(*o).ok_or("bad options in the generator")?;
                b.add_topic(arc(t), o).map_err(err("topic filter"))?;
            }
            b.build()
        }
        RP::SubAck { ty: T_SUBACK, id, props, codes } => {
            let mut b = SubAck::new(*id);
            add!(b, props);
            for c in codes {
                b.add_reason_code(suback_code(*c));
            }
            b.build()
        }
        RP::SubAck { id, props, codes, .. } => {
            let mut b = UnsubAck::new(*id);
            add!(b, props);
            for c in codes {
                b.add_reason_code(unsuback_code(*c));
            }
            b.build()
        }
        RP::Unsubscribe { id, props, topics } => {
            let mut b = Unsubscribe::new(*id);
            add!(b, props);
            for t in topics {
                b.add_topic(arc(t)).map_err(err("topic filter"))?;
            }
            b.build()
        }
        RP::Ping { ty: T_PINGREQ } => Ping::new().build_req(),
        RP::Ping { .. } => Ping::new().build_res(),
        RP::Disc { ty: T_DISCONNECT, code, props } => {
            let mut b = Disconnect::new(disconnect_code(*code));
            add!(b, props);
            b.build()
        }
        RP::Disc { code, props, .. } => {
            let mut b = Auth::new(auth_code(*code));
            add!(b, props);
            b.build()
        }
    })
}

/// Properties as the getters show them, in identifier order; checks that the iterator and the
/// per-key getter agree.
macro_rules! props_of {
    ($b:expr) => {{
        let mut out: Props = Vec::new();
        for (k, v) in $b.props_iter() {
            let id = prop_id(k);
            out.push((id, unvalue(id, v)?));
        }
        let out = norm_props(&out);
        let mut again: Props = Vec::new();
        for (k, id) in ALL_PROPS {
            if let Some(vs) = $b.get_prop(*k) {
                if vs.is_empty() {
                    return Err(format!("get_prop({:#x}) is empty but present", id));
                }
                for v in vs {
                    again.push((*id, unvalue(*id, v)?));
                }
            }
        }
        if again != out {
            return Err(format!("props_iter shows {:?}, get_prop shows {:?}", out, again));
        }
        out
    }};
}

/// Everything the public getters show. The packet identifier of UNSUBSCRIBE has no getter and is
/// taken from the encoding.
pub fn observe(p: &Packet) -> Result<RP, String> {
    Ok(match p {
        Packet::Connect(c) => {
            let will = match c.will() {
                Some(w) => {
                    let mut w2 = w.clone();
                    Some(RWill {
                        props: props_of!(w),
                        topic: w.topic().to_string(),
                        payload: w2.payload().to_vec(),
                    })
                }
                None => None,
            };
            RP::Connect {
                flags: c.flags().bits(),
                keep: c.keep_alive(),
                props: props_of!(c),
                id: c.clientid().to_string(),
                will,
                user: c.username().map(|s| s.to_string()),
                pass: c.password().map(|s| s.to_vec()),
            }
        }
        Packet::ConnAck(c) => RP::ConnAck {
            flags: c.flags().bits(),
            code: connack_byte(&c.reason_code()),
            props: props_of!(c),
        },
        Packet::Publish(b) => {
            if qos_n(b.qos()) != (b.flags().bits() >> 1) & 3 {
                return Err("qos() and flags() disagree".into());
            }
            RP::Publish {
                flags: b.flags().bits(),
                topic: b.topic_name().to_string(),
                id: b.packet_identifier(),
                props: props_of!(b),
                payload: b.payload().to_vec(),
            }
        }
        Packet::PubAck(b) => RP::Ack {
            ty: T_PUBACK,
            id: b.identifier(),
            code: puback_byte(&b.reason_code()),
            props: props_of!(b),
        },
        Packet::PubRec(b) => RP::Ack {
            ty: T_PUBREC,
            id: b.identifier(),
            code: puback_byte(&b.reason_code()),
            props: props_of!(b),
        },
        Packet::PubRel(b) => RP::Ack {
            ty: T_PUBREL,
            id: b.identifier(),
            code: pubrel_byte(&b.reason_code()),
            props: props_of!(b),
        },
        Packet::PubComp(b) => RP::Ack {
            ty: T_PUBCOMP,
            id: b.identifier(),
            code: pubrel_byte(&b.reason_code()),
            props: props_of!(b),
        },
        Packet::Subscribe(b) => RP::Subscribe {
            id: b.packet_identifier(),
            props: props_of!(b),
            topics: b.topics_iter().map(|(t, o)| (t.to_string(), o.bits())).collect(),
        },
        Packet::SubAck(b) => RP::SubAck {
            ty: T_SUBACK,
            id: b.identifier(),
            props: props_of!(b),
            codes: b.reason_codes().iter().map(suback_byte).collect(),
        },
        Packet::UnsubAck(b) => RP::SubAck {
            ty: T_UNSUBACK,
            id: b.identifier(),
            props: props_of!(b),
            codes: b.reason_codes().iter().map(unsuback_byte).collect(),
        },
        Packet::Unsubscribe(b) => {
            let e = encode(p);
            let id = match read(&e) {
                Read::Good(RP::Unsubscribe { id, .. }, _, _) => id,
                _ => {
                    // identifier sits right after the header
                    let mut k = 1;
                    while k < e.len() && e[k] & 0x80 != 0 {
                        k += 1;
                    }
                    if e.len() < k + 3 {
                        return Err("UNSUBSCRIBE without identifier".into());
                    }
                    ((e[k + 1] as u16) << 8) | e[k + 2] as u16
                }
            };
            RP::Unsubscribe {
                id,
                props: props_of!(b),
                topics: b.topics_iter().map(|t| t.to_string()).collect(),
            }
        }
        Packet::PingReq(_) => RP::Ping { ty: T_PINGREQ },
        Packet::PingRes(_) => RP::Ping { ty: T_PINGRESP },
        Packet::Disconnect(b) => RP::Disc {
            ty: T_DISCONNECT,
            code: disconnect_byte(&b.reason_code()),
            props: props_of!(b),
        },
        Packet::Auth(b) => {
            RP::Disc { ty: T_AUTH, code: auth_byte(&b.reason_code()), props: props_of!(b) }
        }
    })
}

pub fn encode(p: &Packet) -> Vec<u8> {
    let mut b = BytesMut::new();
    p.to_bytes(&mut b);
    b.to_vec()
}
