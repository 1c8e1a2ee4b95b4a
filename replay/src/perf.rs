// generated by gen.py from the definitions of the AMQP 1.0 specification
#![allow(unused_variables)]
use crate::av::{AVDefault, AV};
use crate::rng::Rng;
use crate::sample::Sample;
use amqp_codec::protocol::*;

impl Sample for Role {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(2) {
            0 => Role::Sender,
            _ => Role::Receiver,
        }
    }
    fn av(&self) -> AV {
        match self {
            Role::Sender => AV::Bool(false),
            Role::Receiver => AV::Bool(true),
        }
    }
}
impl Sample for SenderSettleMode {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(3) {
            0 => SenderSettleMode::Unsettled,
            1 => SenderSettleMode::Settled,
            _ => SenderSettleMode::Mixed,
        }
    }
    fn av(&self) -> AV {
        match self {
            SenderSettleMode::Unsettled => AV::U8(0),
            SenderSettleMode::Settled => AV::U8(1),
            SenderSettleMode::Mixed => AV::U8(2),
        }
    }
}
impl Sample for ReceiverSettleMode {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(2) {
            0 => ReceiverSettleMode::First,
            _ => ReceiverSettleMode::Second,
        }
    }
    fn av(&self) -> AV {
        match self {
            ReceiverSettleMode::First => AV::U8(0),
            ReceiverSettleMode::Second => AV::U8(1),
        }
    }
}
impl Sample for AmqpError {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(13) {
            0 => AmqpError::InternalError,
            1 => AmqpError::NotFound,
            2 => AmqpError::UnauthorizedAccess,
            3 => AmqpError::DecodeError,
            4 => AmqpError::ResourceLimitExceeded,
            5 => AmqpError::NotAllowed,
            6 => AmqpError::InvalidField,
            7 => AmqpError::NotImplemented,
            8 => AmqpError::ResourceLocked,
            9 => AmqpError::PreconditionFailed,
            10 => AmqpError::ResourceDeleted,
            11 => AmqpError::IllegalState,
            _ => AmqpError::FrameSizeTooSmall,
        }
    }
    fn av(&self) -> AV {
        match self {
            AmqpError::InternalError => AV::Sym("amqp:internal-error".to_string()),
            AmqpError::NotFound => AV::Sym("amqp:not-found".to_string()),
            AmqpError::UnauthorizedAccess => AV::Sym("amqp:unauthorized-access".to_string()),
            AmqpError::DecodeError => AV::Sym("amqp:decode-error".to_string()),
            AmqpError::ResourceLimitExceeded => AV::Sym("amqp:resource-limit-exceeded".to_string()),
            AmqpError::NotAllowed => AV::Sym("amqp:not-allowed".to_string()),
            AmqpError::InvalidField => AV::Sym("amqp:invalid-field".to_string()),
            AmqpError::NotImplemented => AV::Sym("amqp:not-implemented".to_string()),
            AmqpError::ResourceLocked => AV::Sym("amqp:resource-locked".to_string()),
            AmqpError::PreconditionFailed => AV::Sym("amqp:precondition-failed".to_string()),
            AmqpError::ResourceDeleted => AV::Sym("amqp:resource-deleted".to_string()),
            AmqpError::IllegalState => AV::Sym("amqp:illegal-state".to_string()),
            AmqpError::FrameSizeTooSmall => AV::Sym("amqp:frame-size-too-small".to_string()),
        }
    }
}
impl Sample for ConnectionError {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(3) {
            0 => ConnectionError::ConnectionForced,
            1 => ConnectionError::FramingError,
            _ => ConnectionError::Redirect,
        }
    }
    fn av(&self) -> AV {
        match self {
            ConnectionError::ConnectionForced => AV::Sym("amqp:connection:forced".to_string()),
            ConnectionError::FramingError => AV::Sym("amqp:connection:framing-error".to_string()),
            ConnectionError::Redirect => AV::Sym("amqp:connection:redirect".to_string()),
        }
    }
}
impl Sample for SessionError {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(4) {
            0 => SessionError::WindowViolation,
            1 => SessionError::ErrantLink,
            2 => SessionError::HandleInUse,
            _ => SessionError::UnattachedHandle,
        }
    }
    fn av(&self) -> AV {
        match self {
            SessionError::WindowViolation => AV::Sym("amqp:session:window-violation".to_string()),
            SessionError::ErrantLink => AV::Sym("amqp:session:errant-link".to_string()),
            SessionError::HandleInUse => AV::Sym("amqp:session:handle-in-use".to_string()),
            SessionError::UnattachedHandle => AV::Sym("amqp:session:unattached-handle".to_string()),
        }
    }
}
impl Sample for LinkError {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(5) {
            0 => LinkError::DetachForced,
            1 => LinkError::TransferLimitExceeded,
            2 => LinkError::MessageSizeExceeded,
            3 => LinkError::Redirect,
            _ => LinkError::Stolen,
        }
    }
    fn av(&self) -> AV {
        match self {
            LinkError::DetachForced => AV::Sym("amqp:link:detach-forced".to_string()),
            LinkError::TransferLimitExceeded => AV::Sym("amqp:link:transfer-limit-exceeded".to_string()),
            LinkError::MessageSizeExceeded => AV::Sym("amqp:link:message-size-exceeded".to_string()),
            LinkError::Redirect => AV::Sym("amqp:link:redirect".to_string()),
            LinkError::Stolen => AV::Sym("amqp:link:stolen".to_string()),
        }
    }
}
impl Sample for SaslCode {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(5) {
            0 => SaslCode::Ok,
            1 => SaslCode::Auth,
            2 => SaslCode::Sys,
            3 => SaslCode::SysPerm,
            _ => SaslCode::SysTemp,
        }
    }
    fn av(&self) -> AV {
        match self {
            SaslCode::Ok => AV::U8(0),
            SaslCode::Auth => AV::U8(1),
            SaslCode::Sys => AV::U8(2),
            SaslCode::SysPerm => AV::U8(3),
            SaslCode::SysTemp => AV::U8(4),
        }
    }
}
impl Sample for TerminusDurability {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(3) {
            0 => TerminusDurability::None,
            1 => TerminusDurability::Configuration,
            _ => TerminusDurability::UnsettledState,
        }
    }
    fn av(&self) -> AV {
        match self {
            TerminusDurability::None => AV::U32(0),
            TerminusDurability::Configuration => AV::U32(1),
            TerminusDurability::UnsettledState => AV::U32(2),
        }
    }
}
impl Sample for TerminusExpiryPolicy {
    fn gen(r: &mut Rng, _: u32) -> Self {
        match r.below(4) {
            0 => TerminusExpiryPolicy::LinkDetach,
            1 => TerminusExpiryPolicy::SessionEnd,
            2 => TerminusExpiryPolicy::ConnectionClose,
            _ => TerminusExpiryPolicy::Never,
        }
    }
    fn av(&self) -> AV {
        match self {
            TerminusExpiryPolicy::LinkDetach => AV::Sym("link-detach".to_string()),
            TerminusExpiryPolicy::SessionEnd => AV::Sym("session-end".to_string()),
            TerminusExpiryPolicy::ConnectionClose => AV::Sym("connection-close".to_string()),
            TerminusExpiryPolicy::Never => AV::Sym("never".to_string()),
        }
    }
}
static D_ERROR: [Option<AVDefault>; 3] = [None, None, None];
impl Sample for Error {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Error { condition: Sample::gen(r, d + 1), description: Sample::gen(r, d + 1), info: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(29, "amqp:error:list", vec![self.condition.av(), self.description.av(), self.info.av()], &D_ERROR)
    }
}
static D_OPEN: [Option<AVDefault>; 10] = [None, None, Some(AVDefault::U32(4294967295)), Some(AVDefault::U16(65535)), None, None, None, None, None, None];
impl Sample for Open {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Open { container_id: Sample::gen(r, d + 1), hostname: Sample::gen(r, d + 1), max_frame_size: Sample::gen(r, d + 1), channel_max: Sample::gen(r, d + 1), idle_time_out: Sample::gen(r, d + 1), outgoing_locales: Sample::gen(r, d + 1), incoming_locales: Sample::gen(r, d + 1), offered_capabilities: Sample::gen(r, d + 1), desired_capabilities: Sample::gen(r, d + 1), properties: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(16, "amqp:open:list", vec![self.container_id.av(), self.hostname.av(), self.max_frame_size.av(), self.channel_max.av(), self.idle_time_out.av(), self.outgoing_locales.av(), self.incoming_locales.av(), self.offered_capabilities.av(), self.desired_capabilities.av(), self.properties.av()], &D_OPEN)
    }
}
static D_BEGIN: [Option<AVDefault>; 8] = [None, None, None, None, Some(AVDefault::U32(4294967295)), None, None, None];
impl Sample for Begin {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Begin { remote_channel: Sample::gen(r, d + 1), next_outgoing_id: Sample::gen(r, d + 1), incoming_window: Sample::gen(r, d + 1), outgoing_window: Sample::gen(r, d + 1), handle_max: Sample::gen(r, d + 1), offered_capabilities: Sample::gen(r, d + 1), desired_capabilities: Sample::gen(r, d + 1), properties: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(17, "amqp:begin:list", vec![self.remote_channel.av(), self.next_outgoing_id.av(), self.incoming_window.av(), self.outgoing_window.av(), self.handle_max.av(), self.offered_capabilities.av(), self.desired_capabilities.av(), self.properties.av()], &D_BEGIN)
    }
}
static D_ATTACH: [Option<AVDefault>; 14] = [None, None, None, Some(AVDefault::U8(2)), Some(AVDefault::U8(0)), None, None, None, Some(AVDefault::Bool(false)), None, None, None, None, None];
impl Sample for Attach {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Attach { name: Sample::gen(r, d + 1), handle: Sample::gen(r, d + 1), role: Sample::gen(r, d + 1), snd_settle_mode: Sample::gen(r, d + 1), rcv_settle_mode: Sample::gen(r, d + 1), source: Sample::gen(r, d + 1), target: Sample::gen(r, d + 1), unsettled: Sample::gen(r, d + 1), incomplete_unsettled: Sample::gen(r, d + 1), initial_delivery_count: Sample::gen(r, d + 1), max_message_size: Sample::gen(r, d + 1), offered_capabilities: Sample::gen(r, d + 1), desired_capabilities: Sample::gen(r, d + 1), properties: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(18, "amqp:attach:list", vec![self.name.av(), self.handle.av(), self.role.av(), self.snd_settle_mode.av(), self.rcv_settle_mode.av(), self.source.av(), self.target.av(), self.unsettled.av(), self.incomplete_unsettled.av(), self.initial_delivery_count.av(), self.max_message_size.av(), self.offered_capabilities.av(), self.desired_capabilities.av(), self.properties.av()], &D_ATTACH)
    }
}
static D_FLOW: [Option<AVDefault>; 11] = [None, None, None, None, None, None, None, None, Some(AVDefault::Bool(false)), Some(AVDefault::Bool(false)), None];
impl Sample for Flow {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Flow { next_incoming_id: Sample::gen(r, d + 1), incoming_window: Sample::gen(r, d + 1), next_outgoing_id: Sample::gen(r, d + 1), outgoing_window: Sample::gen(r, d + 1), handle: Sample::gen(r, d + 1), delivery_count: Sample::gen(r, d + 1), link_credit: Sample::gen(r, d + 1), available: Sample::gen(r, d + 1), drain: Sample::gen(r, d + 1), echo: Sample::gen(r, d + 1), properties: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(19, "amqp:flow:list", vec![self.next_incoming_id.av(), self.incoming_window.av(), self.next_outgoing_id.av(), self.outgoing_window.av(), self.handle.av(), self.delivery_count.av(), self.link_credit.av(), self.available.av(), self.drain.av(), self.echo.av(), self.properties.av()], &D_FLOW)
    }
}
static D_TRANSFER: [Option<AVDefault>; 11] = [None, None, None, None, None, Some(AVDefault::Bool(false)), None, None, Some(AVDefault::Bool(false)), Some(AVDefault::Bool(false)), Some(AVDefault::Bool(false))];
impl Sample for Transfer {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Transfer { handle: Sample::gen(r, d + 1), delivery_id: Sample::gen(r, d + 1), delivery_tag: Sample::gen(r, d + 1), message_format: Sample::gen(r, d + 1), settled: Sample::gen(r, d + 1), more: Sample::gen(r, d + 1), rcv_settle_mode: Sample::gen(r, d + 1), state: Sample::gen(r, d + 1), resume: Sample::gen(r, d + 1), aborted: Sample::gen(r, d + 1), batchable: Sample::gen(r, d + 1), body: if r.one_in(2) { None } else { Some(TransferBody::gen(r, d)) } }
    }
    fn av(&self) -> AV {
        {
            let l = AV::Comp(20, "amqp:transfer:list", vec![self.handle.av(), self.delivery_id.av(), self.delivery_tag.av(), self.message_format.av(), self.settled.av(), self.more.av(), self.rcv_settle_mode.av(), self.state.av(), self.resume.av(), self.aborted.av(), self.batchable.av()], &D_TRANSFER);
            match &self.body {
                Some(b) => AV::Seq(vec![l, b.av()]),
                None => l,
            }
        }
    }
}
static D_DISPOSITION: [Option<AVDefault>; 6] = [None, None, None, Some(AVDefault::Bool(false)), None, Some(AVDefault::Bool(false))];
impl Sample for Disposition {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Disposition { role: Sample::gen(r, d + 1), first: Sample::gen(r, d + 1), last: Sample::gen(r, d + 1), settled: Sample::gen(r, d + 1), state: Sample::gen(r, d + 1), batchable: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(21, "amqp:disposition:list", vec![self.role.av(), self.first.av(), self.last.av(), self.settled.av(), self.state.av(), self.batchable.av()], &D_DISPOSITION)
    }
}
static D_DETACH: [Option<AVDefault>; 3] = [None, Some(AVDefault::Bool(false)), None];
impl Sample for Detach {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Detach { handle: Sample::gen(r, d + 1), closed: Sample::gen(r, d + 1), error: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(22, "amqp:detach:list", vec![self.handle.av(), self.closed.av(), self.error.av()], &D_DETACH)
    }
}
static D_END: [Option<AVDefault>; 1] = [None];
impl Sample for End {
    fn gen(r: &mut Rng, d: u32) -> Self {
        End { error: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(23, "amqp:end:list", vec![self.error.av()], &D_END)
    }
}
static D_CLOSE: [Option<AVDefault>; 1] = [None];
impl Sample for Close {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Close { error: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(24, "amqp:close:list", vec![self.error.av()], &D_CLOSE)
    }
}
static D_SASL_MECHANISMS: [Option<AVDefault>; 1] = [None];
impl Sample for SaslMechanisms {
    fn gen(r: &mut Rng, d: u32) -> Self {
        SaslMechanisms { sasl_server_mechanisms: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(64, "amqp:sasl-mechanisms:list", vec![self.sasl_server_mechanisms.av()], &D_SASL_MECHANISMS)
    }
}
static D_SASL_INIT: [Option<AVDefault>; 3] = [None, None, None];
impl Sample for SaslInit {
    fn gen(r: &mut Rng, d: u32) -> Self {
        SaslInit { mechanism: Sample::gen(r, d + 1), initial_response: Sample::gen(r, d + 1), hostname: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(65, "amqp:sasl-init:list", vec![self.mechanism.av(), self.initial_response.av(), self.hostname.av()], &D_SASL_INIT)
    }
}
static D_SASL_CHALLENGE: [Option<AVDefault>; 1] = [None];
impl Sample for SaslChallenge {
    fn gen(r: &mut Rng, d: u32) -> Self {
        SaslChallenge { challenge: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(66, "amqp:sasl-challenge:list", vec![self.challenge.av()], &D_SASL_CHALLENGE)
    }
}
static D_SASL_RESPONSE: [Option<AVDefault>; 1] = [None];
impl Sample for SaslResponse {
    fn gen(r: &mut Rng, d: u32) -> Self {
        SaslResponse { response: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(67, "amqp:sasl-response:list", vec![self.response.av()], &D_SASL_RESPONSE)
    }
}
static D_SASL_OUTCOME: [Option<AVDefault>; 2] = [None, None];
impl Sample for SaslOutcome {
    fn gen(r: &mut Rng, d: u32) -> Self {
        SaslOutcome { code: Sample::gen(r, d + 1), additional_data: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(68, "amqp:sasl-outcome:list", vec![self.code.av(), self.additional_data.av()], &D_SASL_OUTCOME)
    }
}
static D_SOURCE: [Option<AVDefault>; 11] = [None, Some(AVDefault::U32(0)), Some(AVDefault::Sym("session-end")), Some(AVDefault::U32(0)), Some(AVDefault::Bool(false)), None, None, None, None, None, None];
impl Sample for Source {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Source { address: Sample::gen(r, d + 1), durable: Sample::gen(r, d + 1), expiry_policy: Sample::gen(r, d + 1), timeout: Sample::gen(r, d + 1), dynamic: Sample::gen(r, d + 1), dynamic_node_properties: Sample::gen(r, d + 1), distribution_mode: Sample::gen(r, d + 1), filter: Sample::gen(r, d + 1), default_outcome: Sample::gen(r, d + 1), outcomes: Sample::gen(r, d + 1), capabilities: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(40, "amqp:source:list", vec![self.address.av(), self.durable.av(), self.expiry_policy.av(), self.timeout.av(), self.dynamic.av(), self.dynamic_node_properties.av(), self.distribution_mode.av(), self.filter.av(), self.default_outcome.av(), self.outcomes.av(), self.capabilities.av()], &D_SOURCE)
    }
}
static D_TARGET: [Option<AVDefault>; 7] = [None, Some(AVDefault::U32(0)), Some(AVDefault::Sym("session-end")), Some(AVDefault::U32(0)), Some(AVDefault::Bool(false)), None, None];
impl Sample for Target {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Target { address: Sample::gen(r, d + 1), durable: Sample::gen(r, d + 1), expiry_policy: Sample::gen(r, d + 1), timeout: Sample::gen(r, d + 1), dynamic: Sample::gen(r, d + 1), dynamic_node_properties: Sample::gen(r, d + 1), capabilities: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(41, "amqp:target:list", vec![self.address.av(), self.durable.av(), self.expiry_policy.av(), self.timeout.av(), self.dynamic.av(), self.dynamic_node_properties.av(), self.capabilities.av()], &D_TARGET)
    }
}
static D_HEADER: [Option<AVDefault>; 5] = [Some(AVDefault::Bool(false)), Some(AVDefault::U8(4)), None, Some(AVDefault::Bool(false)), Some(AVDefault::U32(0))];
impl Sample for Header {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Header { durable: Sample::gen(r, d + 1), priority: Sample::gen(r, d + 1), ttl: Sample::gen(r, d + 1), first_acquirer: Sample::gen(r, d + 1), delivery_count: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(112, "amqp:header:list", vec![self.durable.av(), self.priority.av(), self.ttl.av(), self.first_acquirer.av(), self.delivery_count.av()], &D_HEADER)
    }
}
static D_PROPERTIES: [Option<AVDefault>; 13] = [None, None, None, None, None, None, None, None, None, None, None, None, None];
impl Sample for Properties {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Properties { message_id: Sample::gen(r, d + 1), user_id: Sample::gen(r, d + 1), to: Sample::gen(r, d + 1), subject: Sample::gen(r, d + 1), reply_to: Sample::gen(r, d + 1), correlation_id: Sample::gen(r, d + 1), content_type: Sample::gen(r, d + 1), content_encoding: Sample::gen(r, d + 1), absolute_expiry_time: Sample::gen(r, d + 1), creation_time: Sample::gen(r, d + 1), group_id: Sample::gen(r, d + 1), group_sequence: Sample::gen(r, d + 1), reply_to_group_id: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(115, "amqp:properties:list", vec![self.message_id.av(), self.user_id.av(), self.to.av(), self.subject.av(), self.reply_to.av(), self.correlation_id.av(), self.content_type.av(), self.content_encoding.av(), self.absolute_expiry_time.av(), self.creation_time.av(), self.group_id.av(), self.group_sequence.av(), self.reply_to_group_id.av()], &D_PROPERTIES)
    }
}
static D_RECEIVED: [Option<AVDefault>; 2] = [None, None];
impl Sample for Received {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Received { section_number: Sample::gen(r, d + 1), section_offset: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(35, "amqp:received:list", vec![self.section_number.av(), self.section_offset.av()], &D_RECEIVED)
    }
}
static D_ACCEPTED: [Option<AVDefault>; 0] = [];
impl Sample for Accepted {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Accepted {  }
    }
    fn av(&self) -> AV {
        AV::Comp(36, "amqp:accepted:list", vec![], &D_ACCEPTED)
    }
}
static D_REJECTED: [Option<AVDefault>; 1] = [None];
impl Sample for Rejected {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Rejected { error: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(37, "amqp:rejected:list", vec![self.error.av()], &D_REJECTED)
    }
}
static D_RELEASED: [Option<AVDefault>; 0] = [];
impl Sample for Released {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Released {  }
    }
    fn av(&self) -> AV {
        AV::Comp(38, "amqp:released:list", vec![], &D_RELEASED)
    }
}
static D_MODIFIED: [Option<AVDefault>; 3] = [None, None, None];
impl Sample for Modified {
    fn gen(r: &mut Rng, d: u32) -> Self {
        Modified { delivery_failed: Sample::gen(r, d + 1), undeliverable_here: Sample::gen(r, d + 1), message_annotations: Sample::gen(r, d + 1) }
    }
    fn av(&self) -> AV {
        AV::Comp(39, "amqp:modified:list", vec![self.delivery_failed.av(), self.undeliverable_here.av(), self.message_annotations.av()], &D_MODIFIED)
    }
}
impl Sample for Frame {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(9) {
            0 => Frame::Open(Open::gen(r, d)),
            1 => Frame::Begin(Begin::gen(r, d)),
            2 => Frame::Attach(Attach::gen(r, d)),
            3 => Frame::Flow(Flow::gen(r, d)),
            4 => Frame::Transfer(Transfer::gen(r, d)),
            5 => Frame::Disposition(Disposition::gen(r, d)),
            6 => Frame::Detach(Detach::gen(r, d)),
            7 => Frame::End(End::gen(r, d)),
            _ => Frame::Close(Close::gen(r, d)),
        }
    }
    fn av(&self) -> AV {
        match self {
            Frame::Open(x) => x.av(),
            Frame::Begin(x) => x.av(),
            Frame::Attach(x) => x.av(),
            Frame::Flow(x) => x.av(),
            Frame::Transfer(x) => x.av(),
            Frame::Disposition(x) => x.av(),
            Frame::Detach(x) => x.av(),
            Frame::End(x) => x.av(),
            Frame::Close(x) => x.av(),
            Frame::Empty => AV::Seq(vec![]),
        }
    }
}
impl Sample for SaslFrameBody {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(5) {
            0 => SaslFrameBody::SaslMechanisms(SaslMechanisms::gen(r, d)),
            1 => SaslFrameBody::SaslInit(SaslInit::gen(r, d)),
            2 => SaslFrameBody::SaslChallenge(SaslChallenge::gen(r, d)),
            3 => SaslFrameBody::SaslResponse(SaslResponse::gen(r, d)),
            _ => SaslFrameBody::SaslOutcome(SaslOutcome::gen(r, d)),
        }
    }
    fn av(&self) -> AV {
        match self {
            SaslFrameBody::SaslMechanisms(x) => x.av(),
            SaslFrameBody::SaslInit(x) => x.av(),
            SaslFrameBody::SaslChallenge(x) => x.av(),
            SaslFrameBody::SaslResponse(x) => x.av(),
            SaslFrameBody::SaslOutcome(x) => x.av(),
        }
    }
}
impl Sample for Outcome {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(4) {
            0 => Outcome::Accepted(Accepted::gen(r, d)),
            1 => Outcome::Rejected(Rejected::gen(r, d)),
            2 => Outcome::Released(Released::gen(r, d)),
            _ => Outcome::Modified(Modified::gen(r, d)),
        }
    }
    fn av(&self) -> AV {
        match self {
            Outcome::Accepted(x) => x.av(),
            Outcome::Rejected(x) => x.av(),
            Outcome::Released(x) => x.av(),
            Outcome::Modified(x) => x.av(),
        }
    }
}
impl Sample for DeliveryState {
    fn gen(r: &mut Rng, d: u32) -> Self {
        match r.below(5) {
            0 => DeliveryState::Received(Received::gen(r, d)),
            1 => DeliveryState::Accepted(Accepted::gen(r, d)),
            2 => DeliveryState::Rejected(Rejected::gen(r, d)),
            3 => DeliveryState::Released(Released::gen(r, d)),
            _ => DeliveryState::Modified(Modified::gen(r, d)),
        }
    }
    fn av(&self) -> AV {
        match self {
            DeliveryState::Received(x) => x.av(),
            DeliveryState::Accepted(x) => x.av(),
            DeliveryState::Rejected(x) => x.av(),
            DeliveryState::Released(x) => x.av(),
            DeliveryState::Modified(x) => x.av(),
        }
    }
}
/// number of fields of the composite with this code
pub fn fields(code: u64) -> Option<usize> {
    Some(match code {
        29 => 3,
        16 => 10,
        17 => 8,
        18 => 14,
        19 => 11,
        20 => 11,
        21 => 6,
        22 => 3,
        23 => 1,
        24 => 1,
        64 => 1,
        65 => 3,
        66 => 1,
        67 => 1,
        68 => 2,
        40 => 11,
        41 => 7,
        112 => 5,
        115 => 13,
        35 => 2,
        36 => 0,
        37 => 1,
        38 => 0,
        39 => 3,
        _ => return None,
    })
}
pub fn code(name: &str) -> Option<u64> {
    Some(match name {
        "amqp:error:list" => 29,
        "amqp:open:list" => 16,
        "amqp:begin:list" => 17,
        "amqp:attach:list" => 18,
        "amqp:flow:list" => 19,
        "amqp:transfer:list" => 20,
        "amqp:disposition:list" => 21,
        "amqp:detach:list" => 22,
        "amqp:end:list" => 23,
        "amqp:close:list" => 24,
        "amqp:sasl-mechanisms:list" => 64,
        "amqp:sasl-init:list" => 65,
        "amqp:sasl-challenge:list" => 66,
        "amqp:sasl-response:list" => 67,
        "amqp:sasl-outcome:list" => 68,
        "amqp:source:list" => 40,
        "amqp:target:list" => 41,
        "amqp:header:list" => 112,
        "amqp:properties:list" => 115,
        "amqp:received:list" => 35,
        "amqp:accepted:list" => 36,
        "amqp:rejected:list" => 37,
        "amqp:released:list" => 38,
        "amqp:modified:list" => 39,
        _ => return None,
    })
}
/// positions of the mandatory fields
pub fn mandatory(code: u64) -> &'static [usize] {
    match code {
        29 => &[0],
        16 => &[0],
        17 => &[1, 2, 3],
        18 => &[0, 1, 2],
        19 => &[1, 2, 3],
        20 => &[0],
        21 => &[0, 1],
        22 => &[0],
        64 => &[0],
        65 => &[0],
        66 => &[0],
        67 => &[0],
        68 => &[0],
        35 => &[0, 1],
        _ => &[],
    }
}
#[macro_export]
macro_rules! composites {
    ($m:ident, $($a:tt)*) => { $m! { $($a)* protocol::Error, protocol::Open, protocol::Begin, protocol::Attach, protocol::Flow, protocol::Transfer, protocol::Disposition, protocol::Detach, protocol::End, protocol::Close, protocol::SaslMechanisms, protocol::SaslInit, protocol::SaslChallenge, protocol::SaslResponse, protocol::SaslOutcome, protocol::Source, protocol::Target, protocol::Header, protocol::Properties, protocol::Received, protocol::Accepted, protocol::Rejected, protocol::Released, protocol::Modified } };
}
pub static CODES: &[u64] = &[29, 16, 17, 18, 19, 20, 21, 22, 23, 24, 64, 65, 66, 67, 68, 40, 41, 112, 115, 35, 36, 37, 38, 39];
impl<'a, T: Sample> Sample for &'a T {
    fn gen(_: &mut Rng, _: u32) -> Self {
        unreachable!()
    }
    fn av(&self) -> AV {
        (**self).av()
    }
}
pub fn getters(r: &mut Rng) -> Result<(), String> {
    match r.below(24) {
        0 => {
            let v = Error::gen(r, 1);
            if v.condition().av() != v.condition.av() {
                return Err(format!("Error::condition of {:?} reports {:?}", v, v.condition()));
            }
            if v.description().av() != v.description.av() {
                return Err(format!("Error::description of {:?} reports {:?}", v, v.description()));
            }
            if v.info().av() != v.info.av() {
                return Err(format!("Error::info of {:?} reports {:?}", v, v.info()));
            }
        }
        1 => {
            let v = Open::gen(r, 1);
            if v.container_id().av() != v.container_id.av() {
                return Err(format!("Open::container_id of {:?} reports {:?}", v, v.container_id()));
            }
            if v.hostname().av() != v.hostname.av() {
                return Err(format!("Open::hostname of {:?} reports {:?}", v, v.hostname()));
            }
            if v.max_frame_size().av() != v.max_frame_size.av() {
                return Err(format!("Open::max_frame_size of {:?} reports {:?}", v, v.max_frame_size()));
            }
            if v.channel_max().av() != v.channel_max.av() {
                return Err(format!("Open::channel_max of {:?} reports {:?}", v, v.channel_max()));
            }
            if v.idle_time_out().av() != v.idle_time_out.av() {
                return Err(format!("Open::idle_time_out of {:?} reports {:?}", v, v.idle_time_out()));
            }
            if v.outgoing_locales().av() != v.outgoing_locales.av() {
                return Err(format!("Open::outgoing_locales of {:?} reports {:?}", v, v.outgoing_locales()));
            }
            if v.incoming_locales().av() != v.incoming_locales.av() {
                return Err(format!("Open::incoming_locales of {:?} reports {:?}", v, v.incoming_locales()));
            }
            if v.offered_capabilities().av() != v.offered_capabilities.av() {
                return Err(format!("Open::offered_capabilities of {:?} reports {:?}", v, v.offered_capabilities()));
            }
            if v.desired_capabilities().av() != v.desired_capabilities.av() {
                return Err(format!("Open::desired_capabilities of {:?} reports {:?}", v, v.desired_capabilities()));
            }
            if v.properties().av() != v.properties.av() {
                return Err(format!("Open::properties of {:?} reports {:?}", v, v.properties()));
            }
        }
        2 => {
            let v = Begin::gen(r, 1);
            if v.remote_channel().av() != v.remote_channel.av() {
                return Err(format!("Begin::remote_channel of {:?} reports {:?}", v, v.remote_channel()));
            }
            if v.next_outgoing_id().av() != v.next_outgoing_id.av() {
                return Err(format!("Begin::next_outgoing_id of {:?} reports {:?}", v, v.next_outgoing_id()));
            }
            if v.incoming_window().av() != v.incoming_window.av() {
                return Err(format!("Begin::incoming_window of {:?} reports {:?}", v, v.incoming_window()));
            }
            if v.outgoing_window().av() != v.outgoing_window.av() {
                return Err(format!("Begin::outgoing_window of {:?} reports {:?}", v, v.outgoing_window()));
            }
            if v.handle_max().av() != v.handle_max.av() {
                return Err(format!("Begin::handle_max of {:?} reports {:?}", v, v.handle_max()));
            }
            if v.offered_capabilities().av() != v.offered_capabilities.av() {
                return Err(format!("Begin::offered_capabilities of {:?} reports {:?}", v, v.offered_capabilities()));
            }
            if v.desired_capabilities().av() != v.desired_capabilities.av() {
                return Err(format!("Begin::desired_capabilities of {:?} reports {:?}", v, v.desired_capabilities()));
            }
            if v.properties().av() != v.properties.av() {
                return Err(format!("Begin::properties of {:?} reports {:?}", v, v.properties()));
            }
        }
        3 => {
            let v = Attach::gen(r, 1);
            if v.name().av() != v.name.av() {
                return Err(format!("Attach::name of {:?} reports {:?}", v, v.name()));
            }
            if v.handle().av() != v.handle.av() {
                return Err(format!("Attach::handle of {:?} reports {:?}", v, v.handle()));
            }
            if v.role().av() != v.role.av() {
                return Err(format!("Attach::role of {:?} reports {:?}", v, v.role()));
            }
            if v.snd_settle_mode().av() != v.snd_settle_mode.av() {
                return Err(format!("Attach::snd_settle_mode of {:?} reports {:?}", v, v.snd_settle_mode()));
            }
            if v.rcv_settle_mode().av() != v.rcv_settle_mode.av() {
                return Err(format!("Attach::rcv_settle_mode of {:?} reports {:?}", v, v.rcv_settle_mode()));
            }
            if v.source().av() != v.source.av() {
                return Err(format!("Attach::source of {:?} reports {:?}", v, v.source()));
            }
            if v.target().av() != v.target.av() {
                return Err(format!("Attach::target of {:?} reports {:?}", v, v.target()));
            }
            if v.unsettled().av() != v.unsettled.av() {
                return Err(format!("Attach::unsettled of {:?} reports {:?}", v, v.unsettled()));
            }
            if v.incomplete_unsettled().av() != v.incomplete_unsettled.av() {
                return Err(format!("Attach::incomplete_unsettled of {:?} reports {:?}", v, v.incomplete_unsettled()));
            }
            if v.initial_delivery_count().av() != v.initial_delivery_count.av() {
                return Err(format!("Attach::initial_delivery_count of {:?} reports {:?}", v, v.initial_delivery_count()));
            }
            if v.max_message_size().av() != v.max_message_size.av() {
                return Err(format!("Attach::max_message_size of {:?} reports {:?}", v, v.max_message_size()));
            }
            if v.offered_capabilities().av() != v.offered_capabilities.av() {
                return Err(format!("Attach::offered_capabilities of {:?} reports {:?}", v, v.offered_capabilities()));
            }
            if v.desired_capabilities().av() != v.desired_capabilities.av() {
                return Err(format!("Attach::desired_capabilities of {:?} reports {:?}", v, v.desired_capabilities()));
            }
            if v.properties().av() != v.properties.av() {
                return Err(format!("Attach::properties of {:?} reports {:?}", v, v.properties()));
            }
        }
        4 => {
            let v = Flow::gen(r, 1);
            if v.next_incoming_id().av() != v.next_incoming_id.av() {
                return Err(format!("Flow::next_incoming_id of {:?} reports {:?}", v, v.next_incoming_id()));
            }
            if v.incoming_window().av() != v.incoming_window.av() {
                return Err(format!("Flow::incoming_window of {:?} reports {:?}", v, v.incoming_window()));
            }
            if v.next_outgoing_id().av() != v.next_outgoing_id.av() {
                return Err(format!("Flow::next_outgoing_id of {:?} reports {:?}", v, v.next_outgoing_id()));
            }
            if v.outgoing_window().av() != v.outgoing_window.av() {
                return Err(format!("Flow::outgoing_window of {:?} reports {:?}", v, v.outgoing_window()));
            }
            if v.handle().av() != v.handle.av() {
                return Err(format!("Flow::handle of {:?} reports {:?}", v, v.handle()));
            }
            if v.delivery_count().av() != v.delivery_count.av() {
                return Err(format!("Flow::delivery_count of {:?} reports {:?}", v, v.delivery_count()));
            }
            if v.link_credit().av() != v.link_credit.av() {
                return Err(format!("Flow::link_credit of {:?} reports {:?}", v, v.link_credit()));
            }
            if v.available().av() != v.available.av() {
                return Err(format!("Flow::available of {:?} reports {:?}", v, v.available()));
            }
            if v.drain().av() != v.drain.av() {
                return Err(format!("Flow::drain of {:?} reports {:?}", v, v.drain()));
            }
            if v.echo().av() != v.echo.av() {
                return Err(format!("Flow::echo of {:?} reports {:?}", v, v.echo()));
            }
            if v.properties().av() != v.properties.av() {
                return Err(format!("Flow::properties of {:?} reports {:?}", v, v.properties()));
            }
        }
        5 => {
            let v = Transfer::gen(r, 1);
            if v.handle().av() != v.handle.av() {
                return Err(format!("Transfer::handle of {:?} reports {:?}", v, v.handle()));
            }
            if v.delivery_id().av() != v.delivery_id.av() {
                return Err(format!("Transfer::delivery_id of {:?} reports {:?}", v, v.delivery_id()));
            }
            if v.delivery_tag().av() != v.delivery_tag.av() {
                return Err(format!("Transfer::delivery_tag of {:?} reports {:?}", v, v.delivery_tag()));
            }
            if v.message_format().av() != v.message_format.av() {
                return Err(format!("Transfer::message_format of {:?} reports {:?}", v, v.message_format()));
            }
            if v.settled().av() != v.settled.av() {
                return Err(format!("Transfer::settled of {:?} reports {:?}", v, v.settled()));
            }
            if v.more().av() != v.more.av() {
                return Err(format!("Transfer::more of {:?} reports {:?}", v, v.more()));
            }
            if v.rcv_settle_mode().av() != v.rcv_settle_mode.av() {
                return Err(format!("Transfer::rcv_settle_mode of {:?} reports {:?}", v, v.rcv_settle_mode()));
            }
            if v.state().av() != v.state.av() {
                return Err(format!("Transfer::state of {:?} reports {:?}", v, v.state()));
            }
            if v.resume().av() != v.resume.av() {
                return Err(format!("Transfer::resume of {:?} reports {:?}", v, v.resume()));
            }
            if v.aborted().av() != v.aborted.av() {
                return Err(format!("Transfer::aborted of {:?} reports {:?}", v, v.aborted()));
            }
            if v.batchable().av() != v.batchable.av() {
                return Err(format!("Transfer::batchable of {:?} reports {:?}", v, v.batchable()));
            }
        }
        6 => {
            let v = Disposition::gen(r, 1);
            if v.role().av() != v.role.av() {
                return Err(format!("Disposition::role of {:?} reports {:?}", v, v.role()));
            }
            if v.first().av() != v.first.av() {
                return Err(format!("Disposition::first of {:?} reports {:?}", v, v.first()));
            }
            if v.last().av() != v.last.av() {
                return Err(format!("Disposition::last of {:?} reports {:?}", v, v.last()));
            }
            if v.settled().av() != v.settled.av() {
                return Err(format!("Disposition::settled of {:?} reports {:?}", v, v.settled()));
            }
            if v.state().av() != v.state.av() {
                return Err(format!("Disposition::state of {:?} reports {:?}", v, v.state()));
            }
            if v.batchable().av() != v.batchable.av() {
                return Err(format!("Disposition::batchable of {:?} reports {:?}", v, v.batchable()));
            }
        }
        7 => {
            let v = Detach::gen(r, 1);
            if v.handle().av() != v.handle.av() {
                return Err(format!("Detach::handle of {:?} reports {:?}", v, v.handle()));
            }
            if v.closed().av() != v.closed.av() {
                return Err(format!("Detach::closed of {:?} reports {:?}", v, v.closed()));
            }
            if v.error().av() != v.error.av() {
                return Err(format!("Detach::error of {:?} reports {:?}", v, v.error()));
            }
        }
        8 => {
            let v = End::gen(r, 1);
            if v.error().av() != v.error.av() {
                return Err(format!("End::error of {:?} reports {:?}", v, v.error()));
            }
        }
        9 => {
            let v = Close::gen(r, 1);
            if v.error().av() != v.error.av() {
                return Err(format!("Close::error of {:?} reports {:?}", v, v.error()));
            }
        }
        10 => {
            let v = SaslMechanisms::gen(r, 1);
            if v.sasl_server_mechanisms().av() != v.sasl_server_mechanisms.av() {
                return Err(format!("SaslMechanisms::sasl_server_mechanisms of {:?} reports {:?}", v, v.sasl_server_mechanisms()));
            }
        }
        11 => {
            let v = SaslInit::gen(r, 1);
            if v.mechanism().av() != v.mechanism.av() {
                return Err(format!("SaslInit::mechanism of {:?} reports {:?}", v, v.mechanism()));
            }
            if v.initial_response().av() != v.initial_response.av() {
                return Err(format!("SaslInit::initial_response of {:?} reports {:?}", v, v.initial_response()));
            }
            if v.hostname().av() != v.hostname.av() {
                return Err(format!("SaslInit::hostname of {:?} reports {:?}", v, v.hostname()));
            }
        }
        12 => {
            let v = SaslChallenge::gen(r, 1);
            if v.challenge().av() != v.challenge.av() {
                return Err(format!("SaslChallenge::challenge of {:?} reports {:?}", v, v.challenge()));
            }
        }
        13 => {
            let v = SaslResponse::gen(r, 1);
            if v.response().av() != v.response.av() {
                return Err(format!("SaslResponse::response of {:?} reports {:?}", v, v.response()));
            }
        }
        14 => {
            let v = SaslOutcome::gen(r, 1);
            if v.code().av() != v.code.av() {
                return Err(format!("SaslOutcome::code of {:?} reports {:?}", v, v.code()));
            }
            if v.additional_data().av() != v.additional_data.av() {
                return Err(format!("SaslOutcome::additional_data of {:?} reports {:?}", v, v.additional_data()));
            }
        }
        15 => {
            let v = Source::gen(r, 1);
            if v.address().av() != v.address.av() {
                return Err(format!("Source::address of {:?} reports {:?}", v, v.address()));
            }
            if v.durable().av() != v.durable.av() {
                return Err(format!("Source::durable of {:?} reports {:?}", v, v.durable()));
            }
            if v.expiry_policy().av() != v.expiry_policy.av() {
                return Err(format!("Source::expiry_policy of {:?} reports {:?}", v, v.expiry_policy()));
            }
            if v.timeout().av() != v.timeout.av() {
                return Err(format!("Source::timeout of {:?} reports {:?}", v, v.timeout()));
            }
            if v.dynamic().av() != v.dynamic.av() {
                return Err(format!("Source::dynamic of {:?} reports {:?}", v, v.dynamic()));
            }
            if v.dynamic_node_properties().av() != v.dynamic_node_properties.av() {
                return Err(format!("Source::dynamic_node_properties of {:?} reports {:?}", v, v.dynamic_node_properties()));
            }
            if v.distribution_mode().av() != v.distribution_mode.av() {
                return Err(format!("Source::distribution_mode of {:?} reports {:?}", v, v.distribution_mode()));
            }
            if v.filter().av() != v.filter.av() {
                return Err(format!("Source::filter of {:?} reports {:?}", v, v.filter()));
            }
            if v.default_outcome().av() != v.default_outcome.av() {
                return Err(format!("Source::default_outcome of {:?} reports {:?}", v, v.default_outcome()));
            }
            if v.outcomes().av() != v.outcomes.av() {
                return Err(format!("Source::outcomes of {:?} reports {:?}", v, v.outcomes()));
            }
            if v.capabilities().av() != v.capabilities.av() {
                return Err(format!("Source::capabilities of {:?} reports {:?}", v, v.capabilities()));
            }
        }
        16 => {
            let v = Target::gen(r, 1);
            if v.address().av() != v.address.av() {
                return Err(format!("Target::address of {:?} reports {:?}", v, v.address()));
            }
            if v.durable().av() != v.durable.av() {
                return Err(format!("Target::durable of {:?} reports {:?}", v, v.durable()));
            }
            if v.expiry_policy().av() != v.expiry_policy.av() {
                return Err(format!("Target::expiry_policy of {:?} reports {:?}", v, v.expiry_policy()));
            }
            if v.timeout().av() != v.timeout.av() {
                return Err(format!("Target::timeout of {:?} reports {:?}", v, v.timeout()));
            }
            if v.dynamic().av() != v.dynamic.av() {
                return Err(format!("Target::dynamic of {:?} reports {:?}", v, v.dynamic()));
            }
            if v.dynamic_node_properties().av() != v.dynamic_node_properties.av() {
                return Err(format!("Target::dynamic_node_properties of {:?} reports {:?}", v, v.dynamic_node_properties()));
            }
            if v.capabilities().av() != v.capabilities.av() {
                return Err(format!("Target::capabilities of {:?} reports {:?}", v, v.capabilities()));
            }
        }
        17 => {
            let v = Header::gen(r, 1);
            if v.durable().av() != v.durable.av() {
                return Err(format!("Header::durable of {:?} reports {:?}", v, v.durable()));
            }
            if v.priority().av() != v.priority.av() {
                return Err(format!("Header::priority of {:?} reports {:?}", v, v.priority()));
            }
            if v.ttl().av() != v.ttl.av() {
                return Err(format!("Header::ttl of {:?} reports {:?}", v, v.ttl()));
            }
            if v.first_acquirer().av() != v.first_acquirer.av() {
                return Err(format!("Header::first_acquirer of {:?} reports {:?}", v, v.first_acquirer()));
            }
            if v.delivery_count().av() != v.delivery_count.av() {
                return Err(format!("Header::delivery_count of {:?} reports {:?}", v, v.delivery_count()));
            }
        }
        18 => {
            let v = Properties::gen(r, 1);
            if v.message_id().av() != v.message_id.av() {
                return Err(format!("Properties::message_id of {:?} reports {:?}", v, v.message_id()));
            }
            if v.user_id().av() != v.user_id.av() {
                return Err(format!("Properties::user_id of {:?} reports {:?}", v, v.user_id()));
            }
            if v.to().av() != v.to.av() {
                return Err(format!("Properties::to of {:?} reports {:?}", v, v.to()));
            }
            if v.subject().av() != v.subject.av() {
                return Err(format!("Properties::subject of {:?} reports {:?}", v, v.subject()));
            }
            if v.reply_to().av() != v.reply_to.av() {
                return Err(format!("Properties::reply_to of {:?} reports {:?}", v, v.reply_to()));
            }
            if v.correlation_id().av() != v.correlation_id.av() {
                return Err(format!("Properties::correlation_id of {:?} reports {:?}", v, v.correlation_id()));
            }
            if v.content_type().av() != v.content_type.av() {
                return Err(format!("Properties::content_type of {:?} reports {:?}", v, v.content_type()));
            }
            if v.content_encoding().av() != v.content_encoding.av() {
                return Err(format!("Properties::content_encoding of {:?} reports {:?}", v, v.content_encoding()));
            }
            if v.absolute_expiry_time().av() != v.absolute_expiry_time.av() {
                return Err(format!("Properties::absolute_expiry_time of {:?} reports {:?}", v, v.absolute_expiry_time()));
            }
            if v.creation_time().av() != v.creation_time.av() {
                return Err(format!("Properties::creation_time of {:?} reports {:?}", v, v.creation_time()));
            }
            if v.group_id().av() != v.group_id.av() {
                return Err(format!("Properties::group_id of {:?} reports {:?}", v, v.group_id()));
            }
            if v.group_sequence().av() != v.group_sequence.av() {
                return Err(format!("Properties::group_sequence of {:?} reports {:?}", v, v.group_sequence()));
            }
            if v.reply_to_group_id().av() != v.reply_to_group_id.av() {
                return Err(format!("Properties::reply_to_group_id of {:?} reports {:?}", v, v.reply_to_group_id()));
            }
        }
        19 => {
            let v = Received::gen(r, 1);
            if v.section_number().av() != v.section_number.av() {
                return Err(format!("Received::section_number of {:?} reports {:?}", v, v.section_number()));
            }
            if v.section_offset().av() != v.section_offset.av() {
                return Err(format!("Received::section_offset of {:?} reports {:?}", v, v.section_offset()));
            }
        }
        20 => {
            let v = Accepted::gen(r, 1);
        }
        21 => {
            let v = Rejected::gen(r, 1);
            if v.error().av() != v.error.av() {
                return Err(format!("Rejected::error of {:?} reports {:?}", v, v.error()));
            }
        }
        22 => {
            let v = Released::gen(r, 1);
        }
        _ => {
            let v = Modified::gen(r, 1);
            if v.delivery_failed().av() != v.delivery_failed.av() {
                return Err(format!("Modified::delivery_failed of {:?} reports {:?}", v, v.delivery_failed()));
            }
            if v.undeliverable_here().av() != v.undeliverable_here.av() {
                return Err(format!("Modified::undeliverable_here of {:?} reports {:?}", v, v.undeliverable_here()));
            }
            if v.message_annotations().av() != v.message_annotations.av() {
                return Err(format!("Modified::message_annotations of {:?} reports {:?}", v, v.message_annotations()));
            }
        }
    }
    Ok(())
}
/// the wire value of every choice of every closed restricted type
pub fn restricted() -> Vec<(&'static str, Vec<AV>, Vec<String>)> {
    vec![
        ("Role", vec![AV::Bool(false), AV::Bool(true)], vec!["Sender".to_string(), "Receiver".to_string()]),
        ("SenderSettleMode", vec![AV::U8(0), AV::U8(1), AV::U8(2)], vec!["Unsettled".to_string(), "Settled".to_string(), "Mixed".to_string()]),
        ("ReceiverSettleMode", vec![AV::U8(0), AV::U8(1)], vec!["First".to_string(), "Second".to_string()]),
        ("AmqpError", vec![AV::Sym("amqp:internal-error".to_string()), AV::Sym("amqp:not-found".to_string()), AV::Sym("amqp:unauthorized-access".to_string()), AV::Sym("amqp:decode-error".to_string()), AV::Sym("amqp:resource-limit-exceeded".to_string()), AV::Sym("amqp:not-allowed".to_string()), AV::Sym("amqp:invalid-field".to_string()), AV::Sym("amqp:not-implemented".to_string()), AV::Sym("amqp:resource-locked".to_string()), AV::Sym("amqp:precondition-failed".to_string()), AV::Sym("amqp:resource-deleted".to_string()), AV::Sym("amqp:illegal-state".to_string()), AV::Sym("amqp:frame-size-too-small".to_string())], vec!["InternalError".to_string(), "NotFound".to_string(), "UnauthorizedAccess".to_string(), "DecodeError".to_string(), "ResourceLimitExceeded".to_string(), "NotAllowed".to_string(), "InvalidField".to_string(), "NotImplemented".to_string(), "ResourceLocked".to_string(), "PreconditionFailed".to_string(), "ResourceDeleted".to_string(), "IllegalState".to_string(), "FrameSizeTooSmall".to_string()]),
        ("ConnectionError", vec![AV::Sym("amqp:connection:forced".to_string()), AV::Sym("amqp:connection:framing-error".to_string()), AV::Sym("amqp:connection:redirect".to_string())], vec!["ConnectionForced".to_string(), "FramingError".to_string(), "Redirect".to_string()]),
        ("SessionError", vec![AV::Sym("amqp:session:window-violation".to_string()), AV::Sym("amqp:session:errant-link".to_string()), AV::Sym("amqp:session:handle-in-use".to_string()), AV::Sym("amqp:session:unattached-handle".to_string())], vec!["WindowViolation".to_string(), "ErrantLink".to_string(), "HandleInUse".to_string(), "UnattachedHandle".to_string()]),
        ("LinkError", vec![AV::Sym("amqp:link:detach-forced".to_string()), AV::Sym("amqp:link:transfer-limit-exceeded".to_string()), AV::Sym("amqp:link:message-size-exceeded".to_string()), AV::Sym("amqp:link:redirect".to_string()), AV::Sym("amqp:link:stolen".to_string())], vec!["DetachForced".to_string(), "TransferLimitExceeded".to_string(), "MessageSizeExceeded".to_string(), "Redirect".to_string(), "Stolen".to_string()]),
        ("SaslCode", vec![AV::U8(0), AV::U8(1), AV::U8(2), AV::U8(3), AV::U8(4)], vec!["Ok".to_string(), "Auth".to_string(), "Sys".to_string(), "SysPerm".to_string(), "SysTemp".to_string()]),
        ("TerminusDurability", vec![AV::U32(0), AV::U32(1), AV::U32(2)], vec!["None".to_string(), "Configuration".to_string(), "UnsettledState".to_string()]),
        ("TerminusExpiryPolicy", vec![AV::Sym("link-detach".to_string()), AV::Sym("session-end".to_string()), AV::Sym("connection-close".to_string()), AV::Sym("never".to_string())], vec!["LinkDetach".to_string(), "SessionEnd".to_string(), "ConnectionClose".to_string(), "Never".to_string()]),
    ]
}
