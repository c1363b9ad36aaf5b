//! C11: an error returned by the storage reaches the client with its code, its message and the status of the
//! S3 error table (reproduced below from the public error list, not from the code).

use crate::engine::*;
use crate::http::ReqSpec;
use crate::sigv4::{presign, sign_header, Cred, PayloadMode};
use crate::mock::{self, Out};
use crate::xmlmini;
use proptest::prelude::*;
use s3_server::errors::{S3Error, S3ErrorCode};
use serde::{Deserialize, Serialize};

macro_rules! codes {
    ($($n:ident $s:literal),* $(,)?) => {
        /// name, code, status; 0: the list assigns none
        pub const CODES: &[(&str, S3ErrorCode, u16)] = &[$((stringify!($n), S3ErrorCode::$n, $s)),*];
    };
}
codes![
    AccessDenied 403, AccountProblem 403, AllAccessDisabled 403, AmbiguousGrantByEmailAddress 400, AuthorizationHeaderMalformed 400, 
    BadDigest 400, BucketAlreadyExists 409, BucketAlreadyOwnedByYou 409, BucketNotEmpty 409, CredentialsNotSupported 400, 
    CrossLocationLoggingProhibited 403, EntityTooSmall 400, EntityTooLarge 400, ExpiredToken 400, IllegalLocationConstraintException 400, 
    IllegalVersioningConfigurationException 400, IncompleteBody 400, IncorrectNumberOfFilesInPostRequest 400, InlineDataTooLarge 400, InternalError 500, 
    InvalidAccessKeyId 403, InvalidAddressingHeader 0, InvalidArgument 400, InvalidBucketName 400, InvalidBucketState 409, 
    InvalidDigest 400, InvalidEncryptionAlgorithmError 400, InvalidLocationConstraint 400, InvalidObjectState 403, InvalidPart 400, 
    InvalidPartOrder 400, InvalidPayer 403, InvalidPolicyDocument 400, InvalidRange 416, InvalidRequest 400, 
    InvalidSecurity 403, InvalidSOAPRequest 400, InvalidStorageClass 400, InvalidTargetBucketForLogging 400, InvalidToken 400, 
    InvalidURI 400, KeyTooLongError 400, MalformedACLError 400, MalformedPOSTRequest 400, MalformedXML 400, 
    MaxMessageLengthExceeded 400, MaxPostPreDataLengthExceededError 400, MetadataTooLarge 400, MethodNotAllowed 405, MissingAttachment 0, 
    MissingContentLength 411, MissingRequestBodyError 400, MissingSecurityElement 400, MissingSecurityHeader 400, NoLoggingStatusForKey 400, 
    NoSuchBucket 404, NoSuchBucketPolicy 404, NoSuchKey 404, NoSuchLifecycleConfiguration 404, NoSuchUpload 404, 
    NoSuchVersion 404, NotImplemented 501, NotSignedUp 403, NotSupported 0, ObjectNotInActiveTierError 403, 
    OperationAborted 409, PermanentRedirect 301, PreconditionFailed 412, Redirect 307, RestoreAlreadyInProgress 409, 
    RequestIsNotMultiPartContent 400, RequestTimeout 400, RequestTimeTooSkewed 403, RequestTorrentOfBucketError 400, ServerSideEncryptionConfigurationNotFoundError 400, 
    ServiceUnavailable 503, SignatureDoesNotMatch 403, SlowDown 503, TemporaryRedirect 307, TokenRefreshRequired 400, 
    TooManyBuckets 400, UnexpectedContent 400, UnresolvableGrantByEmailAddress 400, UserKeyMustBeSpecified 400, XAmzContentSHA256Mismatch 400
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Generic { op: String, code: String, msg: Option<String>, source: Option<String>, backtrace: bool },
    Own { index: usize, msg: String },
    /// a text is parsed as a code
    Parse { text: String },
    /// the key store fails; whether the request is signed in its header, its query or as a form
    Provider { way: u8, code: String, msg: Option<String> },
}

pub struct C11;

/// a key store that fails
struct Failing(String, Option<String>);
#[async_trait::async_trait]
impl s3_server::S3Auth for Failing {
    async fn get_secret_access_key(&self, _: &str) -> Result<String, s3_server::errors::S3AuthError> {
        let k = CODES.iter().find(|(m, _, _)| *m == self.0).map_or(S3ErrorCode::InternalError, |k| k.1);
        let mut b = S3Error::from_code(k);
        if let Some(m) = &self.1 {
            b = b.message(m.clone());
        }
        Err(s3_server::errors::S3AuthError::Other(b.finish()))
    }
}

fn msg() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[ -~]{0,30}",
        2 => "[<>&\"'\\]\\[!;#a-z \t\r\n-]{0,14}",
        1 => Just("]]> <Code>NoSuchKey</Code>".to_string()),
        1 => prop::collection::vec(any::<char>().prop_filter("xml", |c| xmlmini::xml_char(*c)), 0..10).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (1_usize..5000, "[a-z<& ]{1,4}").prop_map(|(n, s)| s.repeat(n)),
    ]
    .boxed()
}

fn ops() -> Vec<String> {
    crate::ops::OPS.iter().map(|o| o.name.to_owned()).collect()
}

impl Prop for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "an error response was judged, or a code was parsed from a text";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "text that XML 1.0 cannot represent is not generated",
        "codes for which the S3 error list gives no status must have a 4xx or 5xx status",
        "the response to HEAD may lack its document",
    ];
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Case> {
        let code = (0..CODES.len()).prop_map(|i| CODES[i].0.to_owned());
        let near = (0..CODES.len(), 0_u8..7, "[A-Za-z]{1,3}").prop_map(|(i, k, x)| {
            let n = CODES[i].0;
            match k {
                0 => n.to_ascii_lowercase(),
                1 => n[..n.len() - 1].to_owned(),
                2 => n[1..].to_owned(),
                3 => format!("{n}{x}"),
                4 => format!(" {n}"),
                5 => format!("{x}{n}"),
                _ => n.trim_end_matches("Error").to_owned(),
            }
        });
        prop_oneof![
            12 => (prop::sample::select(ops()), code, prop::option::weighted(0.9, msg()), prop::option::weighted(0.2, msg()), prop::bool::weighted(0.02)).prop_map(|(op, code, msg, source, backtrace)| Case::Generic { op, code, msg, source, backtrace }),
            3 => (0..mock::OP_ERRORS.len(), msg()).prop_map(|(index, msg)| Case::Own { index, msg }),
            1 => (0_u8..3, (0..CODES.len()).prop_map(|i| CODES[i].0.to_owned()), prop::option::weighted(0.9, msg())).prop_map(|(way, code, msg)| Case::Provider { way, code, msg }),
            1 => near.prop_map(|text| Case::Parse { text }),
            1 => msg().prop_map(|text| Case::Parse { text }),
        ]
        .boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick {
            40_000
        } else {
            1_000_000
        }
    }
    /// every code through every operation, every operation error
    fn directed(&self, _t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for op in ops() {
            for (n, _, _) in CODES {
                v.push(Case::Generic { op: op.clone(), code: (*n).to_owned(), msg: Some("m <&>\" 1".into()), source: None, backtrace: false });
                v.push(Case::Generic { op: op.clone(), code: (*n).to_owned(), msg: None, source: None, backtrace: false });
            }
        }
        for index in 0..mock::OP_ERRORS.len() {
            v.push(Case::Own { index, msg: "own <&>".into() });
        }
        for way in 0..3 {
            for (n, _, _) in CODES {
                v.push(Case::Provider { way, code: (*n).to_owned(), msg: Some("store <&>".into()) });
            }
        }
        for (n, _, _) in CODES {
            v.push(Case::Parse { text: (*n).to_owned() });
        }
        v
    }
    fn run(&self, c: &Case, cx: &mut Cx) -> PResult {
        let lookup = |n: &str| CODES.iter().find(|(m, _, _)| *m == n).copied();
        let (op, name, message, out) = match c {
            Case::Parse { text } => {
                cx.nontrivial();
                cx.label("parse");
                let known = lookup(text);
                return match (S3ErrorCode::parse_from_str(text), known) {
                    (Ok(c), _) if c.as_static_str() != text => viol("parse-other", format!("{text:?} parsed as {}", c.as_static_str())),
                    (Ok(c), Some((_, k, _))) if std::mem::discriminant(&c) != std::mem::discriminant(&k) => viol("parse-other", format!("{text:?} parsed as {c:?}")),
                    (Err(_), Some(_)) => viol("parse-refused", format!("the text of the code {text} does not parse")),
                    (_, Some((n, k, _))) if k.as_static_str() != n || k.to_string() != n => viol("text", format!("the text of {n} is {:?} / {:?}", k.as_static_str(), k.to_string())),
                    _ => Ok(()),
                };
            }
            Case::Generic { op, code, msg, source, backtrace } => {
                let k = match lookup(code) {
                    Some(k) => k.1,
                    None => return harness("unknown code"),
                };
                let mut b = S3Error::from_code(k);
                if let Some(m) = msg {
                    b = b.message(m.clone());
                }
                if let Some(s) = source {
                    b = b.source(std::io::Error::new(std::io::ErrorKind::Other, s.clone()));
                }
                if *backtrace {
                    b = b.capture_backtrace().capture_span_trace();
                }
                (op.clone(), code.clone(), msg.clone(), Out::Err(b.finish()))
            }
            Case::Provider { code, msg, .. } => ("the key store".to_owned(), code.clone(), msg.clone(), Out::Put(Default::default())),
            Case::Own { index, msg } => {
                let (op, n) = mock::OP_ERRORS[*index];
                (op.to_owned(), n.to_owned(), Some(msg.clone()), Out::OpErr(n, msg.clone()))
            }
        };
        cx.nontrivial();
        cx.label(op.clone());
        let (mut svc, m) = mock::service(None);
        m.script(out);
        let mut req = ReqSpec::new("GET", "/bkt/k").header("host", "s3.amazonaws.com");
        if let Case::Provider { way, code, msg } = c {
            svc.set_auth(Failing(code.clone(), msg.clone()));
            let cred = Cred { access: "AKIA1".into(), secret: "x".into(), region: "us-east-1".into(), date: chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string() };
            match way {
                0 => {
                    let names: Vec<String> = ["host", "x-amz-content-sha256", "x-amz-date"].iter().map(|s| (*s).to_owned()).collect();
                    sign_header(&mut req, &cred, PayloadMode::Signed, &names, 0);
                }
                1 => {
                    presign(&mut req, &cred, "3600", &["host".to_owned()], 0);
                }
                _ => {
                    let f = super::form::plain();
                    let fields = [f.fields(), f.auth_fields(&super::form::b64(&f.policy()), &f.cred())].concat();
                    req = f.request(&fields).0;
                }
            }
        } else {
            req = super::c10_output::request_for(&op);
        }
        let r = mock::send(&svc, &req)?;
        let calls = m.take();
        if let Case::Provider { .. } = c {
            if !calls.is_empty() {
                return viol("provider-ignored", format!("the key store failed and the storage was used\n{}{}{}", req.show(), mock::show_calls(&calls), r.show()));
            }
        } else if calls.len() != 1 || calls[0].op != op {
            return harness(format!("{op} did not reach the storage once\n{}{}", req.show(), mock::show_calls(&calls)));
        }
        let show = || format!("{op} failed with {name}, message {message:?}\nresponse: {}", r.show());
        if r.status < 300 {
            return viol(format!("success:{name}"), format!("a failure is reported with success status {}\n{}", r.status, show()));
        }
        let want = lookup(&name).map_or(0, |k| k.2);
        if (want != 0 && r.status != want) || (want == 0 && r.status < 400) {
            return viol(format!("status:{name}:{}", r.status), format!("status {} instead of {want}\n{}", r.status, show()));
        }
        if req.method == "HEAD" && r.body.is_empty() {
            return Ok(());
        }
        let doc = match xmlmini::parse(&r.body) {
            Ok(d) => d,
            Err(e) => return viol("xml", format!("not well-formed XML: {e}\n{}", show())),
        };
        if doc.name != "Error" || doc.all("Code").count() != 1 || doc.all("Message").count() > 1 {
            return viol("document", format!("not an Error document\n{}", show()));
        }
        if doc.text_of("Code") != Some(name.as_str()) {
            return viol(format!("code:{name}"), format!("code {:?}\n{}", doc.text_of("Code"), show()));
        }
        if doc.text_of("Message").unwrap_or("") != message.as_deref().unwrap_or("") || (message.is_some() && doc.child("Message").is_none()) {
            return viol("message", format!("message {:?}\n{}", doc.text_of("Message"), show()));
        }
        if !r.get("content-type").map_or(false, |t| t.contains("xml")) {
            return viol("xml-type", format!("XML body without XML media type\n{}", show()));
        }
        Ok(())
    }
}
