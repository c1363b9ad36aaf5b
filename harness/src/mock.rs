//! A storage that records every call with everything it was given and answers from a script.

use async_trait::async_trait;
use futures::StreamExt;
use s3_server::dto::*;
use s3_server::errors::{S3Error, S3ErrorCode, S3StorageError, S3StorageResult};
use s3_server::S3Storage;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct BodySeen {
    pub bytes: Vec<u8>,
    /// the stream ended in this error instead of its end
    pub err: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub op: &'static str,
    /// Debug text of the request DTO with body and metadata taken out
    pub input: String,
    pub meta: Option<BTreeMap<String, String>>,
    pub body: Option<BodySeen>,
}

impl Call {
    pub fn show(&self) -> String {
        let b = match &self.body {
            None => "none".into(),
            Some(b) => format!("{} bytes {:?}{}", b.bytes.len(), crate::http::esc(&b.bytes[..b.bytes.len().min(200)]), b.err.as_ref().map(|e| format!(" then error {e}")).unwrap_or_default()),
        };
        format!("{} {} meta={:?} body={}", self.op, self.input, self.meta, b)
    }
}

pub fn show_calls(c: &[Call]) -> String {
    if c.is_empty() {
        return "(no storage call)".into();
    }
    c.iter().map(Call::show).collect::<Vec<_>>().join("\n")
}

/// scripted result of the next call
pub enum Out {
    Put(PutObjectOutput),
    Get(Box<GetObjectOutput>),
    Head(Box<HeadObjectOutput>),
    Copy(CopyObjectOutput),
    CreateBucket(CreateBucketOutput),
    CreateUpload(CreateMultipartUploadOutput),
    Complete(CompleteMultipartUploadOutput),
    Delete(DeleteObjectOutput),
    DeleteMany(DeleteObjectsOutput),
    Location(GetBucketLocationOutput),
    ListBuckets(ListBucketsOutput),
    List(ListObjectsOutput),
    List2(ListObjectsV2Output),
    Part(UploadPartOutput),
    /// generic error
    Err(S3Error),
    /// operation-specific error, by name
    OpErr(&'static str, String),
}

#[derive(Default)]
pub struct Inner {
    pub calls: Mutex<Vec<Call>>,
    pub next: Mutex<Option<Out>>,
    /// bytes of the body being received
    pub live: Mutex<Vec<u8>>,
    /// answers tell what they answer, and every call waits a little before it returns
    pub echo: bool,
}

#[derive(Clone, Default)]
pub struct Mock(pub Arc<Inner>);

impl Mock {
    pub fn take(&self) -> Vec<Call> {
        std::mem::take(&mut *self.0.calls.lock().unwrap())
    }
    pub fn script(&self, o: Out) {
        *self.0.next.lock().unwrap() = Some(o);
    }
    fn next(&self) -> Option<Out> {
        self.0.next.lock().unwrap().take()
    }
    pub fn echoing() -> Self {
        Mock(Arc::new(Inner { echo: true, ..Inner::default() }))
    }
    fn push(&self, op: &'static str, input: String, meta: Option<HashMap<String, String>>, body: Option<BodySeen>) -> Call {
        let c = Call { op, input, meta: meta.map(|m| m.into_iter().collect()), body };
        self.0.calls.lock().unwrap().push(c.clone());
        c
    }
}

async fn read_body(live: &Mutex<Vec<u8>>, b: Option<ByteStream>) -> Option<BodySeen> {
    let mut b = b?;
    let mut bytes = vec![];
    let mut empties = 0;
    while let Some(x) = b.next().await {
        match x {
            Ok(x) => {
                if x.is_empty() {
                    empties += 1;
                    if empties > 1_000_000 {
                        panic!("SPIN: request body yields empty chunks forever");
                    }
                }
                bytes.extend_from_slice(&x);
                live.lock().unwrap().extend_from_slice(&x);
            }
            Err(e) => return Some(BodySeen { bytes, err: Some(e.to_string()) }),
        }
    }
    Some(BodySeen { bytes, err: None })
}

fn body_err<E>() -> S3StorageError<E> {
    S3StorageError::Other(S3Error::new(S3ErrorCode::IncompleteBody, "body ended in error"))
}

/// pending once
pub async fn pause() {
    let mut done = false;
    futures::future::poll_fn(|cx| {
        if std::mem::replace(&mut done, true) {
            return std::task::Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
    .await
}

impl Mock {
    /// the answer of an echoing mock: an error whose message tells the call
    async fn echo<E>(&self, call: &Call) -> S3StorageResult<(), E> {
        if self.0.echo {
            for _ in 0..call.input.len() % 3 + 1 {
                pause().await;
            }
            return Err(S3StorageError::Other(S3Error::new(S3ErrorCode::SlowDown, crate::sigv4::sha_hex(call.show().as_bytes()))));
        }
        Ok(())
    }
}

macro_rules! answer {
    ($self:ident, $variant:ident) => {
        match $self.next() {
            Some(Out::$variant(o)) => Ok(o.into()),
            Some(Out::Err(e)) => Err(S3StorageError::Other(e)),
            _ => Ok(Default::default()),
        }
    };
}
macro_rules! operr {
    ($self:ident, { $($n:literal => $e:expr),* }) => {{
        let mut g = $self.0.next.lock().unwrap();
        if let Some(Out::OpErr(n, m)) = g.take_if(|o| matches!(o, Out::OpErr(..))) {
            let _ = &m;
            match n {
                $($n => return Err(S3StorageError::Operation($e(m))),)*
                _ => {}
            }
        }
    }};
}

fn unbox<T>(b: Box<T>) -> T {
    *b
}

#[async_trait]
impl S3Storage for Mock {
    async fn complete_multipart_upload(&self, input: CompleteMultipartUploadRequest) -> S3StorageResult<CompleteMultipartUploadOutput, CompleteMultipartUploadError> {
        let call = self.push("CompleteMultipartUpload", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        answer!(self, Complete)
    }
    async fn copy_object(&self, mut input: CopyObjectRequest) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
        let meta = input.metadata.take();
        let call = self.push("CopyObject", format!("{input:?}"), meta, None);
        self.echo(&call).await?;
        operr!(self, {"ObjectNotInActiveTierError" => CopyObjectError::ObjectNotInActiveTierError});
        answer!(self, Copy)
    }
    async fn create_multipart_upload(&self, mut input: CreateMultipartUploadRequest) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
        let meta = input.metadata.take();
        let call = self.push("CreateMultipartUpload", format!("{input:?}"), meta, None);
        self.echo(&call).await?;
        answer!(self, CreateUpload)
    }
    async fn create_bucket(&self, input: CreateBucketRequest) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
        let call = self.push("CreateBucket", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        operr!(self, {"BucketAlreadyExists" => CreateBucketError::BucketAlreadyExists, "BucketAlreadyOwnedByYou" => CreateBucketError::BucketAlreadyOwnedByYou});
        answer!(self, CreateBucket)
    }
    async fn delete_bucket(&self, input: DeleteBucketRequest) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
        let call = self.push("DeleteBucket", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        match self.next() {
            Some(Out::Err(e)) => Err(S3StorageError::Other(e)),
            _ => Ok(DeleteBucketOutput),
        }
    }
    async fn delete_object(&self, input: DeleteObjectRequest) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
        let call = self.push("DeleteObject", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        answer!(self, Delete)
    }
    async fn delete_objects(&self, input: DeleteObjectsRequest) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
        let call = self.push("DeleteObjects", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        answer!(self, DeleteMany)
    }
    async fn get_bucket_location(&self, input: GetBucketLocationRequest) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> {
        let call = self.push("GetBucketLocation", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        answer!(self, Location)
    }
    async fn get_object(&self, input: GetObjectRequest) -> S3StorageResult<GetObjectOutput, GetObjectError> {
        let call = self.push("GetObject", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        operr!(self, {"NoSuchKey" => GetObjectError::NoSuchKey, "InvalidObjectState" => GetObjectError::InvalidObjectState});
        match self.next() {
            Some(Out::Get(o)) => Ok(unbox(o)),
            Some(Out::Err(e)) => Err(S3StorageError::Other(e)),
            _ => Ok(Default::default()),
        }
    }
    async fn head_bucket(&self, input: HeadBucketRequest) -> S3StorageResult<HeadBucketOutput, HeadBucketError> {
        let call = self.push("HeadBucket", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        operr!(self, {"NoSuchBucket" => HeadBucketError::NoSuchBucket});
        match self.next() {
            Some(Out::Err(e)) => Err(S3StorageError::Other(e)),
            _ => Ok(HeadBucketOutput),
        }
    }
    async fn head_object(&self, input: HeadObjectRequest) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
        let call = self.push("HeadObject", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        operr!(self, {"NoSuchKey" => HeadObjectError::NoSuchKey});
        match self.next() {
            Some(Out::Head(o)) => Ok(unbox(o)),
            Some(Out::Err(e)) => Err(S3StorageError::Other(e)),
            _ => Ok(Default::default()),
        }
    }
    async fn list_buckets(&self, input: ListBucketsRequest) -> S3StorageResult<ListBucketsOutput, ListBucketsError> {
        let call = self.push("ListBuckets", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        answer!(self, ListBuckets)
    }
    async fn list_objects(&self, input: ListObjectsRequest) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
        let call = self.push("ListObjects", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        operr!(self, {"NoSuchBucket" => ListObjectsError::NoSuchBucket});
        answer!(self, List)
    }
    async fn list_objects_v2(&self, input: ListObjectsV2Request) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
        let call = self.push("ListObjectsV2", format!("{input:?}"), None, None);
        self.echo(&call).await?;
        operr!(self, {"NoSuchBucket" => ListObjectsV2Error::NoSuchBucket});
        answer!(self, List2)
    }
    async fn put_object(&self, mut input: PutObjectRequest) -> S3StorageResult<PutObjectOutput, PutObjectError> {
        let meta = input.metadata.take();
        let body = read_body(&self.0.live, input.body.take()).await;
        let bad = body.as_ref().map_or(false, |b| b.err.is_some());
        let call = self.push("PutObject", format!("{input:?}"), meta, body);
        self.echo(&call).await?;
        if bad {
            return Err(body_err());
        }
        answer!(self, Put)
    }
    async fn upload_part(&self, mut input: UploadPartRequest) -> S3StorageResult<UploadPartOutput, UploadPartError> {
        let body = read_body(&self.0.live, input.body.take()).await;
        let bad = body.as_ref().map_or(false, |b| b.err.is_some());
        let call = self.push("UploadPart", format!("{input:?}"), None, body);
        self.echo(&call).await?;
        if bad {
            return Err(body_err());
        }
        answer!(self, Part)
    }
}

/// every error each operation can raise through its own error type
pub const OP_ERRORS: &[(&str, &str)] = &[
    ("CopyObject", "ObjectNotInActiveTierError"),
    ("CreateBucket", "BucketAlreadyExists"),
    ("CreateBucket", "BucketAlreadyOwnedByYou"),
    ("GetObject", "NoSuchKey"),
    ("GetObject", "InvalidObjectState"),
    ("HeadBucket", "NoSuchBucket"),
    ("HeadObject", "NoSuchKey"),
    ("ListObjects", "NoSuchBucket"),
    ("ListObjectsV2", "NoSuchBucket"),
];

pub struct Auth(pub Vec<(String, String)>);

#[async_trait]
impl s3_server::S3Auth for Auth {
    async fn get_secret_access_key(&self, access_key_id: &str) -> Result<String, s3_server::errors::S3AuthError> {
        for (a, s) in &self.0 {
            if a == access_key_id {
                return Ok(s.clone());
            }
        }
        Err(s3_server::errors::S3AuthError::NotSignedUp)
    }
}

pub fn simple_auth(keys: &[(String, String)]) -> s3_server::SimpleAuth {
    let mut a = s3_server::SimpleAuth::new();
    for (k, s) in keys {
        a.register(k.clone(), s.clone());
    }
    a
}

pub fn service(auth: Option<&[(String, String)]>) -> (s3_server::S3Service, Mock) {
    let m = Mock::default();
    let mut s = s3_server::S3Service::new(m.clone());
    if let Some(k) = auth {
        s.set_auth(simple_auth(k));
    }
    (s, m)
}

/// one request through a fresh service on a fresh mock, on the strict executor
pub fn one_shot(auth: Option<&[(String, String)]>, req: &crate::http::ReqSpec) -> Result<(crate::http::Resp, Vec<Call>), crate::engine::Fail> {
    let (svc, mock) = service(auth);
    let r = send(&svc, req)?;
    Ok((r, mock.take()))
}

pub fn send(svc: &s3_server::S3Service, req: &crate::http::ReqSpec) -> Result<crate::http::Resp, crate::engine::Fail> {
    use crate::engine::Fail;
    let h = req.build().map_err(|e| Fail::Harness(format!("request cannot be built: {e}")))?;
    match crate::exec::block_on_strict(crate::http::call(svc, h)) {
        Err(s) => Err(Fail::Violation { sig: "stall".into(), msg: format!("{}\n{}", s.0, req.show()) }),
        Ok(Err(e)) => Err(Fail::Violation { sig: "service-error".into(), msg: format!("{e}\n{}", req.show()) }),
        Ok(Ok(r)) => Ok(r),
    }
}
