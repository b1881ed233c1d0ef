//! The simulated object store: an S3 service model (path-style requests, MD5
//! ETags, `Content-MD5` verification, paginated listings) and the dispatcher
//! through which the real `rusoto_s3` client reaches it.
use crate::{
    kernel::{self, op, quick, Class, Decision, Kernel, NetFault},
    rng::hash_bytes,
};
use futures::{stream, StreamExt};
use http::{HeaderMap, StatusCode};
use rusoto_core::{
    credential::StaticProvider,
    request::{DispatchSignedRequest, DispatchSignedRequestFuture, HttpDispatchError, HttpResponse},
    signature::{SignedRequest, SignedRequestPayload},
    ByteStream, Client,
};
use std::{
    collections::BTreeMap,
    future::Future,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
    time::Duration,
};

pub const BUCKET: &str = "artefacts";
pub const HOST: &str = "artefacts.sim.example.com";

#[derive(Clone, Debug)]
pub struct Object {
    pub data: Arc<Vec<u8>>,
    pub etag: String,
    pub ver: u64,
    /// the size it pretends to have; fetching it breaks off
    pub giant: Option<u64>,
}
impl Object {
    pub fn size(&self) -> u64 {
        self.giant.unwrap_or(self.data.len() as u64)
    }
}

#[derive(Clone, Debug)]
pub struct S3Server {
    pub objects: BTreeMap<String, Object>,
    pub changes: u64,
    pub page_size: usize,
    /// 0: keys in order; otherwise the order is a hash of this and the key
    pub list_order: u64,
    /// up to this many polls until an answer is there
    pub latency: u32,
    pub chunk: usize,
    pub empty_pages: bool,
    pub bare_etags: bool,
    pub requests: BTreeMap<String, u64>,
}

impl S3Server {
    pub fn new() -> S3Server {
        S3Server {
            objects: BTreeMap::new(),
            changes: 0,
            page_size: 1000,
            list_order: 0,
            latency: 0,
            chunk: 1 << 16,
            empty_pages: false,
            bare_etags: false,
            requests: BTreeMap::new(),
        }
    }
    pub fn store(&mut self, key: &str, data: Vec<u8>) {
        self.changes += 1;
        let etag = match self.bare_etags {
            true => format!("{:x}", md5::compute(&data)),
            false => format!("\"{:x}\"", md5::compute(&data)),
        };
        self.objects.insert(key.to_string(), Object { data: Arc::new(data), etag, ver: self.changes, giant: None });
    }
}

impl S3Server {
    /// The object has been uploaded in parts.
    pub fn make_multipart(&mut self, key: &str) {
        if let Some(o) = self.objects.get_mut(key) {
            let bare = o.etag.trim_matches('"').to_string();
            let new = format!("{}-{}", bare.chars().rev().collect::<String>(), 1 + o.data.len() / 5_000_000);
            o.etag = o.etag.replace(&bare, &new);
        }
    }
    fn unchecked(&self, key: &Option<String>) -> bool {
        key.as_ref().and_then(|k| self.objects.get(k)).map_or(false, |o| o.etag.contains('-'))
    }
}

struct Req {
    method: String,
    key: Option<String>,
    params: BTreeMap<String, Option<String>>,
    headers: BTreeMap<String, String>,
    body: Vec<u8>,
}

struct Resp {
    status: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    /// artefact key the body belongs to, for byte accounting
    key: Option<String>,
    cut: Option<(usize, bool)>,
    polls: u32,
}

fn xml(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
fn error(status: u16, code: &str) -> Resp {
    Resp {
        status,
        headers: vec![("content-type".into(), "application/xml".into())],
        body: format!(
            "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>{}</Code><Message>{}</Message><RequestId>sim</RequestId></Error>",
            code, code
        )
        .into_bytes(),
        key: None,
        cut: None,
        polls: 0,
    }
}
fn ok(headers: Vec<(String, String)>, body: Vec<u8>) -> Resp {
    Resp { status: 200, headers, body, key: None, cut: None, polls: 0 }
}

fn param<'a>(r: &'a Req, n: &str) -> Option<&'a str> {
    r.params.get(n).and_then(|v| v.as_deref())
}

fn list(s: &S3Server, r: &Req) -> Resp {
    let v2 = param(r, "list-type") == Some("2");
    let prefix = param(r, "prefix").unwrap_or("");
    let delim = param(r, "delimiter").filter(|d| !d.is_empty());
    let max = param(r, "max-keys").and_then(|m| m.parse::<usize>().ok()).unwrap_or(1000).min(s.page_size);
    let order = |k: &str| if s.list_order == 0 { 0 } else { hash_bytes(s.list_order, k.as_bytes()) };
    let after: Option<String> = param(r, "continuation-token")
        .and_then(|t| base64::decode(t).ok())
        .and_then(|b| String::from_utf8(b).ok())
        .or_else(|| param(r, if v2 { "start-after" } else { "marker" }).map(String::from));
    if param(r, "continuation-token").is_some() && after.is_none() {
        return error(400, "InvalidArgument");
    }
    // (some pages are empty, although there is more to come)
    let (seen_empty, after) = match after {
        Some(a) if a.starts_with('\u{1}') => (true, Some(a[1..].to_string()).filter(|a| !a.is_empty())),
        a => (false, a),
    };
    let skip_page = s.empty_pages && v2 && !seen_empty && hash_bytes(s.page_size as u64, after.as_deref().unwrap_or("").as_bytes()) % 2 == 0;
    let mut keys: Vec<(u64, &String)> = s.objects.keys().filter(|k| k.starts_with(prefix)).map(|k| (order(k), k)).collect();
    keys.sort();
    let after = after.map(|a| (order(&a), a));
    let mut contents = vec![];
    let mut prefixes: Vec<String> = vec![];
    let mut last = String::new();
    let mut truncated = false;
    for (h, k) in keys {
        if let Some((ah, a)) = &after {
            if (h, k) <= (*ah, a) {
                continue;
            }
            // a page ended within a group
            if let Some(d) = delim {
                if let Some(i) = k[prefix.len()..].find(d) {
                    if a.starts_with(&k[..prefix.len() + i + d.len()]) {
                        continue;
                    }
                }
            }
        }
        let group = delim.and_then(|d| k[prefix.len()..].find(d).map(|i| k[..prefix.len() + i + d.len()].to_string()));
        if let Some(g) = &group {
            if prefixes.contains(g) {
                last = k.clone();
                continue;
            }
        }
        if skip_page {
            last = format!("\u{1}{}", after.as_ref().map_or("", |a| &a.1[..]));
            truncated = true;
            break;
        }
        if contents.len() + prefixes.len() >= max {
            truncated = true;
            break;
        }
        last = k.clone();
        match group {
            Some(g) => prefixes.push(g),
            None => contents.push(k.clone()),
        }
    }
    let mut b = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ListBucketResult xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">");
    b += &format!("<Name>{}</Name><Prefix>{}</Prefix><MaxKeys>{}</MaxKeys>", BUCKET, xml(prefix), max);
    b += &format!("<IsTruncated>{}</IsTruncated>", truncated);
    if v2 {
        b += &format!("<KeyCount>{}</KeyCount>", contents.len() + prefixes.len());
    }
    if truncated {
        if v2 {
            b += &format!("<NextContinuationToken>{}</NextContinuationToken>", base64::encode(&last));
        } else {
            b += &format!("<NextMarker>{}</NextMarker>", xml(&last));
        }
    }
    for k in &contents {
        let o = &s.objects[k];
        b += &format!(
            "<Contents><Key>{}</Key><LastModified>2020-06-29T12:00:00.000Z</LastModified><ETag>{}</ETag><Size>{}</Size><StorageClass>STANDARD</StorageClass></Contents>",
            xml(k),
            xml(&o.etag),
            o.size()
        );
    }
    for p in &prefixes {
        b += &format!("<CommonPrefixes><Prefix>{}</Prefix></CommonPrefixes>", xml(p));
    }
    b += "</ListBucketResult>";
    ok(vec![("content-type".into(), "application/xml".into())], b.into_bytes())
}

fn get(s: &S3Server, r: &Req, head: bool) -> Resp {
    let key = r.key.clone().unwrap_or_default();
    match s.objects.get(&key) {
        None => error(404, "NoSuchKey"),
        Some(o) => {
            let mut from = 0usize;
            let mut to = o.data.len();
            let mut partial = false;
            if let Some(rg) = r.headers.get("range").and_then(|h| h.strip_prefix("bytes=")) {
                let mut it = rg.splitn(2, '-');
                let a = it.next().unwrap_or("");
                let b = it.next().unwrap_or("");
                match (a.parse::<usize>(), b.parse::<usize>()) {
                    (Ok(a), Ok(b)) => {
                        from = a.min(to);
                        to = (b + 1).min(to);
                        partial = true;
                    }
                    (Ok(a), _) => {
                        from = a.min(to);
                        partial = true;
                    }
                    (_, Ok(n)) => {
                        from = to - n.min(to);
                        partial = true;
                    }
                    _ => {}
                }
            }
            let body = o.data[from..to.max(from)].to_vec();
            let mut x = ok(
                vec![
                    ("content-length".into(), body.len().to_string()),
                    ("etag".into(), o.etag.clone()),
                    ("content-type".into(), "application/octet-stream".into()),
                ],
                if head { vec![] } else { body },
            );
            if partial {
                x.status = 206;
            }
            if let Some(n) = o.giant {
                x.headers[0].1 = n.to_string();
                x.cut = Some((x.body.len(), true));
            }
            x.key = Some(key);
            x
        }
    }
}

fn put(k: &mut Kernel, p: usize, r: &Req) -> Resp {
    let key = r.key.clone().unwrap_or_default();
    if let Some(sum) = r.headers.get("content-md5") {
        match base64::decode(sum) {
            Ok(d) if d.len() == 16 => {
                if d[..] != md5::compute(&r.body)[..] {
                    return error(400, "BadDigest");
                }
            }
            _ => return error(400, "InvalidDigest"),
        }
    }
    if let Some(l) = r.headers.get("content-length").and_then(|l| l.parse::<usize>().ok()) {
        if l != r.body.len() {
            return error(400, "IncompleteBody");
        }
    }
    if r.headers.get("if-none-match").map(|x| x == "*").unwrap_or(false) && k.s3.objects.contains_key(&key) {
        return error(412, "PreconditionFailed");
    }
    k.procs[p].remote_puts.push(key.clone());
    k.s3.store(&key, r.body.clone());
    let etag = k.s3.objects[&key].etag.clone();
    ok(vec![("etag".into(), etag)], vec![])
}

fn handle(k: &mut Kernel, p: usize, r: &Req) -> Resp {
    let what = match (&r.method[..], &r.key) {
        ("GET", None) => "list",
        ("GET", _) => "get",
        ("HEAD", _) => "head",
        ("PUT", _) => "put",
        ("DELETE", _) => "delete",
        _ => "other",
    };
    *k.s3.requests.entry(what.to_string()).or_default() += 1;
    match what {
        "list" => list(&k.s3, r),
        "get" => {
            let x = get(&k.s3, r, false);
            if let Some((key, n)) = x.key.clone().and_then(|key| k.s3.objects[&key].giant.map(|n| (key, n))) {
                *k.procs[p].fetched.entry(key).or_default() += n;
            }
            x
        }
        "head" => get(&k.s3, r, true),
        "put" if r.headers.contains_key("x-amz-copy-source") => {
            let src = r.headers["x-amz-copy-source"].trim_start_matches('/').to_string();
            let src = src.strip_prefix(&format!("{}/", BUCKET)).unwrap_or(&src).to_string();
            match k.s3.objects.get(&src).map(|o| o.data.to_vec()) {
                Some(d) => {
                    let key = r.key.clone().unwrap_or_default();
                    k.procs[p].remote_puts.push(key.clone());
                    k.s3.store(&key, d);
                    ok(vec![], b"<CopyObjectResult></CopyObjectResult>".to_vec())
                }
                None => error(404, "NoSuchKey"),
            }
        }
        "put" => put(k, p, r),
        "delete" => {
            let key = r.key.clone().unwrap_or_default();
            k.s3.objects.remove(&key);
            k.s3.changes += 1;
            Resp { status: 204, ..ok(vec![], vec![]) }
        }
        _ => error(405, "MethodNotAllowed"),
    }
}

/// Carries out one request, with whatever goes wrong with it.
fn serve(k: &mut Kernel, p: usize, mut r: Req, d: &Decision) -> Result<Resp, i32> {
    let fault = match d {
        Decision::Net(f) => Some(f.clone()),
        _ => None,
    };
    let broken = Err(libc::ECONNRESET);
    match &fault {
        Some(NetFault::DropRequest) => return broken,
        Some(NetFault::Status(c)) => {
            let code = match c {
                403 => "AccessDenied",
                404 => "NoSuchKey",
                429 | 503 => "SlowDown",
                400 => "RequestTimeout",
                301 => "PermanentRedirect",
                307 => "TemporaryRedirect",
                409 => "OperationAborted",
                412 => "PreconditionFailed",
                413 => "EntityTooLarge",
                416 => "InvalidRange",
                _ => "InternalError",
            };
            return Ok(error(*c, code));
        }
        Some(NetFault::CorruptRequest(x)) if !r.body.is_empty() => {
            let i = *x as usize % r.body.len();
            r.body[i] ^= 1 << (x % 7);
        }
        Some(NetFault::TruncateRequest(x)) if !r.body.is_empty() => {
            // the connection broke off while sending: the service discards it
            let _ = x;
            return broken;
        }
        Some(NetFault::Duplicate) => {
            let _ = handle(k, p, &r);
        }
        _ => {}
    }
    let mut x = handle(k, p, &r);
    let unchecked = k.s3.unchecked(&x.key);
    match &fault {
        Some(NetFault::CorruptResponse(_) | NetFault::WrongBody | NetFault::StripEtag(_)) if unchecked => {}
        Some(NetFault::DropResponse) => return broken,
        Some(NetFault::CorruptResponse(n)) if !x.body.is_empty() && x.status < 300 => {
            let i = *n as usize % x.body.len();
            if x.key.is_some() {
                x.body[i] ^= 1 << (n % 7);
            } else {
                // (listings carry no checksum; transport errors show)
                x.cut = Some((i, true));
            }
        }
        Some(NetFault::StripEtag(n)) if x.key.is_some() && x.status < 300 => {
            x.headers.retain(|(h, _)| h != "etag");
            if !x.body.is_empty() {
                let i = *n as usize % x.body.len();
                x.body[i] ^= 1 << (n % 7);
            }
        }
        Some(NetFault::NoToken) if !x.body.is_empty() && x.key.is_none() => {
            let t = String::from_utf8_lossy(&x.body).to_string();
            if let (Some(a), Some(b)) = (t.find("<NextContinuationToken>"), t.find("</NextContinuationToken>")) {
                x.body = format!("{}{}", &t[..a], &t[b + "</NextContinuationToken>".len()..]).into_bytes();
            }
        }
        Some(NetFault::Truncate(n)) if !x.body.is_empty() => {
            x.cut = Some((*n as usize % x.body.len(), true));
        }
        Some(NetFault::TruncateSilently(n)) if !x.body.is_empty() => {
            if x.key.is_some() && !unchecked {
                x.cut = Some((*n as usize % x.body.len(), false));
            } else {
                x.cut = Some((*n as usize % x.body.len(), true));
            }
        }
        Some(NetFault::WrongBody) if x.key.is_some() && x.status < 300 => {
            let mine = x.key.clone().unwrap();
            let other: Vec<Arc<Vec<u8>>> =
                k.s3.objects.iter().filter(|(n, o)| **n != mine && *o.data != x.body).map(|(_, o)| o.data.clone()).collect();
            if !other.is_empty() {
                x.body = other[k.rng.below(other.len())].to_vec();
            }
        }
        Some(NetFault::Delay(n)) => x.polls = *n,
        _ => {}
    }
    Ok(x)
}

/// Pending for a number of polls, waking itself each time.
struct Slow(u32);
impl Future for Slow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// How many polls until something arrives; time passes meanwhile.
fn latency(p: usize) -> u32 {
    quick(p, |k, _| {
        if k.s3.latency == 0 {
            return 0;
        }
        let n = k.net_rng.below(k.s3.latency as usize + 1) as u32;
        let t = n as i64 * 3_000_000;
        k.mono_ns += t;
        k.real_ns += t;
        n
    })
}

struct Dispatcher;

async fn dispatch(p: usize, req: SignedRequest) -> Result<HttpResponse, HttpDispatchError> {
    let body = match req.payload {
        None => vec![],
        Some(SignedRequestPayload::Buffer(b)) => b.to_vec(),
        Some(SignedRequestPayload::Stream(mut s)) => {
            let mut v = vec![];
            while let Some(c) = s.next().await {
                v.extend_from_slice(&c.map_err(|e| HttpDispatchError::new(format!("request body: {}", e)))?);
            }
            v
        }
    };
    let rest = req.path.strip_prefix(&format!("/{}", BUCKET)).unwrap_or("").to_string();
    let key = rest.strip_prefix('/').filter(|k| !k.is_empty()).map(String::from);
    let headers = req
        .headers
        .iter()
        .map(|(n, v)| (n.to_ascii_lowercase(), v.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    let r = Req { method: req.method.clone(), key, params: req.params.clone(), headers, body };
    let class = match (&r.method[..], &r.key) {
        ("GET", None) => Class::NetList,
        ("GET", _) => Class::NetGet,
        ("PUT", _) => Class::NetPut,
        _ => Class::NetOther,
    };
    Slow(latency(p)).await;
    let path = format!("s3:{} {}", r.method, r.key.as_deref().unwrap_or("?list"));
    let got = op(p, class, path.as_bytes(), |k, p, d| serve(k, p, r, d));
    Slow(latency(p)).await;
    let mut x = got.map_err(|e| {
        let text = match quick(p, |k, _| k.net_rng.below(5)) {
            0 => "operation timed out",
            1 => "error trying to connect: dns error: failed to lookup address information",
            2 => "connection closed before message completed",
            3 => "request has been canceled",
            _ => "error trying to connect: connection reset by peer",
        };
        HttpDispatchError::new(format!("{} ({})", text, e))
    })?;
    Slow(std::mem::take(&mut x.polls)).await;
    let mut h: HeaderMap<String> = HeaderMap::default();
    for (n, v) in &x.headers {
        h.insert(http::header::HeaderName::from_bytes(n.as_bytes()).expect("header"), v.clone());
    }
    let chunk = quick(p, |k, _| k.s3.chunk);
    let mut parts: Vec<Result<bytes::Bytes, ()>> = vec![];
    let end = x.cut.map_or(x.body.len(), |c| c.0);
    for c in x.body[..end].chunks(chunk.max(1)) {
        parts.push(Ok(bytes::Bytes::copy_from_slice(c)));
    }
    if matches!(x.cut, Some((_, true))) {
        parts.push(Err(()));
    }
    let key = x.key.clone();
    let body = stream::iter(parts).then(move |c| {
        let key = key.clone();
        async move {
            Slow(latency(p)).await;
            let n = c.as_ref().map_or(0, |b| b.len()) as u64;
            let path = format!("s3:recv {}", key.as_deref().unwrap_or(""));
            let r = op(p, Class::NetOther, path.as_bytes(), |k, p, d| {
                if let Some(key) = &key {
                    *k.procs[p].fetched.entry(key.clone()).or_default() += n;
                }
                match d {
                    Decision::Net(NetFault::Delay(_)) | Decision::Net(NetFault::Duplicate) => Ok(()),
                    Decision::Net(_) => Err(libc::ECONNRESET),
                    _ => Ok(()),
                }
            });
            match (r, c) {
                (Ok(()), Ok(b)) => Ok(b),
                _ => Err(std::io::Error::new(std::io::ErrorKind::Other, "error reading a body from connection: connection reset")),
            }
        }
    });
    Ok(HttpResponse {
        status: StatusCode::from_u16(x.status).expect("status"),
        body: ByteStream::new(body),
        headers: h,
    })
}

impl DispatchSignedRequest for Dispatcher {
    fn dispatch(&self, request: SignedRequest, _timeout: Option<Duration>) -> DispatchSignedRequestFuture {
        match kernel::sim() {
            Some(p) => Box::pin(dispatch(p, request)),
            None => Box::pin(async { Err(HttpDispatchError::new("not simulated".into())) }),
        }
    }
}

pub fn provider() -> Option<Client> {
    kernel::sim()?;
    Some(Client::new_with(StaticProvider::new_minimal("sim".into(), "sim".into()), Dispatcher))
}
