//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT http: a request's point is read from its whole body, and an answer leaves as it was given
// =====================================================================================
//@ gsubst Request < Body > => Request
//@ gsubst Response < Body > => Response
//@ gsubst String => Name
//@ gsubst L : Summary + Serialize => L
//@ gsubst Body::from => body_from
//@ gsubst http::response::Builder::new() => new_builder()
//@ gsubst CONTENT_TYPE => ContentType
broadcast use {fl::ax_mk, fl::ax_mk2};
pub enum GokoClientError { Underlying(InternalServiceError), MalformedQuery(&'static str), Http, Parse, MissingBody }
pub enum GokoError { PointCloudError, IndexNotInTree(usize) }
pub enum InternalServiceError { Other(GokoError), FailedSend, FailedRecv, FailedRespSend, DoubleRead, ClientDropped, Panicked }
pub open spec fn okr<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
#[verifier::external_body] pub struct Opaque { x: usize }
// ---------------------------------------------------------------- TRUSTED: hyper's body, as the events still to come
pub enum Event { Later, Data(Seq<u8>), Broken }
#[verifier::external_body] pub struct Body { x: usize }
#[verifier::external_body] pub struct Bytes { x: usize }
impl Bytes { pub uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct Context { x: usize }
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body] pub struct HttpError { x: usize }
impl HttpError { #[verifier::external_body] pub fn into(self) -> (r: GokoClientError) ensures r is Http { unimplemented!() } }
/// every chunk still to come, in order; None once the connection breaks
pub open spec fn rest(e: Seq<Event>) -> Option<Seq<u8>> decreases e.len() {
    if e.len() == 0 { Some(Seq::empty()) } else { match e[0] {
        Event::Later => rest(e.drop_first()),
        Event::Data(d) => match rest(e.drop_first()) { Some(t) => Some(d + t), None => None },
        Event::Broken => None,
    } }
}
pub proof fn lemma_rest(e: Seq<Event>, b: Seq<u8>) requires e.len() > 0
    ensures e[0] is Data && rest(e.drop_first()) is Some ==> b + rest(e)->0 == (b + e[0]->Data_0) + rest(e.drop_first())->0
{ if e[0] is Data && rest(e.drop_first()) is Some { assert(b + (e[0]->Data_0 + rest(e.drop_first())->0) =~= (b + e[0]->Data_0) + rest(e.drop_first())->0); } }
pub trait PushAll { fn vpush_all(&mut self, b: &Bytes); }
impl PushAll for Vec<u8> { #[verifier::external_body] fn vpush_all(&mut self, b: &Bytes) ensures final(self)@ == old(self)@ + b@ { unimplemented!() } }
impl Body {
    pub uninterp spec fn view(&self) -> Seq<Event>;
    #[verifier::external_body] pub fn poll_data(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<Bytes, HttpError>>>)
        ensures old(self)@.len() == 0 ==> r == Poll::<Option<Result<Bytes, HttpError>>>::Ready(None) && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> final(self)@ == old(self)@.drop_first() && match old(self)@[0] {
                Event::Later => r is Pending,
                Event::Data(d) => r is Ready && r->Ready_0 is Some && r->Ready_0->0 is Ok && r->Ready_0->0->Ok_0@ == d,
                Event::Broken => r is Ready && r->Ready_0 is Some && r->Ready_0->0 is Err },
    { unimplemented!() }
    #[verifier::external_body] pub fn poll_trailers(&mut self, cx: &mut Context) -> (r: Poll<Opaque>) ensures final(self)@ == old(self)@ { unimplemented!() }
    /// hyper answers `true` only when it knows that nothing more comes; it may never know
    #[verifier::external_body] pub fn is_end_stream(&self) -> (r: bool) ensures r ==> rest(self@) == Some(Seq::<u8>::empty()) { unimplemented!() }
}
// ---------------------------------------------------------------- the request: its headers and its body
#[verifier::external_body] pub struct Headers { x: usize }
pub struct ContentType;
#[verifier::external_body] pub struct HeaderValue { x: usize }
pub uninterp spec fn ctype(h: Headers) -> Option<HeaderValue>;
pub uninterp spec fn text(v: HeaderValue) -> Option<Seq<char>>;
#[verifier::external_body] pub struct Ill { x: usize }
impl Headers { #[verifier::external_body] pub fn get(&self, k: ContentType) -> (r: Option<&HeaderValue>) ensures (r is Some) == (ctype(*self) is Some), r is Some ==> *r->0 == ctype(*self)->0 { unimplemented!() } }
impl HeaderValue { #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, Ill>) ensures (r is Ok) == (text(*self) is Some), r is Ok ==> r->Ok_0@ == text(*self)->0 { unimplemented!() } }
pub struct Request { pub h: Headers, pub body: Body }
#[verifier::external_body] pub fn no_request() -> (r: Request) ensures r.body@.len() == 0 { unimplemented!() }
impl Request {
    pub fn headers(&self) -> (r: &Headers) ensures *r == self.h { &self.h }
    pub fn body_mut(&mut self) -> (r: &mut Body) ensures *r == old(self).body, final(self).h == old(self).h, final(self).body == *final(r) { &mut self.body }
}
pub trait PointParser: Sized {
    type Point;
    spec fn reads(bytes: Seq<u8>, h: Headers) -> Option<Self::Point>;
    fn parse(body_buffer: &Vec<u8>, scratch_buffer: &mut Vec<u8>, request: &Request) -> (res: Result<Self::Point, GokoClientError>)
        ensures okr(res) == Self::reads(body_buffer@, request.h);
}
#[verifier::external_body] #[verifier::reject_recursive_types(P)] pub struct PhantomData<P> { x: Option<P> }
//@ struct serve_goko/src/parsers/mod.rs PointBuffer
//@ attr #[verifier::reject_recursive_types(P)]
//@ end
impl<P: PointParser> PointBuffer<P> {
    /// what the body will have said once it is read: None if it breaks first
    pub open spec fn whole(&self) -> Option<Seq<u8>> { match rest(self.request.body@) { Some(t) => Some(self.body_buffer@ + t), None => None } }
    pub open spec fn blank(&self) -> bool { self.body_buffer@.len() == 0 && self.point_buffer@.len() == 0 && self.request.body@.len() == 0 }
//@ fn serve_goko/src/parsers/mod.rs PointBuffer::switch
//@ spec
    ensures final(self).whole() == rest(req.body@), final(self).request == req,
//@ finish
    assert(forall|t: Seq<u8>| #[trigger] (Seq::<u8>::empty() + t) == t);
    assert(self.body_buffer@ == Seq::<u8>::empty());
//@ end
//@ fn serve_goko/src/parsers/mod.rs PointBuffer::poll_point
//@ sig
    pub fn poll_point(&mut self, cx: &mut Context) -> (res: Poll<Result<P::Point, GokoClientError>>)
//@ subst let this = self . project () ; =>
//@ subst let mut body = this . request . body_mut () ; =>
//@ subst Pin :: new (& mut body) => self . request . body
//@ subst P :: parse (this . body_buffer, this . point_buffer, this . request) => P :: parse (& self . body_buffer, & mut self . point_buffer, & self . request)
//@ subst * this . request = Request :: default () => self . request = no_request ()
//@ subst this . => self .
//@ subst body . is_end_stream () => self . request . body . is_end_stream ()
//@ subst extend_from_slice (& new_bytes) => vpush_all (& new_bytes)
//@ start
    let ghost o = *self;
//@ loops 1
//@ loop 0
    invariant self.whole() == o.whole(), self.request.h == o.request.h,
    decreases self.request.body@.len()
//@ loopstart 0
    let ghost p = *self; proof { if p.request.body@.len() > 0 { lemma_rest(p.request.body@, p.body_buffer@); } else { assert(p.body_buffer@ + Seq::<u8>::empty() == p.body_buffer@); } }
//@ before#1 let point_res
    proof { assert(self.body_buffer@ + Seq::<u8>::empty() == self.body_buffer@); }
//@ spec
    ensures match res {
        Poll::Pending => final(self).whole() == old(self).whole() && final(self).request.h == old(self).request.h,
        Poll::Ready(r) => final(self).blank() && okr(r) == (match old(self).whole() { Some(b) => P::reads(b, old(self).request.h), None => None }),
    }
//@ end
}
// ---------------------------------------------------------------- the one body format: msgpack, possibly compressed
/// TRUSTED: flate2 and rmp_serde, as functions of the bytes
pub uninterp spec fn inflate(b: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn unzlib(b: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn unpack(b: Seq<u8>) -> Option<Vec<f32>>;
#[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct DeflateDecoder<R> { x: Option<R> }
#[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct ZlibDecoder<R> { x: Option<R> }
pub trait Raw { spec fn raw(&self) -> Seq<u8>; }
impl Raw for &Vec<u8> { open spec fn raw(&self) -> Seq<u8> { self@ } }
impl<R: Raw> DeflateDecoder<R> { pub uninterp spec fn of(&self) -> R; #[verifier::external_body] pub fn new(r: R) -> (d: Self) ensures d.of() == r { unimplemented!() } }
impl<R: Raw> ZlibDecoder<R> { pub uninterp spec fn of(&self) -> R; #[verifier::external_body] pub fn new(r: R) -> (d: Self) ensures d.of() == r { unimplemented!() } }
//@ struct serve_goko/src/parsers/msgpack_dense.rs Readers
//@ attr #[verifier::reject_recursive_types(R)]
//@ subst R : Read => R : Raw
//@ end
impl<R: Raw> Readers<R> {
    pub open spec fn content(&self) -> Option<Seq<u8>> { match self { Readers::Zlib(d) => inflate(d.of().raw()), Readers::Gzip(d) => unzlib(d.of().raw()), Readers::None(r) => Some(r.raw()) } }
    /// std's read_to_end over the variant's own reader
    #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize, Ill>) ensures (r is Ok) == (old(self).content() is Some), r is Ok ==> final(out)@ == old(out)@ + old(self).content()->0 { unimplemented!() }
}
impl GokoClientError {
    #[verifier::external_body] pub fn parse<E>(e: E) -> (r: GokoClientError) ensures r is Parse { unimplemented!() }
}
#[verifier::external_body] pub fn unpack_floats(b: &Vec<u8>) -> (r: Result<Vec<f32>, Ill>) ensures okr(r) == unpack(b@) { unimplemented!() }
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn io_error(kind: u8, what: &str) -> (r: Ill) { unimplemented!() }
pub open spec fn plain(bytes: Seq<u8>, h: Headers) -> Option<Seq<u8>> {
    match ctype(h) { None => Some(bytes), Some(v) => match text(v) {
        None => None,
        Some(t) => if t == "zlib"@ { inflate(bytes) } else if t == "gzip"@ { unzlib(bytes) } else { None },
    } }
}
pub open spec fn dense(bytes: Seq<u8>, h: Headers) -> Option<Vec<f32>> { match plain(bytes, h) { None => None, Some(b) => if b.len() == 0 { None } else { unpack(b) } } }
pub struct MsgPackDense {}
impl PointParser for MsgPackDense {
    type Point = Vec<f32>;
    open spec fn reads(bytes: Seq<u8>, h: Headers) -> Option<Vec<f32>> { dense(bytes, h) }
//@ fn serve_goko/src/parsers/msgpack_dense.rs MsgPackDense as PointParser::parse
//@ opt result_map
//@ opt nopub
//@ subst std :: io :: Error :: new => io_error
//@ subst std :: io :: ErrorKind :: Other => 0u8
//@ subst GokoClientError :: Parse => GokoClientError :: parse
//@ subst rmp_serde :: from_read_ref => unpack_floats
//@ sig
    fn parse(body_buffer: &Vec<u8>, scratch_buffer: &mut Vec<u8>, request: &Request) -> (res: Result<Self::Point, GokoClientError>)
//@ start
    proof { assert(forall|t: Seq<u8>| #[trigger] (Seq::<u8>::empty() + t) == t); }
//@ end
}
// ---------------------------------------------------------------- answers
/// TRUSTED: a string, read as a value
#[verifier::external_body] pub struct Name { x: usize }
#[verifier::external_body] pub struct ParametersResponse { x: usize }
#[verifier::external_body] pub struct KnnResponse { x: usize }
#[verifier::external_body] pub struct RoutingKnnResponse { x: usize }
#[verifier::external_body] #[verifier::reject_recursive_types(L)] pub struct PathResponse<L> { x: Option<L> }
#[verifier::external_body] pub struct TrackingResponse { x: usize }
//@ struct serve_goko/src/api/mod.rs GokoResponse
//@ subst L : Summary => L
//@ attr #[verifier::reject_recursive_types(L)]
//@ end
/// TRUSTED: serde_json: the text of a value
pub uninterp spec fn json<T>(t: T) -> Name;
#[verifier::external] impl core::fmt::Debug for Ill { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external_body] pub fn to_json<T>(t: &T) -> (r: Result<Name, Ill>) ensures r is Ok, r->Ok_0 == json(*t) { unimplemented!() }
pub struct Response { pub status: u16, pub text: Name }
pub struct Builder { pub status: u16 }
pub fn new_builder() -> (r: Builder) ensures r.status == 200 { Builder { status: 200 } }
pub fn body_from(t: Name) -> (r: Name) ensures r == t { t }
impl Builder {
    pub fn status(self, s: u16) -> (r: Builder) ensures r.status == s { Builder { status: s } }
    /// http's builder fails for anything that is not a three-digit status
    #[verifier::external_body] pub fn body(self, t: Name) -> (r: Result<Response, Ill>) ensures (r is Ok) == (100 <= self.status < 1000), r is Ok ==> r->Ok_0 == (Response { status: self.status, text: t }) { unimplemented!() }
}
pub open spec fn shown<L>(r: GokoResponse<L>) -> Response {
    match r {
        GokoResponse::Parameters(p) => Response { status: 200, text: json(p) },
        GokoResponse::Knn(p) => Response { status: 200, text: json(p) },
        GokoResponse::RoutingKnn(p) => Response { status: 200, text: json(p) },
        GokoResponse::Path(p) => Response { status: 200, text: json(p) },
        GokoResponse::Tracking(p) => Response { status: 200, text: json(p) },
        GokoResponse::Unknown(s, c) => Response { status: c, text: s },
    }
}
//@ fn serve_goko/src/http/service.rs into_http
//@ sig
    pub fn into_http<L>(response: GokoResponse<L>) -> (res: Result<Response, GokoClientError>)
//@ subst serde_json :: to_string => to_json
//@ spec
    requires response is Unknown ==> 100 <= response->Unknown_1 < 1000
    ensures okr(res) == Some(shown(response)),
//@ end
// ---------------------------------------------------------------- replies: each message is answered once, with what it is given
/// TRUSTED: tokio's oneshot channel
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { x: Option<T> }
pub uninterp spec fn delivered<T>(s: Sender<T>, v: T) -> bool;
impl<T> Sender<T> { #[verifier::external_body] pub fn send(self, v: T) -> (r: Result<(), T>) ensures delivered(self, v) { unimplemented!() } }
pub struct HttpMessage { pub request: Option<Request>, pub reply: Option<Sender<Result<Response, GokoClientError>>>, pub global_error: Opaque }
#[verifier::external_body] pub fn note<E>(e: E) { unimplemented!() }
impl HttpMessage {
//@ fn serve_goko/src/http/message.rs HttpMessage::request
//@ spec
    ensures res == old(self).request, final(self).request is None, final(self).reply == old(self).reply,
//@ end
//@ fn serve_goko/src/http/message.rs HttpMessage::respond
//@ subst * self . global_error . lock () . unwrap () = Some => note
//@ spec
    ensures old(self).reply is Some ==> delivered(old(self).reply->0, response), final(self).reply is None, final(self).request == old(self).request,
//@ end
}
// ---------------------------------------------------------------- the connection's worker: CONTRACTS of parse_http and CoreReader::process (proved in unit serve)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct GokoRequest<T> { x: Option<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(L)] #[verifier::reject_recursive_types(T)] pub struct CoreReader<L, T> { x: Option<(L, T)> }
pub uninterp spec fn routed<P: PointParser>(q: Request) -> Option<GokoRequest<P::Point>>;
pub uninterp spec fn answered<L, T>(a: CoreReader<L, T>, q: GokoRequest<T>, r: Option<GokoResponse<L>>, b: CoreReader<L, T>) -> bool;
#[verifier::external_body] pub fn parse_http<P: PointParser>(request: Request, parser: &mut PointBuffer<P>) -> (res: Result<GokoRequest<P::Point>, GokoClientError>) ensures okr(res) == routed::<P>(request) { unimplemented!() }
impl<L, T> CoreReader<L, T> {
    /// (unit serve, lemma_unknown: an Unknown answer to a routed request has status 404)
    #[verifier::external_body] pub fn process(&mut self, q: GokoRequest<T>) -> (r: Result<GokoResponse<L>, InternalServiceError>) ensures answered(*old(self), q, okr(r), *final(self)), r is Ok && r->Ok_0 is Unknown ==> r->Ok_0->Unknown_1 == 404 { unimplemented!() }
}
impl InternalServiceError { pub fn into(self) -> (r: GokoClientError) ensures r == GokoClientError::Underlying(self) { GokoClientError::Underlying(self) } }
/// a panic inside is caught: there is a result, or there is none
pub struct Caught<R> { pub r: R }
#[verifier::external_body] pub struct PanicPayload { x: usize }
impl<R> Caught<R> { #[verifier::external_body] pub fn catch_unwind(self) -> (r: Result<R, PanicPayload>) ensures r is Ok ==> r->Ok_0 == self.r { unimplemented!() } }
pub fn guarded<R>(r: R) -> (c: Caught<R>) ensures c.r == r { Caught { r } }
/// what a request may be answered with
pub open spec fn outcome<L, P: PointParser>(a: CoreReader<L, P::Point>, q: Request, r: Result<Response, GokoClientError>, b: CoreReader<L, P::Point>) -> bool {
    match routed::<P>(q) {
        Some(op) => r is Ok ==> exists|x: GokoResponse<L>| #[trigger] answered(a, op, Some(x), b) && r->Ok_0 == shown(x),
        None => b == a && (r is Ok ==> r->Ok_0.status == 404),
    }
}
pub struct Inbox { pub x: usize }
impl Inbox { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<HttpMessage>) { unimplemented!() } }
#[verifier::external_body] pub fn channel() -> (r: (Opaque, Inbox)) { unimplemented!() }
#[verifier::external_body] pub fn opaque() -> (r: Opaque) { unimplemented!() }
#[verifier::external_body] pub fn to_text(s: &str) -> (r: Name) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(L)] #[verifier::reject_recursive_types(P)] pub struct GokoHttp<L, P> { x: Option<(L, P)> }
#[verifier::external_body] pub fn connection<L, P>() -> (r: GokoHttp<L, P>) { unimplemented!() }
impl HttpMessage { #[verifier::external_body] pub fn error(&mut self, e: GokoClientError) ensures final(self).reply == old(self).reply { unimplemented!() } }
impl<L, P: PointParser> GokoHttp<L, P> {
//@ fn serve_goko/src/http/service.rs GokoHttp::new
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ opt result_map
//@ sig
    pub fn new(reader: CoreReader<L, P::Point>, parser: PointBuffer<P>) -> (res: GokoHttp<L, P>)
//@ subst HttpRequestSender => Opaque
//@ subst HttpRequestReciever => Inbox
//@ subst mpsc :: unbounded_channel () => channel ()
//@ subst AssertUnwindSafe => guarded
//@ subst s . to_string () => to_text (s)
//@ subst GokoHttp { in_flight, request_snd, pointcloud : PhantomData, parser : PhantomData, global_error, } => connection ()
//@ subst Arc :: new (Mutex :: new (None)) => opaque ()
//@ subst Arc :: new (atomic :: AtomicU32 :: new (0)) => opaque ()
//@ start
    let mut reader = reader; let mut parser = parser;
//@ loopstart 0
    let ghost a = reader; let ghost mut reply: Option<Sender<Result<Response, GokoClientError>>> = None; let ghost mut asked: Option<Request> = None;
//@ before#1 if let Some (hyper_request)
    proof { reply = msg.reply; asked = msg.request; }
//@ after#1 let response = match goko_request
    proof { assert(response is Ok && routed::<P>(asked->0) is Some ==> answered(a, routed::<P>(asked->0)->0, Some(response->Ok_0), reader)); assert(routed::<P>(asked->0) is None ==> a == reader); assert(routed::<P>(asked->0) is None ==> (response is Ok ==> response->Ok_0 is Unknown && response->Ok_0->Unknown_1 == 404)); }
//@ loopend 0
    proof { assert(reply is Some && asked is Some ==> exists|r: Result<Response, GokoClientError>| #[trigger] delivered(reply->0, r));  assert(reply is Some && asked is Some ==> exists|r: Result<Response, GokoClientError>| #[trigger] delivered(reply->0, r) && outcome::<L, P>(a, asked->0, r, reader)); }
//@ end
}
// ---------------------------------------------------------------- a tracker's worker
impl InternalServiceError { #[verifier::external_body] pub fn from(e: GokoError) -> (r: InternalServiceError) ensures r == InternalServiceError::Other(e) { unimplemented!() } }
#[verifier::reject_recursive_types(S)] pub struct Message<T, S> { pub request: Option<T>, pub reply: Option<Sender<Result<S, InternalServiceError>>>, pub global_error: Opaque }
pub open spec fn sent<S>(r: Result<S, GokoError>) -> Result<S, InternalServiceError> { match r { Ok(x) => Ok(x), Err(e) => Err(InternalServiceError::Other(e)) } }
impl<T, S> Message<T, S> {
    #[verifier::external_body] pub fn error(&mut self, e: InternalServiceError) ensures final(self).reply == old(self).reply { unimplemented!() }
//@ fn serve_goko/src/core/internal_service.rs Message::request
//@ spec
    ensures res == old(self).request, final(self).request is None, final(self).reply == old(self).reply,
//@ end
//@ fn serve_goko/src/core/internal_service.rs Message::respond
//@ opt result_map
//@ subst * self . global_error . lock () . unwrap () = Some => note
//@ spec
    ensures old(self).reply is Some ==> delivered(old(self).reply->0, sent(response)), final(self).reply is None, final(self).request == old(self).request,
//@ end
}
pub trait InternalService<T, S>: Sized {
    spec fn serves(a: Self, q: T, r: Option<S>, b: Self) -> bool;
    fn process(&mut self, request: T) -> (r: Result<S, GokoError>) ensures Self::serves(*old(self), request, okr(r), *final(self));
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(S)] pub struct Queue<T, S> { x: Option<(T, S)> }
impl<T, S> Queue<T, S> { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<Message<T, S>>) { unimplemented!() } }
#[verifier::external_body] pub fn queue<T, S>() -> (r: (Opaque, Queue<T, S>)) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(S)] pub struct InternalServiceOperator<T, S> { x: Option<(T, S)> }
#[verifier::external_body] pub fn operator<T, S>() -> (r: InternalServiceOperator<T, S>) { unimplemented!() }
#[verifier::external_body] pub fn attempt<R>(r: R) -> (c: Result<R, PanicPayload>) ensures c is Ok ==> c->Ok_0 == r { unimplemented!() }
impl<T, S> InternalServiceOperator<T, S> {
//@ fn serve_goko/src/core/internal_service.rs InternalServiceOperator::new
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sig
    pub fn new<P: InternalService<T, S>>(server: P) -> (res: InternalServiceOperator<T, S>)
//@ subst CoreRequestSender < T, S > => Opaque
//@ subst CoreRequestReciever < T, S > => Queue < T, S >
//@ subst mpsc :: unbounded_channel () => queue ()
//@ subst catch_unwind (AssertUnwindSafe (| | server . process (request))) => attempt (server . process (request))
//@ subst msg . error (InternalServiceError :: Panicked) => { proof { ended = true; } msg . error (InternalServiceError :: Panicked) }
//@ subst InternalServiceOperator { in_flight, request_snd, global_error, } => operator ()
//@ subst Arc :: new (Mutex :: new (None)) => opaque ()
//@ subst Arc :: new (atomic :: AtomicU32 :: new (0)) => opaque ()
//@ start
    let mut server = server;
//@ loopstart 0
    let ghost a = server; let ghost mut reply: Option<Sender<Result<S, InternalServiceError>>> = None; let ghost mut asked: Option<T> = None; let ghost mut ended = false;
//@ before#1 if let Some (request)
    proof { reply = msg.reply; asked = msg.request; }
//@ loopend 0
    proof { assert(reply is Some && asked is Some && !ended ==> exists|r: Result<S, GokoError>| #[trigger] delivered(reply->0, sent(r)) && P::serves(a, asked->0, okr(r), server)); }
//@ end
}
} // verus!
fn main() {}
