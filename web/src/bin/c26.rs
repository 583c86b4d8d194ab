//! C26: Rocket and Axum extraction accepts exactly what direct validation accepts.
use axum::Router;
use axum::body::Body;
use axum::extract::{FromRequest, FromRequestParts, Path, Request as AxRequest};
use axum::http::StatusCode;
use axum::http::request::Parts;
use axum::response::IntoResponse;
use rocket::data::{Data, FromData};
use rocket::form::{Errors, Form, FromForm, FromFormField};
use rocket::http::{ContentType, Method};
use rocket::local::blocking::Client;
use rocket::request::{FromParam, Request};
use rocket::route::{Handler, Outcome, Route};
use serde::Deserialize;
use serde::de::DeserializeOwned;
use std::cell::Cell;
use std::fmt::{Debug, Display};
use std::marker::PhantomData;
use tower::ServiceExt;
use validators::errors::*;
use validators::prelude::*;
use vf::offer;
use vf::*;
use vh::data::*;

fn line<T: Debug, E: Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("ok {}", shown(&v)),
        Err(e) => format!("err {e:?}"),
    }
}

// ---------- Rocket ----------

#[derive(FromForm)]
struct One<T> {
    v: T,
}

/// no value at all: the field's default decides
#[derive(FromForm)]
struct Named<'r, T> {
    other: Option<&'r str>,
    v: T,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Param,
    Query,
    QueryCap,
    QueryField,
    Form,
    FormCap,
    FormStd,
    FormTwo,
}
const MODES: [(Mode, &str); 8] =
    [(Mode::Param, "p"), (Mode::Query, "q"), (Mode::QueryCap, "qc"), (Mode::QueryField, "qf"), (Mode::Form, "f"), (Mode::FormCap, "fc"), (Mode::FormStd, "fs"), (Mode::FormTwo, "ft")];

struct H<T, E>(Mode, PhantomData<fn() -> (T, E)>);
impl<T, E> Clone for H<T, E> {
    fn clone(&self) -> Self {
        H(self.0, PhantomData)
    }
}

async fn form<'r, F: FromForm<'r> + 'r>(req: &'r Request<'_>, data: Data<'r>) -> Result<F, String> {
    match Form::<F>::from_data(req, data).await {
        rocket::outcome::Outcome::Success(f) => Ok(f.into_inner()),
        rocket::outcome::Outcome::Error((s, e)) => Err(format!("{} {}", s.code, e)),
        rocket::outcome::Outcome::Forward((_, s)) => Err(format!("forward {}", s.code)),
    }
}

#[rocket::async_trait]
impl<T, E> Handler for H<T, E>
where
    T: for<'r> FromParam<'r, Error = E> + for<'r> FromFormField<'r> + Debug + Send + Sync + 'static,
    E: Debug + Send + Sync + 'static,
{
    async fn handle<'r>(&self, req: &'r Request<'_>, data: Data<'r>) -> Outcome<'r> {
        fn rej<T: Debug>(r: Result<T, String>) -> String {
            match r {
                Ok(v) => format!("ok {}", shown(&v)),
                Err(e) => format!("rejected {e}"),
            }
        }
        fn errs(e: Errors<'_>) -> String {
            format!("{} {}", e.status().code, e)
        }
        let s = match self.0 {
            Mode::Param => match req.param::<T>(2) {
                Some(r) => line(r),
                None => "missing".into(),
            },
            Mode::Query => match req.query_value::<T>("v") {
                Some(r) => rej(r.map_err(errs)),
                None => "missing".into(),
            },
            Mode::QueryCap => match req.query_value::<validators::Result<T, E>>("v") {
                Some(Ok(r)) => line(r.into_std_result()),
                Some(Err(e)) => rej::<T>(Err(errs(e))),
                None => "missing".into(),
            },
            Mode::QueryField => match req.query_value::<Option<T>>("v") {
                Some(Ok(Some(r))) => format!("ok {}", shown(&r)),
                Some(Ok(None)) => "rejected".into(),
                Some(Err(e)) => rej::<T>(Err(errs(e))),
                None => "missing".into(),
            },
            Mode::Form => rej(form::<One<T>>(req, data).await.map(|o| o.v)),
            Mode::FormCap => match form::<One<validators::Result<T, E>>>(req, data).await {
                Ok(o) => line(o.v.into_std_result()),
                Err(e) => format!("rejected {e}"),
            },
            Mode::FormStd => match form::<One<Result<T, Errors<'_>>>>(req, data).await {
                Ok(o) => rej(o.v.map_err(errs)),
                Err(e) => format!("rejected {e}"),
            },
            Mode::FormTwo => match form::<Named<'_, T>>(req, data).await {
                Ok(o) if o.other == Some("x y") => format!("ok {}", shown(&o.v)),
                Ok(o) => format!("other field {:?}", o.other),
                Err(e) => format!("rejected {e}"),
            },
        };
        Outcome::from(req, s)
    }
}

fn rocket_routes<T, E>(i: usize) -> Vec<Route>
where
    T: for<'r> FromParam<'r, Error = E> + for<'r> FromFormField<'r> + Debug + Send + Sync + 'static,
    E: Debug + Send + Sync + 'static,
{
    MODES
        .iter()
        .map(|(m, n)| {
            let method = if n.starts_with('f') { Method::Post } else { Method::Get };
            let path = if *m == Mode::Param { format!("/{i}/p/<v>") } else { format!("/{i}/{n}") };
            Route::new(method, &path, H::<T, E>(*m, PhantomData))
        })
        .collect()
}

// ---------- Axum ----------

#[derive(Deserialize)]
#[serde(bound(deserialize = "T: Deserialize<'de>"))]
struct Q<T> {
    v: T,
}

/// stand-ins for axum's Query, Form and Json, which cannot be built here: they do what those do
struct Query<T>(T);
struct FormBody<T>(T);
struct JsonBody<T>(T);

fn pairs<T: DeserializeOwned>(b: &[u8]) -> Result<T, (StatusCode, String)> {
    T::deserialize(serde::de::value::MapDeserializer::<_, serde::de::value::Error>::new(form_urlencoded::parse(b))).map_err(|e| (StatusCode::BAD_REQUEST, e.to_string()))
}

impl<S: Send + Sync, T: DeserializeOwned> FromRequestParts<S> for Query<T> {
    type Rejection = (StatusCode, String);
    async fn from_request_parts(p: &mut Parts, _: &S) -> Result<Self, Self::Rejection> {
        pairs(p.uri.query().unwrap_or("").as_bytes()).map(Query)
    }
}
impl<S: Send + Sync, T: DeserializeOwned> FromRequest<S> for FormBody<T> {
    type Rejection = (StatusCode, String);
    async fn from_request(r: AxRequest, s: &S) -> Result<Self, Self::Rejection> {
        let b = axum::body::Bytes::from_request(r, s).await.map_err(|e| (StatusCode::BAD_REQUEST, e.to_string()))?;
        pairs(&b).map(FormBody)
    }
}
impl<S: Send + Sync, T: DeserializeOwned> FromRequest<S> for JsonBody<T> {
    type Rejection = (StatusCode, String);
    async fn from_request(r: AxRequest, s: &S) -> Result<Self, Self::Rejection> {
        let b = axum::body::Bytes::from_request(r, s).await.map_err(|e| (StatusCode::BAD_REQUEST, e.to_string()))?;
        serde_json::from_slice(&b).map(JsonBody).map_err(|e| (StatusCode::UNPROCESSABLE_ENTITY, e.to_string()))
    }
}

const AX: [&str; 12] = ["p", "pt", "ps", "pc", "ptc", "q", "qc", "f", "fc", "j", "jc", "e"];

fn axum_routes<T, E>(i: usize, r: Router) -> Router
where
    T: DeserializeOwned + ValidateString<Error = E> + Debug + Send + 'static,
    E: IntoResponse + Debug + Send + 'static,
    validators::Result<T, E>: DeserializeOwned,
{
    use axum::routing::{get, post};
    type C<T, E> = validators::Result<T, E>;
    fn ok<T: Debug>(v: T) -> String {
        format!("ok {}", shown(&v))
    }
    fn cap<T: Debug, E: Debug>(v: C<T, E>) -> String {
        line(v.into_std_result())
    }
    r.route(&format!("/{i}/p/{{v}}"), get(async |Path(v): Path<T>| ok(v)))
        .route(&format!("/{i}/pt/{{x}}/{{v}}"), get(async |Path((_, v)): Path<(String, T)>| ok(v)))
        .route(&format!("/{i}/ps/{{v}}"), get(async |Path(v): Path<Q<T>>| ok(v.v)))
        .route(&format!("/{i}/pc/{{v}}"), get(async |Path(v): Path<C<T, E>>| cap(v)))
        .route(&format!("/{i}/ptc/{{x}}/{{v}}"), get(async |Path((_, v)): Path<(String, C<T, E>)>| cap(v)))
        .route(&format!("/{i}/q"), get(async |Query(v): Query<Q<T>>| ok(v.v)))
        .route(&format!("/{i}/qc"), get(async |Query(v): Query<Q<C<T, E>>>| cap(v.v)))
        .route(&format!("/{i}/f"), post(async |FormBody(v): FormBody<Q<T>>| ok(v.v)))
        .route(&format!("/{i}/fc"), post(async |FormBody(v): FormBody<Q<C<T, E>>>| cap(v.v)))
        .route(&format!("/{i}/j"), post(async |JsonBody(v): JsonBody<Q<T>>| ok(v.v)))
        .route(&format!("/{i}/jc"), post(async |JsonBody(v): JsonBody<Q<C<T, E>>>| cap(v.v)))
        .route(
            &format!("/{i}/e/{{v}}"),
            get(async |Path(s): Path<String>| -> Result<String, E> { T::parse_str(s).map(|v| format!("ok {}", shown(&v))) }),
        )
}

// ---------- the set ----------

struct Web {
    few: usize,
    rocket: fn(usize) -> Vec<Route>,
    axum: fn(usize, Router) -> Router,
    /// direct validation of the text: Debug of the value, or Debug and Display of the error
    direct: fn(&str) -> Result<String, (String, String)>,
}

fn direct<T: ValidateString + Debug>(s: &str) -> Result<String, (String, String)>
where
    T::Error: Debug + Display,
{
    T::parse_str(s).map(|v| shown(&v)).map_err(|e| (format!("{e:?}"), e.to_string()))
}

macro_rules! web {
    ($([$n:ident, $e:ty, $kind:ident, $canon:ident, $bin:ident] $v:ident $attr:tt => $body:tt)*) => {
        static ALL: &[Option<Web>] = &[$(web!(@one $kind $n, $e),)*];
    };
    (@one Len $n:ident, $e:ty) => { None };
    (@one $kind:ident $n:ident, $e:ty) => { Some(Web { few: 0, rocket: rocket_routes::<ty::$n, $e>, axum: axum_routes::<ty::$n, $e>, direct: direct::<ty::$n> }) };
}
vf::few_rows!(web);

static WEB: std::sync::LazyLock<Vec<Web>> = std::sync::LazyLock::new(|| {
    assert_eq!(ALL.len(), FEW.len());
    ALL.iter().enumerate().filter_map(|(i, w)| w.as_ref().map(|w| Web { few: i, rocket: w.rocket, axum: w.axum, direct: w.direct })).collect()
});

struct Servers {
    rocket: Client,
    axum: Router,
    rt: tokio::runtime::Runtime,
}

struct Quiet;
impl log::Log for Quiet {
    fn enabled(&self, _: &log::Metadata) -> bool {
        false
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}

thread_local! {
    /// leaked: the Rocket client's runtime must not be dropped while a thread ends
    static SERVERS: Cell<Option<&'static Servers>> = const { Cell::new(None) };
}

fn with<R>(f: impl FnOnce(&Servers) -> R) -> R {
    let s = SERVERS.get().unwrap_or_else(|| {
        // Rocket logs every request unless another logger is there first
        let _ = log::set_boxed_logger(Box::new(Quiet));
        let cfg = rocket::Config { log_level: rocket::config::LogLevel::Off, workers: 1, max_blocking: 1, ..rocket::Config::debug_default() };
        let mut r = rocket::custom(cfg);
        let mut a = Router::new();
        for (i, w) in WEB.iter().enumerate() {
            r = r.mount("/", (w.rocket)(i));
            a = (w.axum)(i, a);
        }
        let s: &'static Servers = Box::leak(Box::new(Servers {
            rocket: Client::untracked(r).expect("HARNESS: rocket"),
            axum: a,
            rt: tokio::runtime::Builder::new_current_thread().build().expect("HARNESS: runtime"),
        }));
        SERVERS.set(Some(s));
        s
    });
    f(s)
}

/// percent-encodes at least what must be; `all` encodes everything
fn enc(s: &str, all: bool, plus: bool) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if !all && (b.is_ascii_alphanumeric() || b"-_~".contains(&b)) {
            o.push(b as char);
        } else if b == b' ' && plus {
            o.push('+');
        } else {
            o += &format!("%{b:02X}");
        }
    }
    o
}

struct C26;

impl C26 {
    fn rocket(&self, i: usize, s: &str, how: usize) -> Result<(), String> {
        let want = (WEB[i].direct)(s);
        let all = how & 1 == 1;
        for (m, n) in MODES {
            let plus = how & 2 == 2;
            let got = with(|w| {
                let r = match m {
                    Mode::Param if s.is_empty() => return None,
                    Mode::Param => w.rocket.get(format!("/{i}/p/{}", enc(s, all, false))).dispatch(),
                    Mode::Query | Mode::QueryCap | Mode::QueryField => w.rocket.get(format!("/{i}/{n}?a=1&v={}", enc(s, all, plus))).dispatch(),
                    Mode::FormTwo => w.rocket.post(format!("/{i}/{n}")).header(ContentType::Form).body(format!("other=x+y&v={}&z=1", enc(s, all, plus))).dispatch(),
                    _ => w.rocket.post(format!("/{i}/{n}")).header(ContentType::Form).body(format!("v={}", enc(s, all, plus))).dispatch(),
                };
                Some((r.status().code, r.into_string().unwrap_or_default()))
            });
            let Some((code, got)) = got else { continue };
            let cap = matches!(m, Mode::Param | Mode::QueryCap | Mode::FormCap);
            let good = match &want {
                Ok(v) => code == 200 && got == format!("ok {v}"),
                Err((d, _)) if cap => code == 200 && got == format!("err {d}"),
                Err(_) if m == Mode::QueryField => got == "rejected",
                Err((_, msg)) => code == 200 && got.starts_with("rejected 422") && got.contains(msg.as_str()),
            };
            if !good {
                return Err(format!("Rocket {n}: {s:?} answers {code} {got:?}, direct validation gives {want:?}"));
            }
        }
        Ok(())
    }

    fn axum(&self, i: usize, s: &str, how: usize) -> Result<(), String> {
        let all = how & 1 == 1;
        let plus = how & 2 == 2;
        let text = (WEB[i].direct)(s);
        // deserialisation reads a JSON validator's text as a JSON string
        let data = match (FEW[WEB[i].few].direct)(&D::Str(s.into()), true) {
            Dir::Out(Out::Ok(f)) => Ok(f[0].1.clone()),
            Dir::Out(Out::Err(e)) => Err(e),
            o => return Err(format!("{o:?}")),
        };
        for n in AX {
            if s.is_empty() && (n.starts_with('p') || n == "e") {
                continue;
            }
            let (uri, body) = match n {
                "p" | "ps" | "pc" | "e" => (format!("/{i}/{n}/{}", enc(s, all, false)), None),
                "pt" | "ptc" => (format!("/{i}/{n}/zz/{}", enc(s, all, false)), None),
                "q" | "qc" => (format!("/{i}/{n}?a=1&v={}", enc(s, all, plus)), None),
                "f" | "fc" => (format!("/{i}/{n}"), Some(format!("a=1&v={}", enc(s, all, plus)))),
                _ => (format!("/{i}/{n}"), Some(serde_json::json!({ "v": s }).to_string())),
            };
            let req = AxRequest::builder().uri(uri).method(if body.is_some() { "POST" } else { "GET" }).body(Body::from(body.unwrap_or_default())).expect("HARNESS: request");
            let (code, got) = with(|w| {
                w.rt.block_on(async {
                    let r = w.axum.clone().oneshot(req).await.expect("HARNESS: infallible");
                    let code = r.status().as_u16();
                    let b = axum::body::to_bytes(r.into_body(), 1 << 24).await.expect("HARNESS: body");
                    (code, String::from_utf8_lossy(&b).into_owned())
                })
            });
            let good = if n == "e" {
                match &text {
                    Ok(v) => code == 200 && got == format!("ok {v}"),
                    Err((_, msg)) => code == 400 && got == *msg,
                }
            } else if n.ends_with('c') {
                code == 200 && got == match &data { Ok(v) => format!("ok {v}"), Err(e) => format!("err {e}") }
            } else {
                match &data {
                    Ok(v) => code == 200 && got == format!("ok {v}"),
                    Err(_) => code >= 400 && code < 500,
                }
            };
            if !good {
                return Err(format!("Axum {n}: {s:?} answers {code} {got:?}, direct validation gives {:?}", if n == "e" { format!("{text:?}") } else { format!("{data:?}") }));
            }
        }
        Ok(())
    }
}

impl Property for C26 {
    fn scale(&self) -> usize {
        3
    }
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> String {
        "real requests: each text, percent-encoded fully or where needed, dispatched to a Rocket application as a path segment, as a query value (plain, capturing, optional) and as a form field (plain, capturing, with collected errors, among other fields), and to an Axum application as a path segment (alone, in a tuple, in a struct, capturing), query, form and JSON body, and to a handler that returns the validation error. Non-trivial: the text is accepted, or is more than one character".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Rocket and Axum decode requests correctly".into(), "axum's Query, Form and Json extractors need crates missing here; stand-ins feed the same pairs and JSON to serde".into()]
    }
    fn cfg_names(&self) -> Vec<String> {
        WEB.iter().map(|w| FEW[w.few].name.to_string()).collect()
    }
    fn generate(&self, plan: &Plan, r: &mut Rng, emit: &mut dyn FnMut(usize, Input) -> bool) {
        for _ in 0..plan.n(150_000, 12_000_000) {
            let i = r.below(WEB.len());
            let w = &FEW[WEB[i].few];
            let mut s = offer::text(r, w.v, w.kind);
            if r.chance(1, 12) {
                s = genstr::mutate(r, &s, &[" ", "+", "%", "%20", "/", "?", "&", "=", "#", "é", "\u{0}", "\r\n"]);
            }
            let how = r.below(4) as u128;
            if !emit(i, Input::List(vec![Input::Str(s), Input::U(how)])) {
                return;
            }
        }
    }
    fn check(&self, cfg: usize, i: &Input, note: &mut Note) -> Result<(), String> {
        let Input::List(l) = i else { return Ok(()) };
        let [Input::Str(s), Input::U(how)] = &l[..] else { return Ok(()) };
        // the frameworks have limits of their own (8 KiB for a text in a form of Rocket's), also for what is escaped
        if s.len() > 2048 {
            return Ok(());
        }
        let ok = (WEB[cfg].direct)(s).is_ok();
        note.class = if ok { "accept" } else { "reject" };
        note.nontrivial = ok || s.len() > 1;
        note.evals = 20;
        self.rocket(cfg, s, *how as usize)?;
        self.axum(cfg, s, *how as usize)
    }
}

fn main() {
    vh::main(&C26)
}
