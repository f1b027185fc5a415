//! A network in memory: HTTP servers whose handlers are called directly, and
//! HTTP clients whose requests go wherever the harness wants. Everything that
//! passes is turned into text and back, as between machines.

use std::collections::HashMap;
use std::future::Future;
use std::net::{SocketAddr, ToSocketAddrs};
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};

use hyperborealib::http::client::Response;
use hyperborealib::prelude::*;
use serde_json::Value as Json;

pub type BoxFuture<T> = Pin<Box<dyn Future<Output = T> + Send>>;
type Answer = Result<Json, String>;
type Handler = Arc<dyn Fn(Option<Json>) -> BoxFuture<Answer> + Send + Sync>;

fn through_text(json: &Json) -> Json {
    serde_json::from_str(&json.to_string()).expect("JSON")
}

/// HTTP server that only keeps its routes, unless it's told to serve: then it's
/// the one of the library, and called through the client of the library.
#[derive(Clone, Default)]
pub struct Capture {
    routes: Arc<Mutex<HashMap<(&'static str, String), Handler>>>,
    real: Arc<Mutex<AxumHttpServer>>,
    remote: Arc<Mutex<Option<SocketAddr>>>
}

/// Runtime of requests through sockets: connections outlive the runtime of a request.
fn sockets() -> &'static (tokio::runtime::Runtime, ReqwestHttpClient) {
    static SOCKETS: OnceLock<(tokio::runtime::Runtime, ReqwestHttpClient)> = OnceLock::new();

    SOCKETS.get_or_init(|| {
        (tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap(), ReqwestHttpClient::default())
    })
}

/// A request of the library's client, an error unless there's an answer of success.
pub async fn through_socket(url: String, body: Option<Json>) -> Answer {
    let (runtime, client) = sockets();

    let answer = runtime.spawn(async move {
        tokio::time::timeout(std::time::Duration::from_secs(30), async {
            match body {
                Some(body) => client.post(&url, body).await,
                None => client.get(&url).await
            }.map_err(|err| err.to_string())
        }).await
    }).await;

    match answer {
        Ok(Ok(Ok(answer))) if answer.status < 300 => answer.body.ok_or(String::from("no body")),
        Ok(Ok(Ok(answer))) => Err(format!("{} {:?}", answer.status, answer.body)),
        Ok(Ok(Err(err))) => Err(err),
        Ok(Err(_)) => panic!("no answer"),
        Err(err) => panic!("client panics: {err}")
    }
}

impl Capture {
    /// From now on, requests are sent to this address.
    pub fn set_remote(&self, address: SocketAddr) {
        *self.remote.lock().unwrap() = Some(address);
    }

    /// What the server answers, an error when it refuses to read the request.
    pub async fn call(&self, path: &str, body: Option<Json>) -> Answer {
        let remote = *self.remote.lock().unwrap();

        if let Some(address) = remote {
            return through_socket(format!("http://{address}{path}"), body).await;
        }

        let method = if body.is_some() { "POST" } else { "GET" };
        let handler = self.routes.lock().unwrap().get(&(method, path.to_string())).cloned();

        match handler {
            Some(handler) => handler(body.as_ref().map(through_text)).await.map(|answer| through_text(&answer)),
            None => Err(String::from("not found"))
        }
    }
}

fn someone() -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 40_000))
}

#[async_trait::async_trait]
impl HttpServer for Capture {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static) {
        let mut real = std::mem::take(&mut *self.real.lock().unwrap());
        real.get(path.as_ref(), callback.clone()).await;
        *self.real.lock().unwrap() = real;

        let handler: Handler = Arc::new(move |_| {
            let callback = callback.clone();

            Box::pin(async move {
                callback(someone()).await.to_json().map_err(|err| err.to_string())
            })
        });

        self.routes.lock().unwrap().insert(("GET", path.as_ref().to_string()), handler);
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static) {
        let mut real = std::mem::take(&mut *self.real.lock().unwrap());
        real.post(path.as_ref(), callback.clone()).await;
        *self.real.lock().unwrap() = real;

        let handler: Handler = Arc::new(move |body| {
            let callback = callback.clone();

            Box::pin(async move {
                let request = T::from_json(&body.expect("body")).map_err(|err| err.to_string())?;
                callback(someone(), request).await.to_json().map_err(|err| err.to_string())
            })
        });

        self.routes.lock().unwrap().insert(("POST", path.as_ref().to_string()), handler);
    }

    async fn serve(self, address: impl ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> {
        let real = self.real.lock().unwrap().clone();
        real.serve(address).await
    }
}

type Transport = dyn Fn(String, Option<Json>) -> BoxFuture<Answer> + Send + Sync;

/// HTTP client with the given way to reach others.
#[derive(Clone)]
pub struct Net(Arc<Transport>);

impl Net {
    pub fn new(transport: impl Fn(String, Option<Json>) -> BoxFuture<Answer> + Send + Sync + 'static) -> Self {
        Self(Arc::new(transport))
    }

    /// No one can be reached.
    pub fn none() -> Self {
        Self::new(|_, _| Box::pin(async { Err(String::from("unreachable")) }))
    }
}

/// Answer without a body.
pub const EMPTY: &str = "empty";

fn response(answer: Answer) -> Result<Response, Box<dyn std::error::Error + Send + Sync>> {
    match answer {
        Ok(body) => Ok(Response { status: 200, body: Some(through_text(&body)) }),
        Err(reason) if reason == EMPTY => Ok(Response { status: 200, body: None }),
        Err(reason) => Err(reason.into())
    }
}

#[async_trait::async_trait]
impl HttpClient for Net {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<Response, Box<dyn std::error::Error + Send + Sync>> {
        response((self.0)(url.as_ref().to_string(), None).await)
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<Response, Box<dyn std::error::Error + Send + Sync>> {
        response((self.0)(url.as_ref().to_string(), Some(through_text(&body))).await)
    }
}

pub type Node = hyperborealib::rest_api::middleware::Server<Net, Capture, GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

/// A server of the library on the given storage folder.
pub async fn new_node(net: Net, secret_key: SecretKey, address: String, root: &std::path::Path) -> Result<Node, String> {
    let router = GlobalTableRouter::new(root.join("router")).await.map_err(|err| err.to_string())?;
    let inbox = StoredQueueMessagesInbox::new(root.join("inbox")).await.map_err(|err| err.to_string())?;
    let params = ServerParams { secret_key, address };
    let driver = ServerDriver::new(router, BfsRecursionTraversal, inbox, params);
    Ok(Node::new(net, Capture::default(), driver).await)
}
