//! Servers that are called directly, and clients that reach them by address.
#![allow(dead_code, unused_imports)]

use std::collections::HashMap;
use std::future::Future;
use std::net::{SocketAddr, ToSocketAddrs};
use std::pin::Pin;
use std::sync::{Arc, Mutex};

pub use hyperborealib::prelude::*;
pub use hyperborealib::rest_api::prelude::*;
pub use hyperborealib::http::client::Response as HttpResponse;
pub use hyperborealib::rest_api::prelude::Client as ClientRecord;
pub use hyperborealib::rest_api::prelude::Server as ServerRecord;
pub use hyperborealib::rest_api::prelude::Response as Answer;
pub use serde_json::{json, Value};

type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send>>;
type Handler = Arc<dyn Fn(Option<Value>) -> Boxed<Option<Value>> + Send + Sync>;

#[derive(Clone, Default)]
pub struct Capture(Arc<Mutex<HashMap<String, Handler>>>);

#[async_trait::async_trait]
impl HttpServer for Capture {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static) {
        self.0.lock().unwrap().insert(path.as_ref().to_string(), Arc::new(move |_| {
            let callback = callback.clone();
            Box::pin(async move { callback(([127, 0, 0, 1], 1).into()).await.to_json().ok() })
        }));
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(&mut self, path: impl AsRef<str> + Send, callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static) {
        self.0.lock().unwrap().insert(path.as_ref().to_string(), Arc::new(move |body| {
            let callback = callback.clone();
            Box::pin(async move {
                let request = T::from_json(&body?).ok()?;
                callback(([127, 0, 0, 1], 1).into(), request).await.to_json().ok()
            })
        }));
    }

    async fn serve(self, _address: impl ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> {
        Ok(())
    }
}

impl Capture {
    /// Answer of the endpoint, if there is one.
    pub async fn call(&self, endpoint: &str, body: Option<Value>) -> Option<Value> {
        let handler = self.0.lock().unwrap().get(&format!("/api/v1/{endpoint}")).cloned()?;
        handler(body).await
    }
}

/// Every request goes to the function, as address, endpoint and body.
#[derive(Clone)]
pub struct Net(pub Arc<dyn Fn(String, String, Option<Value>) -> Boxed<Option<Value>> + Send + Sync>);

impl Net {
    pub fn new(reach: impl Fn(String, String, Option<Value>) -> Option<Value> + Send + Sync + 'static) -> Self {
        Self(Arc::new(move |address, endpoint, body| {
            let answer = reach(address, endpoint, body);
            Box::pin(async move { answer })
        }))
    }

    async fn reach(&self, url: &str, body: Option<Value>) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
        let url = url.strip_prefix("http://").ok_or("no scheme")?;
        let (address, endpoint) = url.split_once("/api/v1/").ok_or("no endpoint")?;
        let answer = (self.0)(address.to_string(), endpoint.to_string(), body).await.ok_or("unreachable")?;
        Ok(HttpResponse { status: 200, body: Some(answer) })
    }
}

#[async_trait::async_trait]
impl HttpClient for Net {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
        self.reach(url.as_ref(), None).await
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Value) -> Result<HttpResponse, Box<dyn std::error::Error + Send + Sync>> {
        self.reach(url.as_ref(), Some(body)).await
    }
}

pub type Node = hyperborealib::rest_api::middleware::Server<Net, Capture, GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

/// A server with its storage in the folder of its name.
pub async fn node(secret_key: SecretKey, name: &str) -> Node {
    let router = GlobalTableRouter::new(format!("{name}/router")).await.unwrap();
    let inbox = StoredQueueMessagesInbox::new(format!("{name}/inbox")).await.unwrap();
    let params = ServerParams { secret_key, address: name.to_string() };
    let driver = ServerDriver::new(router, BfsRecursionTraversal, inbox, params);
    let nowhere = Net::new(|_, _, _| None);
    Node::new(nowhere, Capture::default(), driver).await
}

/// Network of the given servers.
pub fn network(nodes: Vec<(String, Capture)>) -> Net {
    let nodes: HashMap<_, _> = nodes.into_iter().collect();

    Net(Arc::new(move |address, endpoint, body| {
        let node = nodes.get(&address).cloned();
        Box::pin(async move { node?.call(&endpoint, body).await })
    }))
}

pub async fn post<Q: AsJson, A: AsJson>(node: &Node, endpoint: &str, request: &Q) -> A {
    let answer = node.http_server().call(endpoint, Some(request.to_json().unwrap())).await.expect("answer");
    A::from_json(&answer).expect("answer")
}

/// The client as connected to some server.
pub fn record(secret: &SecretKey, server: &PublicKey) -> ClientRecord {
    ClientRecord::new(secret.public_key(), ConnectionCertificate::new(secret, server.clone()), ClientInfo::thin())
}

pub fn sender(secret: &SecretKey) -> Sender {
    let server = SecretKey::random().public_key();
    Sender::new(record(secret, &server), ServerRecord::new(server, "a"))
}

pub fn message() -> Message {
    Message::new("content", "sign", MessageEncoding::default())
}
