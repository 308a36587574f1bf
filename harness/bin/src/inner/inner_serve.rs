//! A child module of `serve`: reaches its private items.
use super::*;
pub fn dir(path: &str, uri: &str) -> Response {
    let request = Request {
        method: humphrey::http::method::Method::Get,
        uri: uri.to_string(),
        query: String::new(),
        version: "HTTP/1.1".to_string(),
        headers: humphrey::http::headers::Headers::new(),
        content: None,
        address: humphrey::http::address::Address::new("127.0.0.1:1").unwrap(),
    };
    let state = Arc::new(State { path: path.to_string(), ..State::default() });
    serve_dir(request, state)
}
pub fn script() -> &'static [u8] {
    JS
}
pub type Clients = Arc<Mutex<Vec<WebsocketStream>>>;
pub fn watch(rx: Receiver<RawEvent>, clients: Clients, path: PathBuf, ctx: StuartContext) {
    build_watcher(rx, clients, path, ctx)
}
