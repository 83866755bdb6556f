//! Stand-in for `warp`: enough to type-check the HTTP `serve` subcommand. Never run.
pub mod http {
    pub struct StatusCode;
    impl StatusCode {
        pub const OK: StatusCode = StatusCode;
    }
}
pub mod reply {
    pub fn with_status<T>(_: T, _: super::http::StatusCode) {}
}
pub struct Flt;
pub trait Filter: Sized {
    fn and<F: Filter>(self, _: F) -> Flt {
        Flt
    }
    fn or<F: Filter>(self, _: F) -> Flt {
        Flt
    }
    fn map<A, F: MapFn<A>>(self, _: F) -> Flt {
        Flt
    }
}
pub trait MapFn<A> {}
impl<R, F: Fn() -> R> MapFn<()> for F {}
impl<R, F: Fn(bytes::Bytes) -> R> MapFn<(bytes::Bytes,)> for F {}
impl Filter for Flt {}
pub fn path(_: &str) -> Flt {
    Flt
}
pub fn post() -> Flt {
    Flt
}
pub fn get() -> Flt {
    Flt
}
pub mod body {
    pub fn bytes() -> super::Flt {
        super::Flt
    }
}
pub struct Server;
pub fn serve<F: Filter>(_: F) -> Server {
    Server
}
impl Server {
    pub async fn run<A>(self, _: A) {
        unimplemented!("no HTTP server in the monitoring build")
    }
}
