//! Stand-in for the parts of tonic that ampd uses. A "server" is a function registered under a URL.
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Code {
    NotFound,
    Internal,
    Unavailable,
}

#[derive(Clone, Debug)]
pub struct Status {
    code: Code,
    message: String,
}
impl Status {
    pub fn not_found(m: impl Into<String>) -> Self {
        Status { code: Code::NotFound, message: m.into() }
    }
    pub fn internal(m: impl Into<String>) -> Self {
        Status { code: Code::Internal, message: m.into() }
    }
    pub fn unavailable(m: impl Into<String>) -> Self {
        Status { code: Code::Unavailable, message: m.into() }
    }
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
}
impl fmt::Display for Status {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "status: {:?}, message: {:?}", self.code, self.message)
    }
}
impl std::error::Error for Status {}

pub struct Response<T>(pub T);
impl<T> Response<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}

pub mod transport {
    #[derive(Clone, Debug)]
    pub struct Channel;
    #[derive(Clone, Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("transport error")
        }
    }
    impl std::error::Error for Error {}
}

/// the tofnd server behind a URL
pub mod server {
    use super::Status;
    use std::collections::BTreeMap;
    use std::sync::{Arc, Mutex};

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Request {
        Keygen { key_uid: String, party_uid: String },
        Sign { key_uid: String, msg_to_sign: Vec<u8>, party_uid: String, pub_key: Vec<u8> },
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Reply {
        Empty,
        Bytes(Vec<u8>),
        Error(String),
    }
    pub type Server = Arc<dyn Fn(Request) -> Result<Reply, Status> + Send + Sync>;
    static SERVERS: Mutex<BTreeMap<String, Server>> = Mutex::new(BTreeMap::new());
    pub fn register(url: &str, s: Server) {
        SERVERS.lock().unwrap().insert(url.to_string(), s);
    }
    pub fn unregister(url: &str) {
        SERVERS.lock().unwrap().remove(url);
    }
    pub fn find(url: &str) -> Option<Server> {
        SERVERS.lock().unwrap().get(url).cloned()
    }
}

/// what tonic-build makes of ampd/proto/tofnd
#[macro_export]
macro_rules! include_proto {
    ("tofnd") => {
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        pub struct KeygenRequest {
            pub key_uid: String,
            pub party_uid: String,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        pub struct KeygenResponse {
            pub keygen_response: Option<keygen_response::KeygenResponse>,
        }
        pub mod keygen_response {
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub enum KeygenResponse {
                PubKey(Vec<u8>),
                Error(String),
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        pub struct SignRequest {
            pub key_uid: String,
            pub msg_to_sign: Vec<u8>,
            pub party_uid: String,
            pub pub_key: Vec<u8>,
        }
        #[derive(Clone, Debug, PartialEq, Eq, Default)]
        pub struct SignResponse {
            pub sign_response: Option<sign_response::SignResponse>,
        }
        pub mod sign_response {
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub enum SignResponse {
                Signature(Vec<u8>),
                Error(String),
            }
        }
        pub mod multisig_client {
            use tonic::server::{Reply, Request, Server};
            use tonic::{Response, Status};
            pub struct MultisigClient<T>(Server, std::marker::PhantomData<T>);
            impl MultisigClient<tonic::transport::Channel> {
                pub async fn connect(url: String) -> Result<Self, tonic::transport::Error> {
                    match tonic::server::find(&url) {
                        Some(s) => Ok(MultisigClient(s, std::marker::PhantomData)),
                        None => Err(tonic::transport::Error),
                    }
                }
                pub async fn keygen(&mut self, r: super::KeygenRequest) -> Result<Response<super::KeygenResponse>, Status> {
                    use super::keygen_response::KeygenResponse as K;
                    let reply = (self.0)(Request::Keygen { key_uid: r.key_uid, party_uid: r.party_uid })?;
                    Ok(Response(super::KeygenResponse {
                        keygen_response: match reply {
                            Reply::Empty => None,
                            Reply::Bytes(b) => Some(K::PubKey(b)),
                            Reply::Error(e) => Some(K::Error(e)),
                        },
                    }))
                }
                pub async fn sign(&mut self, r: super::SignRequest) -> Result<Response<super::SignResponse>, Status> {
                    use super::sign_response::SignResponse as S;
                    let reply = (self.0)(Request::Sign {
                        key_uid: r.key_uid,
                        msg_to_sign: r.msg_to_sign,
                        party_uid: r.party_uid,
                        pub_key: r.pub_key,
                    })?;
                    Ok(Response(super::SignResponse {
                        sign_response: match reply {
                            Reply::Empty => None,
                            Reply::Bytes(b) => Some(S::Signature(b)),
                            Reply::Error(e) => Some(S::Error(e)),
                        },
                    }))
                }
            }
        }
    };
}
