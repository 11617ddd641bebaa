//! Offline stand-in for the `genai` git dependency (never called by any check).
use std::fmt;
#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("genai stub")
    }
}
impl std::error::Error for Error {}
pub mod adapter {
    #[derive(Debug, Clone, Copy)]
    pub enum AdapterKind {
        Ollama,
    }
    impl AdapterKind {
        pub fn from_model(_m: &str) -> Result<Self, super::Error> {
            Err(super::Error)
        }
    }
    #[derive(Default, Debug, Clone)]
    pub struct AdapterConfig;
    impl AdapterConfig {
        pub fn with_auth_resolver(self, _r: super::resolver::AuthResolver) -> Self {
            self
        }
    }
}
pub mod resolver {
    pub struct AuthResolver;
    impl AuthResolver {
        pub fn from_key_value(_k: String) -> Self {
            AuthResolver
        }
    }
}
pub mod chat {
    #[derive(Default, Debug, Clone)]
    pub struct ChatOptions;
    impl ChatOptions {
        pub fn with_json_mode(self, _b: bool) -> Self {
            self
        }
        pub fn with_temperature(self, _t: f64) -> Self {
            self
        }
    }
    #[derive(Default, Debug, Clone)]
    pub struct ChatRequest {
        pub messages: Vec<ChatMessage>,
    }
    impl ChatRequest {
        pub fn new(messages: Vec<ChatMessage>) -> Self {
            Self { messages }
        }
    }
    #[derive(Debug, Clone)]
    pub struct ChatMessage(pub String);
    impl ChatMessage {
        pub fn system(s: impl Into<String>) -> Self {
            Self(s.into())
        }
        pub fn user(s: impl Into<String>) -> Self {
            Self(s.into())
        }
    }
    #[derive(Debug, Clone)]
    pub enum MessageContent {
        Text(String),
    }
    impl MessageContent {
        pub fn text_as_str(&self) -> Option<&str> {
            match self {
                MessageContent::Text(s) => Some(s),
            }
        }
    }
    #[derive(Default, Debug, Clone)]
    pub struct ChatResponse {
        pub content: Option<MessageContent>,
    }
}
#[derive(Clone, Debug)]
pub struct Client;
pub struct ClientBuilder;
impl Client {
    pub fn builder() -> ClientBuilder {
        ClientBuilder
    }
    pub async fn exec_chat(
        &self,
        _model: &str,
        _req: chat::ChatRequest,
        _o: Option<&chat::ChatOptions>,
    ) -> Result<chat::ChatResponse, Error> {
        Err(Error)
    }
}
impl ClientBuilder {
    pub fn with_chat_options(self, _o: chat::ChatOptions) -> Self {
        self
    }
    pub fn insert_adapter_config(self, _k: adapter::AdapterKind, _c: adapter::AdapterConfig) -> Self {
        self
    }
    pub fn build(self) -> Client {
        Client
    }
}
