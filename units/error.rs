// ===== Error (extracted; foreign error types opaque) =====
#[verifier::external_body] #[derive(Debug)] pub struct EOpaque { x: u8 }
//@@ type path=butane_core/src/lib.rs name=Error subst="url::ParseError=>EOpaque;custom::SqlValCustom=>SqlValCustom;custom::SqlTypeCustom=>SqlTypeCustom;serde_json::Error=>EOpaque;std::io::Error=>EOpaque;rusqlite::Error=>EOpaque;rusqlite::types::FromSqlError=>EOpaque;tokio_postgres::Error=>EOpaque;chrono::ParseError=>EOpaque;std::cell::BorrowMutError=>EOpaque;native_tls::Error=>EOpaque;Box<dynstd::error::Error+Sync+Send>=>EOpaque;tokio::task::JoinError=>EOpaque;tokio::sync::oneshot::error::RecvError=>EOpaque;proc_macro2::LexError=>EOpaque"
pub type Result<T> = core::result::Result<T, Error>;
