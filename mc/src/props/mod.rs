use crate::engine::Ctx;

pub mod c01_loader;
pub mod c04_caches;
pub mod c08_requests;
pub mod c11_json;
pub mod c14_merge;
pub mod c16_text;
pub mod c19_types;
pub mod c22_errors;
pub mod c26_misc;
pub mod c28_serve;
pub mod c29_alone;
pub mod c30_query;
pub mod c31_args;
pub mod c32_request;
pub mod c33_types;
pub mod c34_join;
pub mod c35_graphql;
pub mod c36_grpc;
pub mod c37_generate;
pub mod c38_tidy;
mod c39_written;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

pub const MC: &str = "model_checking";
pub const EX: &str = "exploration";

pub static ALL: &[Prop] = &[
    c01_loader::C01, c01_loader::C02, c01_loader::C03,
    c04_caches::C04, c04_caches::C05, c04_caches::C06, c04_caches::C07,
    c08_requests::C08, c08_requests::C09, c08_requests::C10,
    c11_json::C11, c11_json::C12, c11_json::C13,
    c14_merge::C14, c14_merge::C15,
    c16_text::C16, c16_text::C17, c16_text::C18,
    c19_types::C19, c19_types::C20, c19_types::C21,
    c22_errors::C22, c22_errors::C23, c22_errors::C24, c22_errors::C25,
    c26_misc::C26, c26_misc::C27,
    c28_serve::C28, c29_alone::C29, c30_query::C30, c31_args::C31, c32_request::C32, c33_types::C33, c34_join::C34, c35_graphql::C35, c36_grpc::C36, c37_generate::C37, c38_tidy::C38, c39_written::C39,
];

pub fn info(id: &str) -> &'static Prop {
    ALL.iter().find(|p| p.id == id).unwrap()
}
