//! Offline stand-in.
pub enum Encryption { SHA256 }
pub enum HWIDComponent { SystemID, CPUCores }
pub struct IdBuilder;
impl IdBuilder {
    pub fn new(_e: Encryption) -> Self { IdBuilder }
    pub fn add_component(&mut self, _c: HWIDComponent) -> &mut Self { self }
    pub fn build(&mut self, _k: &str) -> Result<String, ()> { Ok("id".into()) }
}
